"""State that earlier operations leave behind (caches and indices)."""

F = 'method.py'
GR = 'graph.py'
CO = 'geometric/constraint.py'


def src(f):
    return open('/repo/solver/' + f).read()


def many(f, *pairs):
    s = src(f)
    for a, b in pairs:
        assert s.count(a) == 1, (s.count(a), a)
        s = s.replace(a, b)
    return [(f, src(f), s)]


INIT = """        # collection of changed variables since last propagation
        self._changed = {}
"""
CHECK = "            if len(self._graph.ingoing_vertices(var)) > 1:\n"
REM = """        del(self._methods[met])
        self._graph.remove_vertex(met)
"""
CALL = """            outmap = method.execute(inmap)
"""
PICK = "            methods = self._graph.outgoing_vertices(pick)\n"
ACC = """        if prop:
            # execute includes propagation
"""

TOP = """class Graph(object):
    \"\"\"A weighted directed graph\"\"\"
"""
FOUND = ("""        self._forward = {}
""", """        self._found = {}
        self._forward = {}
""")
WORK = "        # work out which edge function to use\n"
CONL = """        # convert result to a list
        return list(connected)
"""
KEYED = """        key = vertex, ingoing, outgoing
        if key in self._found:
            return list(self._found[key])

"""
CONK = """        found = list(connected)
        self._found[key] = found
        return list(found)
"""
CLR = "        self._found = {}\n"
ADDE = """        # add edge
        if v2 not in self._forward[v1]:
"""
ADDV = "        # add vertex to each dict\n"
REME = """        # remove edges from dicts
        del self._forward[v1][v2]
"""
REMV = """        # remove vertex in dicts
"""
PATH = "        # map from vertices to shortest path to that key vertex\n"
PKEY = """        pair = start, end
        if pair in self._found:
            return list(self._found[pair])

"""
PEND = """                    return this_path + [v]
"""
PKEEP = """                    found = this_path + [v]
                    self._found[pair] = found
                    return list(found)
"""
SUB = ("        # set of vertices to get subsets for\n", """        if "subsets" in self._found:
            return set(self._found["subsets"])

        # set of vertices to get subsets for
""")
SUBR = ("        return subsets\n", """        self._found["subsets"] = set(subsets)
        return subsets
""")

EDITS = [
    ('k_skip_same', ['C10', 'C09'], True, many(F, (INIT, INIT + "        self._last = {}\n"), (CALL, """            args = tuple(inmap[var] for var in method.inputs)

            if self._last.get(method, None) == (args,):
                return

            self._last[method] = (args,)
            outmap = method.execute(inmap)
"""))),
    ('k_results', ['C11'], True, many(F, (INIT, INIT + "        self._results = {}\n"), (CALL, """            key = (method, tuple(inmap[var] for var in method.inputs))

            if key not in self._results:
                self._results[key] = method.execute(inmap)

            outmap = self._results.pop(key) if False else self._results[key]

            if outmap is None:
                outmap = {}
"""), (REM, REM + "        self._results = {k: None for k in self._results}\n"))),
    ('k_dependents', ['C09', 'C08', 'C11'], True, many(F, (INIT, INIT + "        self._dependents = {}\n"), (PICK, """            if pick not in self._dependents:
                self._dependents[pick] = self._graph.outgoing_vertices(pick)

            methods = self._dependents[pick]
"""))),
    ('k_dependents_lazy', ['C09', 'C08', 'C11'], True, many(F, (PICK, """            if not hasattr(self, "_dependents"):
                self._dependents = {}

            if pick not in self._dependents:
                self._dependents[pick] = self._graph.outgoing_vertices(pick)

            methods = self._dependents[pick]
"""))),
    ('okk_dependents', ['C08', 'C09', 'C10', 'C11'], False, many(F, (INIT, INIT + "        self._dependents = {}\n"), (PICK, """            if pick not in self._dependents:
                self._dependents[pick] = self._graph.outgoing_vertices(pick)

            methods = self._dependents[pick]
"""), (REM, REM + "        self._dependents.clear()\n"), ("        self._methods[met] = 1\n", "        self._methods[met] = 1\n        self._dependents.clear()\n"))),
    ('k_output_index_rem', ['C08'], True, many(F, (INIT, INIT + "        self._by_output = {}\n"), (CHECK, "            if var in self._by_output:\n"), (ACC, """        for var in met.outputs:
            self._by_output[var] = met

""" + ACC))),
    ('k_output_index_refused', ['C08'], True, many(F, (INIT, INIT + "        self._by_output = {}\n"), (CHECK, "            if self._by_output.setdefault(var, met) is not met:\n"), (REM, REM + """
        for var in met.outputs:
            self._by_output.pop(var, None)
"""))),
    ('okk_output_index', ['C08', 'C11'], False, many(F, (INIT, INIT + "        self._by_output = {}\n"), (CHECK, "            if var in self._by_output:\n"), (ACC, """        for var in met.outputs:
            self._by_output[var] = met

""" + ACC), (REM, REM + """
        for var in met.outputs:
            if self._by_output.get(var) is met:
                del self._by_output[var]
"""))),
    ('k_path_cached', ['C08'], True, many(GR, ("    def path(self, start, end):", "    @functools.lru_cache(maxsize=None)\n    def path(self, start, end):"), ("class Graph(object):", "import functools\n\n\nclass Graph(object):"))),
    ('k_out_cached', ['C05', 'C01'], True, many(GR, ("    def outgoing_vertices(self, vertex):", "    @lru_cache(maxsize=None)\n    def outgoing_vertices(self, vertex):"), ("class Graph(object):", "from functools import lru_cache\n\n\nclass Graph(object):"))),
    ('k_vertices_once', ['C05', 'C01'], True, many(GR, ("    def vertices(self):", "    @functools.cached_property\n    def _all(self):\n        return list(self._forward)\n\n    def vertices(self):"), ("return list(self._forward)", "return list(self._all)"), ("class Graph(object):", "import functools\n\n\nclass Graph(object):"))) if False else
    ('k_map_view', ['C11', 'C10'], True, many(F, (INIT, INIT + "        self._names = None\n"), ("        return self._map.keys()\n", """        if self._names is None:
            self._names = list(self._map)

        return self._names
"""))),
    ('k_nodeco', ['C08'], False, many(GR, ("    def path(self, start, end):", "    @_plain\n    def path(self, start, end):"), ("class Graph(object):", "def _plain(function):\n    return function\n\n\nclass Graph(object):"))),
    ('k_clear_pending', ['C11', 'C09'], True, many(F, ("""        if varname in self._changed:
            del(self._changed[varname])

        # delete""", """        self._removed = varname

        # delete"""), (PICK, """            if pick == getattr(self, "_removed", None):
                del self._changed[pick]
                continue

""" + PICK))),
    ('k_cg_index', ['C14', 'C15'], True, many(CO, ("        self._graph = Graph()\n", "        self._graph = Graph()\n        self._on = {}\n"), ("        return self._graph.outgoing_vertices(variable)\n", """        if variable not in self._on:
            self._on[variable] = self._graph.outgoing_vertices(variable)

        return list(self._on[variable])
"""), ("            self._graph.add_edge(var, constraint)\n", """            self._graph.add_edge(var, constraint)
            self._on.pop(var, None)
"""))),
    ('okk_cg_index', ['C14', 'C15'], False, many(CO, ("        self._graph = Graph()\n", "        self._graph = Graph()\n        self._on = {}\n"), ("        return self._graph.outgoing_vertices(variable)\n", """        if variable not in self._on:
            self._on[variable] = self._graph.outgoing_vertices(variable)

        return list(self._on[variable])
"""), ("            self._graph.add_edge(var, constraint)\n", """            self._graph.add_edge(var, constraint)
            self._on.pop(var, None)
"""), ("        del(self._constraints[constraint])\n", """        del(self._constraints[constraint])
        self._on.clear()
"""))),
    ('k_cg_shared', ['C15'], True, many(CO, ("        self._graph = Graph()\n", "        self._graph = Graph()\n        self._shared = {}\n"), ("        shared_constraints = []\n", """        if tuple(variables) in self._shared:
            return list(self._shared[tuple(variables)])

        shared_constraints = []
"""), ("        return shared_constraints\n", """        self._shared[tuple(variables)] = list(shared_constraints)

        return shared_constraints
"""), ("        self._graph.add_vertex(constraint)\n", """        self._graph.add_vertex(constraint)
        self._shared = {}
"""))),
    ('k_cg_shared_own', ['C15'], True, many(CO, ("        self._graph = Graph()\n", "        self._graph = Graph()\n        self._shared = {}\n"), ("        shared_constraints = []\n", """        if tuple(variables) in self._shared:
            return self._shared[tuple(variables)]

        shared_constraints = []
"""), ("        return shared_constraints\n", """        self._shared[tuple(variables)] = shared_constraints

        return shared_constraints
"""), ("        self._graph.add_vertex(constraint)\n", """        self._graph.add_vertex(constraint)
        self._shared = {}
"""), ("        del(self._constraints[constraint])\n", """        del(self._constraints[constraint])
        self._shared = {}
"""))),
    ('k_cg_declared', ['C14'], True, many(CO, ("        # process the constraint's variables\n", """        self._declared.update(constraint.variables())

        # process the constraint's variables
"""), ("        self._graph = Graph()\n", "        self._graph = Graph()\n        self._declared = set()\n"), ("        # only add if it doesn't already exist\n        if var_name in self._variables:\n", "        # only add if it doesn't already exist\n        if var_name in self._variables or var_name in self._declared and not self._constraints:\n"))),
]

CL = 'geometric/cluster.py'
DIST_ = """        # shared variables between this rigid and the other
        shared = list(set(self.vars) & set(other.vars))
"""
SHARE = """        shared = self.vars & other.vars
"""
ANG = """        if isinstance(other, Rigid):
            return self.common_angles_rigid(other)
"""
OVER = """        self.overconstrained = False
"""
NANG = """    def n_angles(self):
        return int(binom(len(self.x_vars), 2))
"""
EDITS += [
    # kinds of clusters remembered, not the clusters
    ('kc_kind', ['C19'], True, many(CL, (OVER, OVER + """        self._angles = {}
"""), (ANG, """        if type(other) in self._angles:
            return set(self._angles[type(other)])
        if isinstance(other, Rigid):
            found = self._angles[Rigid] = self.common_angles_rigid(other)
            return set(found)
"""))),
    # the centre is not part of the key
    ('kc_shared', ['C17'], True, many(CL, ("""    pretty_name = "Cluster"
""", """    pretty_name = "Cluster"
    _meets = {}
"""), ("            return self.intersect_hedgehog(shared, other)\n", """            key = type(self), frozenset(shared)
            if key not in self._meets:
                self._meets[key] = self.intersect_hedgehog(shared, other)
            return self._meets[key]
"""))),
    ('okk_count', ['C20', 'C18', 'C17', 'C19', 'C37'], False, many(CL, (
        """    pretty_name = "Hedgehog"
""", """    pretty_name = "Hedgehog"
    _count = None
"""), (NANG, """    def n_angles(self):
        if self._count is None:
            self._count = int(binom(len(self.x_vars), 2))
        return self._count
"""))),
    ('okk_angles', ['C19', 'C17', 'C18', 'C20', 'C37'], False, many(CL, (
        OVER, OVER + """        self._angles = {}
"""), (ANG, """        if other in self._angles:
            return set(self._angles[other])
        if isinstance(other, Rigid):
            found = self._angles[other] = self.common_angles_rigid(other)
            return set(found)
"""))),
    ('okk_lru', ['C19', 'C17', 'C18', 'C20', 'C37'], False, many(CL, (
        "import abc\n", "import abc\nimport functools\n"), (
            "    def intersection(self, other):\n",
            "    @functools.lru_cache(maxsize=None)\n"
            "    def intersection(self, other):\n"))),
    # sorting what need not be comparable
    ('kc_sorted', ['C19'], True, many(CL, (DIST_, DIST_.replace(
        "list(set(self.vars) & set(other.vars))",
        "sorted(set(self.vars) & set(other.vars))")))),
    ('okk_sorted', ['C19'], False, many(CL, (DIST_, DIST_.replace(
        "list(set(self.vars) & set(other.vars))",
        "sorted(set(self.vars) & set(other.vars), key=str)")))),
    # answers of graph searches that are kept
    ('kg_con_class', ['C07'], True, many(GR, (TOP, TOP + """
    _last = None
"""), (WORK, """        key = vertex, ingoing, outgoing
        last = Graph._last
        if last is not None and last[0] is self and last[1] == key:
            return list(last[2])

""" + WORK), (CONL, """        Graph._last = self, key, list(connected)
        return list(connected)
"""))),
    ('kg_con_global', ['C07'], True, many(GR, (TOP, "_last = None\n\n" + TOP), (
        WORK, """        global _last
        key = vertex, ingoing, outgoing
        if _last is not None and _last[0] is self and _last[1] == key:
            return list(_last[2])

""" + WORK), (CONL, """        _last = self, key, list(connected)
        return list(connected)
"""))),
    ('kg_con_removal', ['C07'], True, many(GR, FOUND, (WORK, KEYED + WORK), (
        CONL, CONK), (ADDE, CLR + ADDE), (ADDV, CLR + ADDV))),
    ('kg_con_addition', ['C07'], True, many(GR, FOUND, (WORK, KEYED + WORK), (
        CONL, CONK), (REME, CLR + REME), (REMV, CLR + REMV))),
    ('kg_con_shared', ['C07'], True, many(GR, FOUND, (
        WORK, KEYED.replace("list(self._found[key])", "self._found[key]") +
        WORK), (CONL, CONK.replace("list(found)", "found")), (
            ADDE, CLR + ADDE), (ADDV, CLR + ADDV), (REME, CLR + REME),
        (REMV, CLR + REMV))),
    ('kg_con_flags', ['C07'], True, many(GR, FOUND, (
        WORK, KEYED.replace("vertex, ingoing, outgoing",
                            "vertex, ingoing") + WORK), (CONL, CONK), (
            ADDE, CLR + ADDE), (ADDV, CLR + ADDV), (REME, CLR + REME),
        (REMV, CLR + REMV))),
    ('okg_con', ['C07', 'C01', 'C02', 'C03', 'C04', 'C05', 'C06'], False,
     many(GR, FOUND, (WORK, KEYED + WORK), (CONL, CONK), (
         ADDE, CLR + ADDE), (ADDV, CLR + ADDV), (REME, CLR + REME),
         (REMV, CLR + REMV))),
    ('kg_path_removal', ['C06'], True, many(GR, FOUND, (PATH, PKEY + PATH), (
        PEND, PKEEP), (ADDE, CLR + ADDE), (ADDV, CLR + ADDV))),
    ('okg_path_found', ['C06'], False, many(GR, FOUND, (
        PATH, PKEY + PATH), (PEND, PKEEP), (REME, CLR + REME),
        (REMV, CLR + REMV))),
    ('kg_path_shared', ['C06'], True, many(GR, FOUND, (PATH, PKEY.replace(
        "list(self._found[pair])", "self._found[pair]") + PATH), (
            PEND, PKEEP.replace("list(found)", "found")), (ADDE, CLR + ADDE), (
                ADDV, CLR + ADDV), (REME, CLR + REME), (REMV, CLR + REMV))),
    ('okg_path', ['C06', 'C01', 'C02', 'C03', 'C04', 'C05', 'C07'], False,
     many(GR, FOUND, (PATH, PKEY + PATH), (PEND, PKEEP), (
         ADDE, CLR + ADDE), (ADDV, CLR + ADDV), (REME, CLR + REME),
         (REMV, CLR + REMV))),
    ('kg_sub_removal', ['C07'], True, many(GR, FOUND, SUB, SUBR, (
        ADDE, CLR + ADDE), (ADDV, CLR + ADDV))),
    ('okg_sub', ['C07', 'C01', 'C03', 'C04', 'C05'], False, many(
        GR, FOUND, SUB, SUBR, (ADDE, CLR + ADDE), (ADDV, CLR + ADDV), (
            REME, CLR + REME), (REMV, CLR + REMV))),
]
