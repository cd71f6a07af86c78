K = 'geometric/constraint.py'
ALL = """        for constraint in self.get_constraints_on(variables[0]):
            # default flag
            shared_constraint = True

            # loop over the variables in the rest of the list
            for var in variables[1:]:
                # is this variable constrained by this constraint?
                if var not in constraint.variables():
                    # this variable doesn't share the constraint
                    shared_constraint = False

                    # no point checking the others
                    break

            if shared_constraint:
                # add constraint to list of shared constraints
                shared_constraints.append(constraint)
"""
ANY = """        constraints = set([])

        for variable in variables:
            constraints.update(set(self.get_constraints_on(variable)))

        # return constraints set as a list
        return list(constraints)
"""
EDGES = """        for var in constraint.variables():
            # add the variable to the graph
            self.add_variable(var)

            # create edge in the graph for the variable
            self._graph.add_edge(var, constraint)
"""
REMV = """        for constraint in self.get_constraints_on(var_name):
            self.rem_constraint(constraint)
"""
SAT = """        return self.function(*[mapping[variable] for variable in \\
        self.variables()]) is True
"""
CWF = "        function = lambda x, y, z: not is_clockwise(x, y, z)\n"
EDITS = [
    # ------------------------------------------------ C14
    ('cg_edge_rev', ['C14'], True, [(K, "self._graph.add_edge(var, constraint)", "self._graph.add_edge(constraint, var)")]),
    ('cg_edge_new', ['C14'], True, [(K, EDGES, """        for var in constraint.variables():
            if var not in self._variables:
                self.add_variable(var)
                self._graph.add_edge(var, constraint)
""")]),
    ('cg_edge_first', ['C14'], True, [(K, EDGES, """        for var in constraint.variables()[:2]:
            self.add_variable(var)
            self._graph.add_edge(var, constraint)
""")]),
    ('cg_novar', ['C14'], True, [(K, EDGES, """        for var in constraint.variables():
            self._graph.add_edge(var, constraint)
""")]),
    ('cg_remvar_keep', ['C14'], True, [(K, REMV, "")]),
    ('cg_remvar_dict', ['C14'], True, [(K, REMV, """        for constraint in self.get_constraints_on(var_name):
            del self._constraints[constraint]
""")]),
    ('cg_remvar_graph', ['C14'], True, [(K, REMV, """        for constraint in self.get_constraints_on(var_name):
            self._graph.remove_vertex(constraint)
""")]),
    ('cg_remvar_all', ['C14'], True, [(K, REMV, """        for constraint in list(self.constraints()):
            if self.get_constraints_on(var_name):
                self.rem_constraint(constraint)
""")]),
    ('cg_remvar_late', ['C14'], True, [(K, REMV, ""), (K, """        self._graph.remove_vertex(var_name)
""", """        self._graph.remove_vertex(var_name)

        for constraint in self.get_constraints_on(var_name):
            self.rem_constraint(constraint)
""")]),
    ('cg_remcon_graph', ['C14'], True, [(K, """        # remove graph vertex associated with the constraint
        self._graph.remove_vertex(constraint)
""", "")]),
    ('cg_remcon_vars', ['C14'], True, [(K, """        # remove graph vertex associated with the constraint
        self._graph.remove_vertex(constraint)
""", """        # remove graph vertex associated with the constraint
        self._graph.remove_vertex(constraint)

        # forget variables without constraints
        for var in constraint.variables():
            if not self.get_constraints_on(var):
                del self._variables[var]
                self._graph.remove_vertex(var)
""")]),
    ('cg_remcon_edges', ['C14'], True, [(K, """        # remove graph vertex associated with the constraint
        self._graph.remove_vertex(constraint)
""", """        # remove the edges of the constraint
        for var in constraint.variables():
            if self._graph.has_edge(var, constraint):
                self._graph.remove_edge(var, constraint)
""")]),
    ('cg_remcon_unknown', ['C14'], True, [(K, """            "constraint that isn't in graph")

            return
""", """            "constraint that isn't in graph")
""")]),
    ('cg_addvar_nograph', ['C14'], True, [(K, """        # create a vertex in the graph for the variable
        self._graph.add_vertex(var_name)
""", "")]),
    ('cg_addcon_again', ['C14'], True, [(K, """        if constraint in self._constraints:
            return
""", """        if constraint in self._constraints:
            self.rem_constraint(constraint)
            return
""")]),
    ('cg_addcon_none', ['C14'], True, [(K, """        # create entry in constraints dict
        self._constraints[constraint] = None

        # create a vertex in the graph for the constraint
        self._graph.add_vertex(constraint)
""", """        # create a vertex in the graph for the constraint
        self._graph.add_vertex(constraint)
"""), (K, "            self._graph.add_edge(var, constraint)\n", """            self._graph.add_edge(var, constraint)

            # create entry in constraints dict
            self._constraints[constraint] = None
""")]),
    ('okcg_edges', ['C14', 'C15'], False, [(K, EDGES, """        names = constraint.variables()

        for var in names:
            self.add_variable(var)

        for var in names:
            self._graph.add_edge(var, constraint)
""")]),
    ('okcg_novertex', ['C14', 'C15'], False, [(K, EDGES, """        self._connect(constraint)

    def _connect(self, constraint):
        for var in constraint.variables():
            if var not in self._variables:
                self._variables[var] = None
            self._graph.add_edge(var, constraint)
""")]),
    ('okcg_sets', ['C14', 'C15'], False, [(K, "        self._variables = {}\n", "        self._variables = set()\n"),
        (K, "        self._constraints = {}\n", "        self._constraints = set()\n"),
        (K, "        self._variables[var_name] = None\n", "        self._variables.add(var_name)\n"),
        (K, "        self._constraints[constraint] = None\n", "        self._constraints.add(constraint)\n"),
        (K, "        del(self._variables[var_name])\n", "        self._variables.remove(var_name)\n"),
        (K, "        del(self._constraints[constraint])\n", "        self._constraints.discard(constraint)\n"),
        (K, "        return self._variables.keys()\n", "        return list(self._variables)\n"),
        (K, "        return self._constraints.keys()\n", "        return list(self._constraints)\n"),
        (K, "str(var) for var in self._variables.keys()", "str(var) for var in self._variables"),
        (K, "str(const) for const in self._constraints.keys()", "str(const) for const in self._constraints")]),
    ('okcg_remvar', ['C14'], False, [(K, REMV, """        doomed = [c for c in self._constraints
                  if self._graph.has_edge(var_name, c)]

        for constraint in doomed:
            self.rem_constraint(constraint)
""")]),
    ('okcg_remvar2', ['C14'], False, [(K, REMV, """        for constraint in self.get_constraints_on(var_name):
            del self._constraints[constraint]
            self._graph.remove_vertex(constraint)
""")]),
    ('okcg_remvar3', ['C14'], False, [(K, REMV, """        while self.get_constraints_on(var_name):
            self.rem_constraint(self.get_constraints_on(var_name)[0])
""")]),
    ('okcg_guard', ['C14'], False, [(K, """        if var_name in self._variables:
            return

        # create entry in variables dict
        self._variables[var_name] = None

        # create a vertex in the graph for the variable
        self._graph.add_vertex(var_name)
""", """        if var_name not in self._variables:
            self._graph.add_vertex(var_name)
            self._variables[var_name] = None
""")]),
    ('okcg_pop', ['C14'], False, [(K, """        del(self._constraints[constraint])
""", """        self._constraints.pop(constraint)
"""), (K, "        del(self._variables[var_name])\n", "        self._variables.pop(var_name, None)\n")]),
    # ------------------------------------------------ C15
    ('cq_on_in', ['C15'], True, [(K, "        return self._graph.outgoing_vertices(variable)\n", "        return self._graph.ingoing_vertices(variable)\n")]),
    ('cq_on_fail', ['C15'], True, [(K, """        if not self._graph.has_vertex(variable):
            # default to empty list
            return []

""", "")]),
    ('cq_all_any', ['C15'], True, [(K, "                    shared_constraint = False\n", "                    shared_constraint = len(variables) > 2\n")]),
    ('cq_all_last', ['C15'], True, [(K, ALL, """        for constraint in self.get_constraints_on(variables[0]):
            if variables[-1] in constraint.variables():
                shared_constraints.append(constraint)
""")]),
    ('cq_all_flag', ['C15'], True, [(K, """            # default flag
            shared_constraint = True

""", ""), (K, """        # loop over the constraints of the first variable in the list
""", """        shared_constraint = True

        # loop over the constraints of the first variable in the list
""")]),
    ('cq_all_second', ['C15'], True, [(K, "            for var in variables[1:]:\n", "            for var in variables[2:]:\n")]),
    ('cq_all_dup', ['C15'], True, [(K, ALL, """        for variable in variables:
            for constraint in self.get_constraints_on(variable):
                if all(v in constraint.variables() for v in variables):
                    shared_constraints.append(constraint)
""")]),
    ('cq_all_unreg', ['C15'], True, [(K, ALL, """        for constraint in self.constraints():
            if variables[0] in constraint.variables():
                shared_constraints.append(constraint)
""")]),
    ('cq_any_dup', ['C15'], True, [(K, ANY, """        constraints = []

        for variable in variables:
            constraints.extend(self.get_constraints_on(variable))

        return constraints
""")]),
    ('cq_any_sym', ['C15'], True, [(K, "            constraints.update(set(self.get_constraints_on(variable)))\n", "            constraints ^= set(self.get_constraints_on(variable))\n")]),
    ('cq_any_first', ['C15'], True, [(K, "            constraints.update(set(self.get_constraints_on(variable)))\n", "            constraints = constraints or set(self.get_constraints_on(variable))\n")]),
    ('cq_any_inter', ['C15'], True, [(K, ANY, """        constraints = set(self.get_constraints_on(variables[0]))

        for variable in variables[1:]:
            constraints &= set(self.get_constraints_on(variable))

        return list(constraints)
""")]),
    ('cq_all_pop', ['C15'], True, [(K, "        for constraint in self.get_constraints_on(variables[0]):\n", "        for constraint in self.get_constraints_on(variables.pop(0)):\n"),
        (K, "            for var in variables[1:]:\n", "            for var in variables:\n")]),
    ('okcq_all_comp', ['C15'], False, [(K, ALL, """        first, *rest = variables
        shared_constraints = [c for c in self.get_constraints_on(first)
                              if all(v in c.variables() for v in rest)]
""")]),
    ('okcq_all_comp2', ['C15'], False, [(K, ALL, """        for constraint in self.get_constraints_on(variables[0]):
            known = constraint.variables()
            if all(v in known for v in variables):
                shared_constraints.append(constraint)
""")]),
    ('okcq_all_sub', ['C15'], False, [(K, ALL, """        for constraint in self.get_constraints_on(variables[0]):
            if set(variables) <= set(constraint.variables()):
                shared_constraints.append(constraint)
""")]),
    ('okcq_all_sets', ['C15'], False, [(K, ALL, """        found = set(self.get_constraints_on(variables[0]))
        for var in variables[1:]:
            found &= set(self.get_constraints_on(var))
        shared_constraints = list(found)
""")]),
    ('okcq_all_else', ['C15'], False, [(K, ALL, """        for constraint in self.get_constraints_on(variables[0]):
            for var in variables[1:]:
                if var not in constraint.variables():
                    break
            else:
                shared_constraints.append(constraint)
""")]),
    ('okcq_all_edges', ['C15'], False, [(K, "                if var not in constraint.variables():\n", "                if constraint not in self.get_constraints_on(var):\n")]),
    ('okcq_any', ['C15'], False, [(K, ANY, """        found = []

        for variable in variables:
            for constraint in self.get_constraints_on(variable):
                if constraint not in found:
                    found.append(constraint)

        return found
""")]),
    ('okcq_any2', ['C15'], False, [(K, ANY, """        return list({c for v in variables for c in self.get_constraints_on(v)})
""")]),
    ('okcq_any3', ['C15'], False, [(K, ANY, """        return [c for c in self._constraints
                if any(v in c.variables() for v in variables)]
""")]),
    ('okcq_any4', ['C15'], False, [(K, ANY, """        return list(set().union(*[self.get_constraints_on(v)
                                  for v in variables]))
""")]),
    ('okcq_empty', ['C15'], False, [(K, """        # if no variables were specified, there are no shared constraints
        if len(variables) == 0:
""", """        # if no variables were specified, there are no shared constraints
        if not variables:
""")]),
    ('okcq_on', ['C15', 'C14'], False, [(K, """        if not self._graph.has_vertex(variable):
            # default to empty list
            return []

        # return the variable's outgoing vertices
        return self._graph.outgoing_vertices(variable)
""", """        if variable in self._variables:
            return list(self._graph.outgoing_vertices(variable))

        return []
""")]),
    # ------------------------------------------------ C16
    ('cc_vars_own', ['C16'], True, [(K, "            return list(self._variables)\n", "            return self._variables\n")]),
    ('cc_vars_sorted', ['C16'], True, [(K, "            return list(self._variables)\n", "            return sorted(self._variables, key=str)\n")]),
    ('cc_vars_set', ['C16'], True, [(K, "            return list(self._variables)\n", "            return list(set(self._variables))\n")]),
    ('cc_sel_alias', ['C16'], True, [(K, "        self._variables = list(variables)\n", "        self._variables = variables\n")]),
    ('cc_fn_truthy', ['C16'], None, [(K, SAT, """        return self.function(*[mapping[variable] for variable in \\
        self.variables()])
""")]),
    ('cc_fn_not', ['C16'], True, [(K, "        self.variables()]) is True\n", "        self.variables()]) is not None\n")]),
    ('cc_fn_rev', ['C16'], True, [(K, SAT, """        return self.function(*[mapping[variable] for variable in \\
        reversed(self.variables())]) is True
""")]),
    ('cc_fn_map', ['C16'], True, [(K, SAT, """        return self.function(*[mapping[variable] for variable in mapping \\
        if variable in self.variables()]) is True
""")]),
    ('cc_fn_dedup', ['C16'], True, [(K, SAT, """        points = {v: mapping[v] for v in self.variables()}

        return self.function(*points.values()) is True
""")]),
    ('cc_fn_default', ['C16'], True, [(K, SAT, """        if len(mapping) < 3:
            return True

        return self.function(*[mapping[variable] for variable in \\
        self.variables()]) is True
""")]),
    ('cc_plus', ['C16'], True, [(K, """        return mapping[self._variables[0]] + mapping[self._variables[1]] \\
         == mapping[self._variables[2]]
""", """        return mapping[self._variables[0]] + mapping[self._variables[2]] \\
         == mapping[self._variables[1]]
""")]),
    ('cc_cw_ccw', ['C16'], True, [(K, CWF, "        function = lambda x, y, z: is_counterclockwise(x, y, z)\n")]),
    ('cc_cw_args', ['C16'], True, [(K, CWF, "        function = lambda x, y, z: not is_clockwise(x, z, y)\n")]),
    ('cc_obtuse', ['C16'], True, [(K, "not is_obtuse(x, y, z)", "is_acute(x, y, z)")]),
    ('cc_acute', ['C16'], True, [(K, "not is_acute(x, y, z)", "not is_acute(y, x, z)")]),
    ('cc_cw_order', ['C16'], True, [(K, "(function, [v1, v2, v3], \\\n        name=\"NotClockwiseConstraint\")", "(function, [v1, v3, v2], \\\n        name=\"NotClockwiseConstraint\")")]),
    ('okcc_cw_cyclic', ['C16'], False, [(K, CWF, "        function = lambda x, y, z: not is_clockwise(y, z, x)\n")]),
    ('okcc_named', ['C16'], False, [(K, CWF, """        def function(x, y, z):
            if is_clockwise(x, y, z):
                return False
            return True
""")]),
    ('okcc_static', ['C16'], False, [(K, CWF, "        function = self._test\n"), (K, """    def __init__(self, v1, v2, v3):
        \"\"\"Instantiate a NotClockwiseConstraint
""", """    @staticmethod
    def _test(x, y, z):
        return not is_clockwise(x, y, z)

    def __init__(self, v1, v2, v3):
        \"\"\"Instantiate a NotClockwiseConstraint
""")]),
    ('okcc_sat', ['C16'], False, [(K, SAT, """        points = [mapping[variable] for variable in self._variables]
        result = self.function(*points)

        return result is True
""")]),
    ('okcc_sat2', ['C16'], False, [(K, SAT, """        return bool(self.function(*map(mapping.get, self.variables())))
""")]),
    ('okcc_vars', ['C16'], False, [(K, "            return list(self._variables)\n", "            return self._variables[:]\n")]),
    ('okcc_vars2', ['C16'], False, [(K, "            return list(self._variables)\n", "            return [v for v in self._variables]\n")]),
    ('okcc_tuple', ['C16'], False, [(K, "        self._variables = list(variables)\n", "        self._variables = tuple(variables)\n")]),
    ('okcc_plus', ['C16'], False, [(K, """        return mapping[self._variables[0]] + mapping[self._variables[1]] \\
         == mapping[self._variables[2]]
""", """        a, b, c = [mapping[v] for v in self._variables]

        return a + b == c
""")]),
    ('okcc_super', ['C16'], False, [(K, "        super(FunctionConstraint, self).__init__(name, variables)\n", "        super().__init__(name, variables)\n")]),
    ('okcc_hasattr', ['C16'], False, [(K, """        if hasattr(self, "_variables"):
            # return list of variables
            return list(self._variables)
        else:
            # subclass hasn't set _variables or overridden this function
            raise NotImplementedError
""", """        try:
            return list(self._variables)
        except AttributeError:
            raise NotImplementedError
""")]),
]
