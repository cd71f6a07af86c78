GR, ME, GE = 'graph.py', 'method.py', 'geometry.py'
CL, CF, CO, RE = ('geometric/cluster.py', 'geometric/configuration.py',
                  'geometric/constraint.py', 'geometric/relation.py')
L = ['C34']
EDITS = [
    # ------------------------------------------------------------------ C34
    ('l_name', L, True, [(CL, 'raise TypeError("Unknown other cluster type")',
                          'raise TypeErr("Unknown other cluster type")')]),
    ('l_selfattr', L, True, [(ME, "        self._changed[varname] = 1\n\n        if prop",
                              "        self._change[varname] = 1\n\n        if prop")]),
    ('l_selfmethod', L, True, [(CL, "return self.common_angles_balloon(other)",
                                "return self.common_angle_balloon(other)")]),
    ('l_static', L, True, [(CF, "            if Scalar.tol_zero((p22 - p21).length):",
                            "            if Scalar.tolzero((p22 - p21).length):")]),
    ('l_property_call', L, None, [(CF, "(p22 - p21).length)", "(p22 - p21).length())")]),
    ('l_method_uncalled', ['C24'], True, [(CF, "set(self.vars()) & set(other.vars())",
                                     "set(self.vars()) & set(other.vars)")]),
    ('l_arity', L, True, [(CF, "cs_transform_matrix(cs2, cs1)",
                           "cs_transform_matrix(cs2)")]),
    ('l_ctor', L, True, [(CL, "            return Hedgehog(hedgehog.c_var, x_vars)\n\n        return None\n\n    def intersect_balloon(self, shared, balloon):\n        # call",
                          "            return Hedgehog(x_vars)\n\n        return None\n\n    def intersect_balloon(self, shared, balloon):\n        # call")]),
    ('l_kw', L, True, [(GR, "return self.connected(ingoing=True, outgoing=False, *args, **kwargs)",
                        "return self.connected(incoming=True, outgoing=False, *args, **kwargs)")]),
    ('l_super', L, True, [(ME, 'super(SubMethod, self).__init__("SubMethod", inputs=[a, b], outputs=[c])',
                           'super(SubMethod, self).__init__("SubMethod", input=[a, b], outputs=[c])')]),
    ('l_import', L, True, [(CL, "from .relation import Distance, Angle",
                            "from .relation import Distance\nfrom .relation import Angel as Angle")]),
    ('l_abstract_made', L, True, [(CL, "            return Hedgehog(hedgehog.c_var, x_vars)\n\n        return None\n\n    def intersect_balloon(self, shared, balloon):\n        # call",
                                   "            return Cluster(x_vars)\n\n        return None\n\n    def intersect_balloon(self, shared, balloon):\n        # call")]),
    ('l_raise', L, True, [(CO, "    @abc.abstractmethod\n    def __str__(self):\n        raise NotImplementedError",
                           "    @abc.abstractmethod\n    def __str__(self):\n        raise NotImplemented")]),
    ('l_format', L, True, [(ME, '"MethodGraph(variables=[{0}], methods=[{1}])".format(variables, \\\n        methods)',
                            '"MethodGraph(variables=[{0}], methods=[{1}])".format(variables)')]),
    ('l_percent', L, True, [(ME, '            return "MultiVariable#{0}".format(id(self))',
                             '            return "MultiVariable#%s of %s" % (id(self),)')]),
    ('l_unbound', L, True, [(ME, "        if a in in_map and b in in_map \\\n        and in_map[a] is not None and in_map[b] is not None:\n            # set the value in the output map\n            out_map[c] = in_map[a] - in_map[b]",
                             "        if a in in_map and b in in_map \\\n        and in_map[a] is not None and in_map[b] is not None:\n            # set the value in the output map\n            out_map[c] = value - in_map[b]\n            value = in_map[a]")]),
    ('l_never_set', L, True, [(CL, "        # default overconstrained flag\n        self.overconstrained = False\n", "")]),
    ('l_stdlib', L, True, [(CL, 'logging.getLogger("cluster")', 'logging.getLoger("cluster")')]),
    # --- keep everything
    ('okl_alias_import', L, False, [(CL, "import logging\n", "import logging as log\n"),
                                    (CL, 'logging.getLogger("cluster")', 'log.getLogger("cluster")')]),
    ('okl_modimport', L, False, [(CL, "from .relation import Distance, Angle",
                                  "from . import relation\nDistance = relation.Distance\nAngle = relation.Angle")]),
    ('okl_lazy', L + ['C37'], False, [(CL, "        return list(self.vars)",
                               "        if not hasattr(self, '_list'):\n            self._list = None\n        return list(self.vars)")]),
    ('okl_try', L, False, [(CL, "        return list(self.vars)",
                            "        try:\n            return list(self.cached_vars)\n        except AttributeError:\n            return list(self.vars)")]),
    ('okl_temp', L, False, [(CL, "        return list(self.vars)",
                             "        self._tmp = self.vars\n        return self._take()\n\n    def _take(self):\n        return list(self._tmp)")]),
    ('okl_helperinit', L, False, [(CL, "        # default overconstrained flag\n        self.overconstrained = False\n",
                                   "        self._reset()\n\n    def _reset(self):\n        self.overconstrained = False\n")]),
    ('okl_nested', L, False, [(GR, "        for i in self._forward:\n            v = \", \".join([\"{0}: {1}\".format(j, self.get(i, j)) for j in self._forward[i]])\n",
                               "        def row(i):\n            return \", \".join(text(i, j) for j in self._forward[i])\n\n        def text(i, j, form=\"{0}: {1}\"):\n            return form.format(j, self.get(i, j))\n\n        for i in self._forward:\n            v = row(i)\n")]),
    ('okl_walrus', L, False, [(CF, "        if len(shared) == 0:", "        if (n := len(shared)) == 0:"),
                              (CF, "        elif len(shared) == 1:", "        elif n == 1:")]),
    ('okl_starargs', L, False, [(CF, "cs_transform_matrix(cs2, cs1)", "cs_transform_matrix(*[cs2, cs1])")]),
    ('okl_lambda', L, False, [(CF, "        t = cs_transform_matrix(cs2, cs1)",
                               "        transform = lambda a, b: cs_transform_matrix(b, a)\n        t = transform(cs1, cs2)")]),
    ('okl_while_bound', L, False, [(GR, "        while len(front) > 0:\n            # get next connected vertex\n            x = front.pop()\n",
                                    "        while True:\n            if not front:\n                break\n            x = front.pop()\n")]),
    ('okl_constant', L + ['C37'], False, [(CL, 'pretty_name = "Rigid"', 'pretty_name = "Rigid"\n    kinds = ["rigid", "body"]')]),
    # ------------------------------------------------------------------ C35
    ('l_noabstract', ['C35'], True, [(CL, "    @abc.abstractmethod\n    def common_distances", "    def common_distances")]),
    ('l_noabc', ['C35'], True, [(RE, "class PointRelation(object, metaclass=abc.ABCMeta)", "class PointRelation(object)")]),
    ('l_multi', ['C35'], True, [(ME, "    @abc.abstractmethod\n    def multi_execute", "    def multi_execute")]),
    ('l_unhash', ['C35'], True, [(RE, "        super(Angle, self).__init__([a, b, c])\n\n    # defining equality would otherwise remove the inherited hash\n    __hash__ = PointRelation.__hash__\n",
                                  "        super(Angle, self).__init__([a, b, c])\n")]),
    ('l_unhash2', ['C35'], True, [(ME, "class SetMethod(Method):\n", "class SetMethod(Method):\n    def __eq__(self, other):\n        return self is other\n\n")]),
    ('l_renamed', ['C35'], True, [(CL, "    def common_angles_balloon(self, balloon):\n        # call balloon's","    def common_angles_ballon(self, balloon):\n        # call balloon's")]),
    ('okl_abcbase', ['C35', 'C34'], False, [(RE, "import abc\n", "from abc import ABC, abstractmethod\n"),
                                     (RE, "class PointRelation(object, metaclass=abc.ABCMeta)", "class PointRelation(ABC)"),
                                     (RE, "@abc.abstractmethod", "@abstractmethod")]),
    ('okl_eqhash', ['C35'], False, [(ME, "class SetMethod(Method):\n", "class SetMethod(Method):\n    def __eq__(self, other):\n        return self is other\n\n    def __hash__(self):\n        return id(self)\n\n")]),
    # ------------------------------------------------------------------ C36
    ('p_join', ['C36'], True, [(CL, '", ".join([str(var) for var in self.var_list()])', '", ".join(self.var_list())')]),
    ('p_concat', ['C36'], True, [(ME, 'return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)',
                                  'return self.name + "(" + self.outputs[0] + "=" + str(self._value) + ")"')]),
    ('p_name', ['C36'], True, [(CO, 'function = getattr(self.function, "__name__", self.function)', 'function = self.function.__name__')]),
    ('p_vars', ['C36'], True, [(CO, 'return "{0}({1}, {2})".format(self.name, function, \\\n        ", ".join([str(var) for var in self.variables()]))',
                                'return "{0}({1}, {2})".format(self.name, function, \\\n        ", ".join(self.variables()))')]),
    ('p_left_out', ['C36'], True, [(ME, '" + ".join([str(_input) for _input in self.inputs])', '" + ".join([str(_input) for _input in self.inputs[1:]])')]),
    ('p_left_out2', ['C36'], True, [(ME, 'return "{0}({1} -> {2})".format(self.name, input_str, \\\n        output_str)',
                                     'return "{0}({1} -> {1})".format(self.name, input_str, \\\n        output_str)')]),
    ('p_graph_dir', ['C36'], True, [(GR, 'self.get(i, j)) for j in self._forward[i]])', 'self.get(j, i)) for j in self._forward[i]])')]),
    ('p_graph_rows', ['C36'], True, [(GR, '            s.append("{0}: {{{1}}}".format(i, v))', '            if v:\n                s.append("{0}: {{{1}}}".format(i, v))')]),
    ('p_mg', ['C36'], True, [(ME, '", ".join([str(element) for element in self._methods.keys()])', '", ".join([str(element) for element in self._changed.keys()])')]),
    ('p_vector', ['C36'], True, [(GE, 'return "({0:.3f}, {1:.3f})".format(self.x, self.y)', 'return "({0:.3f}, {1:.3f})".format(self.x, self.x)')]),
    ('p_assign', ['C36'], True, [(ME, 'return "{0}({1}={2})".format(self.name, self.outputs[0], \\\n        self.inputs[0])',
                                  'return "{0}({1}={2})".format(self.name, self.outputs[0], \\\n        self.inputs[1])')]),
    ('okp_map', ['C36'], False, [(CL, '", ".join([str(var) for var in self.var_list()])', '", ".join(map(str, self.vars))')]),
    ('okp_fstring', ['C36'], False, [(ME, 'return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)',
                                      'return f"{self.name}({self.outputs[0]}={self._value})"')]),
    ('okp_concat', ['C36'], False, [(ME, 'return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)',
                                     'return str(self.name) + "(" + str(self.outputs[0]) + "=" + str(self._value) + ")"')]),
    ('okp_percent', ['C36'], False, [(ME, 'return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)',
                                      'return "%s(%s=%s)" % (self.name, self.outputs[0], self._value)')]),
    ('okp_gen', ['C36'], False, [(GR, 'self.get(i, j)) for j in self._forward[i]])', 'w) for j, w in self._forward[i].items()])')]),
    ('okp_loop', ['C36'], False, [(ME, '" + ".join([str(_input) for _input in self.inputs])', 'self._joined(self.inputs)'),
                                  (ME, "class AddMethod(Method):", "class AddMethod(Method):\n    @staticmethod\n    def _unused():\n        pass\n"),
                                  (ME, "    def __str__(self):\n        # comma separated list of inputs\n",
                                   "    def _joined(self, xs):\n        out = []\n        for x in xs:\n            out.append(str(x))\n        return \" + \".join(out)\n\n    def __str__(self):\n        # comma separated list of inputs\n")]),
    ('okp_kwfields', ['C36'], False, [(ME, 'return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)',
                                       'return "{name}({out}={val})".format(name=self.name, out=self.outputs[0], val=self._value)')]),
    # ------------------------------------------------------------------ C37
    ('s_default', ['C37'], True, [(CL, "    def __init__(self, vars):\n", "    def __init__(self, vars, marks=[]):\n"),
                                  (CL, "        self.overconstrained = False\n", "        self.overconstrained = False\n        self.marks = marks\n")]),
    ('s_inputs', ['C37'], True, [(ME, "self.inputs = list(inputs)", "self.inputs = inputs")]),
    ('s_points', ['C37'], True, [(RE, "self.points = list(points)", "self.points = points")]),
    ('s_variables', ['C37'], True, [(CO, "self._variables = list(variables)", "self._variables = variables")]),
    ('s_vars_set', ['C37'], True, [(CL, "        self.vars = set(vars)\n", "        self.vars = vars if isinstance(vars, set) else set(vars)\n")]),
    ('s_class', ['C37'], True, [(ME, "        # collection of changed variables since last propagation\n        self._changed = {}\n", ""),
                                (ME, "    def __init__(self):\n        # the graph structure\n", "    _changed = {}\n\n    def __init__(self):\n        # the graph structure\n")]),
    ('s_default_graph', ['C37'], True, [(ME, "    def __init__(self):\n        # the graph structure\n        self._graph = Graph()\n", "    def __init__(self, graph=Graph()):\n        # the graph structure\n        self._graph = graph\n")]),
    ('oks_none', ['C37'], False, [(CL, "    def __init__(self, vars):\n", "    def __init__(self, vars, marks=None):\n"),
                                  (CL, "        self.overconstrained = False\n", "        self.overconstrained = False\n        self.marks = marks if marks is not None else []\n")]),
    ('oks_readonly', ['C37', 'C18'], False, [(CL, "    def __init__(self, vars):\n", "    def __init__(self, vars, extra=[]):\n"),
                                      (CL, "        self.vars = set(vars)\n", "        self.vars = set(vars)\n        self.vars.update(extra)\n")]),
    ('oks_memo', ['C37'], False, [(CL, "class Rigid(Cluster):\n", "class Rigid(Cluster):\n    _binom = {}\n\n    def _choose(self, n, k):\n        if (n, k) not in self._binom:\n            self._binom[n, k] = int(binom(n, k))\n        return self._binom[n, k]\n\n")]),
    ('oks_comp', ['C37'], False, [(ME, "self.inputs = list(inputs)", "self.inputs = [v for v in inputs]")]),
]
