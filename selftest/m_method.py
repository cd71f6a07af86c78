F = 'method.py'
DO_EXEC_OLD = """            if pick in self._changed:
                del(self._changed[pick])
"""
EDITS = [
    # --- breaking
    ('m_prop_del_first', ['C09'], True, [(F, """            for method in methods:
                self._do_execute(method)

            if pick in self._changed:
                del(self._changed[pick])
""", """            if pick in self._changed:
                del(self._changed[pick])

            for method in methods:
                self._do_execute(method)
""")]),
    ('m_prop_clear', ['C09'], True, [(F, DO_EXEC_OLD, """            self._changed.clear()
""")]),
    ('m_prop_ingoing', ['C09'], True, [(F, "methods = self._graph.outgoing_vertices(pick)", "methods = self._graph.ingoing_vertices(pick)")]),
    ('m_prop_break', ['C09'], True, [(F, """                self._do_execute(method)

            if pick""", """                self._do_execute(method)
                break

            if pick""")]),
    ('m_prop_one', ['C09'], True, [(F, "while len(self._changed) != 0:", "while len(self._changed) > 1:")]),
    ('m_prop_snapshot', ['C09'], True, [(F, """        while len(self._changed) != 0:
            pick = list(self._changed.keys())[0]
""", """        for pick in list(self._changed):
""")]),
    ('m_prop_skipnone', ['C09'], True, [(F, "            for method in methods:\n                self._do_execute(method)\n\n            if pick", "            for method in methods:\n                if self._map[pick] is not None:\n                    self._do_execute(method)\n\n            if pick")]),
    ('m_gate_falsy', ['C10'], True, [(F, """            if value is None:
                has_nones = True
""", """            if not value:
                has_nones = True
""")]),
    ('m_gate_eq', ['C10'], True, [(F, """            if value is None:
                has_nones = True
""", """            if value == None:
                has_nones = True
""")]),
    ('m_gate_last', ['C10'], True, [(F, """            if value is None:
                has_nones = True
""", """            has_nones = value is None
""")]),
    ('m_gate_out', ['C10'], True, [(F, """        for var in method.outputs:
            inmap[var] = self._map[var]

        # call""", """        for var in method.outputs:
            inmap[var] = self._map[var]
            if inmap[var] is None:
                has_nones = True

        # call""")]),
    ('m_keepold', ['C10'], True, [(F, """                    self._changed[var] = 1
                    self._map[var] = None
""", """                    self._changed[var] = 1
""")]),
    ('m_nomark', ['C10'], True, [(F, """                    self._changed[var] = 1
                    self._map[var] = None
""", """                    self._map[var] = None
""")]),
    ('m_nomark2', ['C10'], True, [(F, """                self._map[var] = outmap[var]
                self._changed[var] = 1
""", """                self._map[var] = outmap[var]
""")]),
    ('m_onlynew', ['C10'], True, [(F, """                self._map[var] = outmap[var]
                self._changed[var] = 1
""", """                if self._map[var] is None:
                    self._changed[var] = 1
                self._map[var] = outmap[var]
""")]),
    ('m_nooutmap', ['C10'], True, [(F, """        for var in method.outputs:
            inmap[var] = self._map[var]

        # call""", """        # call""")]),
    ('m_exec_order', ['C10'], True, [(F, """        self._do_execute(method)
        self.propagate()
""", """        self.propagate()
        self._do_execute(method)
""")]),
    ('m_set_order', ['C10'], True, [(F, """        self._map[varname] = value
        self._changed[varname] = 1

        if prop:
            self.propagate()
""", """        self._map[varname] = value

        if prop:
            self.propagate()

        self._changed[varname] = 1
""")]),
    ('m_addvar_over', ['C10'], True, [(F, """        if varname not in self._map:
            self._map[varname] = value
            self._graph""", """        if self._map.get(varname) is None:
            self._map[varname] = value
            self._graph""")]),
    ('m_add_exec_first', ['C08'], True, [(F, """        # check validity of graph
""", """        self._do_execute(met)

        # check validity of graph
"""), (F, """        if prop:
            # execute includes propagation
            self.execute(met)
        else:
            # execute only, leaving the changes pending
            self._do_execute(met)
""", """        if prop:
            self.propagate()
""")]),
    ('m_add_norollback', ['C08'], True, [(F, """                self.rem_method(met)

                raise MethodGraphCycleException""", """                raise MethodGraphCycleException""")]),
    ('m_add_gt2', ['C08'], True, [(F, "if len(self._graph.ingoing_vertices(var)) > 1:", "if len(self._graph.ingoing_vertices(var)) > 2:")]),
    ('m_add_first_out', ['C08'], True, [(F, """        for var in met.outputs:
            if len(self""", """        for var in met.outputs[:1]:
            if len(self""")]),
    ('m_add_cycle_in', ['C08'], True, [(F, "            elif len(self._graph.path(var, var)) != 0:", "            elif len(self._graph.path(var, var)) == 3:")]),
    ('m_add_edges', ['C08'], True, [(F, """            self._graph.add_edge(met, var)

        # check""", """            self._graph.add_edge(var, met)

        # check""")]),
    ('m_rem_method_keep', ['C11'], True, [(F, """        del(self._methods[met])
        self._graph.remove_vertex(met)
""", """        del(self._methods[met])
""")]),
    ('m_rem_var_in', ['C11'], True, [(F, """        for vertex in self._graph.ingoing_vertices(varname):
            self.rem_method(vertex)
""", "")]),
    ('m_rem_var_pending', ['C11'], True, [(F, """        if varname in self._changed:
            del(self._changed[varname])
""", "")]),
    ('m_clear_map', ['C11'], True, [(F, """        while (len(self._map) > 0):
            self.rem_variable(list(self._map.keys())[0])
""", """        self._map.clear()
        self._methods.clear()
        self._changed.clear()
""")]),
    ('m_clear_one', ['C11'], True, [(F, "while (len(self._map) > 0):", "while (len(self._map) > 1):")]),
    ('m_rem_method_values', ['C11'], True, [(F, """        del(self._methods[met])
        self._graph.remove_vertex(met)
""", """        del(self._methods[met])
        self._graph.remove_vertex(met)
        for var in met.outputs:
            self._map[var] = None
""")]),
    # --- behaviour preserving
    ('r_prop_iter', ['C09', 'C10', 'C11', 'C08'], False, [(F, """            pick = list(self._changed.keys())[0]
            methods = self._graph.outgoing_vertices(pick)

            for method in methods:
                self._do_execute(method)

            if pick in self._changed:
                del(self._changed[pick])
""", """            pick = next(iter(self._changed))
            self._propagate_variable(pick)

    def _propagate_variable(self, pick):
        for method in self._graph.outgoing_vertices(pick):
            self._do_execute(method)
        self._changed.pop(pick, None)
""")]),
    ('r_prop_while', ['C09'], False, [(F, "while len(self._changed) != 0:", "while self._changed:")]),
    ('r_exec_helper', ['C09', 'C10', 'C08'], False, [(F, """        inmap = {}
        has_nones = False

        for var in method.inputs:
            value = self._map[var]

            if value is None:
                has_nones = True

            inmap[var] = value

        for var in method.outputs:
            inmap[var] = self._map[var]
""", """        inmap = {var: self._map[var]
                 for var in list(method.inputs) + list(method.outputs)}
        has_nones = any(self._map[var] is None for var in method.inputs)
"""), (F, """        for var in method.outputs:
            if var in outmap:
                self._map[var] = outmap[var]
                self._changed[var] = 1
            else:
                if self._map[var] is not None:
                    self._changed[var] = 1
                    self._map[var] = None
""", """        for var in method.outputs:
            self._store(var, outmap)

    def _store(self, var, outmap):
        if var in outmap:
            self._map[var] = outmap[var]
            self._changed[var] = 1
            return
        if self._map[var] is None:
            return
        self._changed[var] = 1
        self._map[var] = None
""")]),
    ('r_exec_get', ['C10', 'C08'], False, [(F, """        for var in method.outputs:
            if var in outmap:
                self._map[var] = outmap[var]
                self._changed[var] = 1
            else:
                if self._map[var] is not None:
                    self._changed[var] = 1
                    self._map[var] = None
""", """        for var in method.outputs:
            old = self._map[var]
            self._map[var] = outmap.get(var)
            if var in outmap or old is not None:
                self._changed[var] = 1
""")]),
    ('r_sets', ['C08', 'C09', 'C10', 'C11'], False, [
        (F, "        self._methods = {}\n", "        self._methods = set()\n"),
        (F, "        self._changed = {}\n", "        self._changed = set()\n"),
        (F, "        return self._methods.keys()\n", "        return list(self._methods)\n"),
        (F, "            del(self._changed[varname])\n", "            self._changed.remove(varname)\n"),
        (F, "        self._changed[varname] = 1\n\n        if prop", "        self._changed.add(varname)\n\n        if prop"),
        (F, "        self._methods[met] = 1\n", "        self._methods.add(met)\n"),
        (F, "        del(self._methods[met])\n", "        self._methods.discard(met)\n"),
        (F, "            pick = list(self._changed.keys())[0]\n", "            pick = next(iter(self._changed))\n"),
        (F, "                del(self._changed[pick])\n", "                self._changed.discard(pick)\n"),
        (F, "                self._map[var] = outmap[var]\n                self._changed[var] = 1\n", "                self._map[var] = outmap[var]\n                self._changed.add(var)\n"),
        (F, "                    self._changed[var] = 1\n                    self._map[var] = None\n", "                    self._changed.add(var)\n                    self._map[var] = None\n"),
        (F, "for element in self._methods.keys()", "for element in self._methods"),
    ]),
    ('r_add_split', ['C08', 'C10'], False, [(F, """        # check validity of graph
        for var in met.outputs:
            if len(self._graph.ingoing_vertices(var)) > 1:
                self.rem_method(met)

                raise MethodGraphDetermineException("Variable {0} determined \\
by multiple methods".format(var))
            elif len(self._graph.path(var, var)) != 0:
                self.rem_method(met)

                raise MethodGraphCycleException("Cycle in graph not allowed \\
(variable {0})".format(var))
""", """        # check validity of graph
        try:
            self._check(met)
        except (MethodGraphDetermineException, MethodGraphCycleException):
            self.rem_method(met)
            raise
"""), (F, """    def rem_method(self, met):""", """    def _check(self, met):
        for var in met.outputs:
            if len(self._graph.ingoing_vertices(var)) > 1:
                raise MethodGraphDetermineException("multiple")
            if self._graph.path(var, var):
                raise MethodGraphCycleException("Cycle in graph")

    def rem_method(self, met):""")]),
    ('r_rem_var_list', ['C11'], False, [(F, """        for vertex in self._graph.ingoing_vertices(varname):
            self.rem_method(vertex)
        for vertex in self._graph.outgoing_vertices(varname):
            self.rem_method(vertex)
""", """        for vertex in self._graph.adjacent_vertices(varname):
            self.rem_method(vertex)
""")]),
    ('r_clear_for', ['C11'], False, [(F, """        while (len(self._map) > 0):
            self.rem_variable(list(self._map.keys())[0])
""", """        for variable in list(self._map):
            self.rem_variable(variable)
""")]),
    ('r_set_early', ['C10'], False, [(F, """        self._map[varname] = value
        self._changed[varname] = 1

        if prop:
            self.propagate()
""", """        self._changed[varname] = 1
        self._map[varname] = value

        if not prop:
            return

        self.propagate()
""")]),
    # --- values and multi-valued methods
    ('v_add_falsy', ['C12'], True, [(F, """        and in_map[a] is not None and in_map[b] is not None:
            # set the value in the output map
            out_map[c] = in_map[a] + in_map[b]""", """        and in_map[a] and in_map[b]:
            # set the value in the output map
            out_map[c] = in_map[a] + in_map[b]""")]),
    ('v_sub_swapped', ['C12'], True, [(F, "in_map[a] - in_map[b]", "in_map[b] - in_map[a]")]),
    ('v_sub_same', ['C12'], True, [(F, """super(SubMethod, self).__init__("SubMethod", inputs=[a, b], outputs=[c])""", """super(SubMethod, self).__init__("SubMethod", inputs=[b, a], outputs=[c])""")]),
    ('v_add_inplace', ['C12'], True, [(F, """            out_map[c] = in_map[a] + in_map[b]""", """            in_map[a] += in_map[b]
            out_map[c] = in_map[a]""")]),
    ('v_assign_pop', ['C12'], True, [(F, "return {self.outputs[0]: in_map[self.inputs[0]]}", "return {self.outputs[0]: in_map.pop(self.inputs[0])}")]),
    ('v_set_falsy', ['C12'], True, [(F, "return {self.outputs[0]: self._value}", "return {self.outputs[0]: self._value} if self._value else {}")]),
    ('v_add_or', ['C12'], True, [(F, """        if a in in_map and b in in_map \\
        and in_map[a] is not None and in_map[b] is not None:
            # set the value in the output map
            out_map[c] = in_map[a] + in_map[b]""", """        if a in in_map or b in in_map:
            # set the value in the output map
            out_map[c] = in_map.get(a, 0) + in_map.get(b, 0)""")]),
    ('r_add_early', ['C12'], False, [(F, """        # map of outputs to input values
        out_map = {}

        # get variables from lists of inputs and outputs
        a = self.inputs[0]
        b = self.inputs[1]
        c = self.outputs[0]

        # calculate c = a + b if the variables exist in the input map
        if a in in_map and b in in_map \\
        and in_map[a] is not None and in_map[b] is not None:
            # set the value in the output map
            out_map[c] = in_map[a] + in_map[b]

        return out_map
""", """        left, right = [in_map.get(v) for v in self.inputs]
        if left is None or right is None:
            return {}
        return {self.outputs[0]: left + right}
""")]),
    ('v_multi_returns_first', ['C13'], True, [(F, """                multi_inputs[1:]))

            return output
""", """                multi_inputs[1:]))

                if output:
                    break

            return output
""")]),
    ('v_multi_assign', ['C13'], True, [(F, """                output.update(self._recurse_execute(inmap, base_inmap, \\
                multi_inputs[1:]))
""", """                output = set(self._recurse_execute(inmap, base_inmap, \\
                multi_inputs[1:]))
""")]),
    ('v_multi_intersect', ['C13'], True, [(F, """                base_inmap[mvar] = value
                output.update(""", """                base_inmap[mvar] = value
            if values:
                output.update(""")]),
    ('v_multi_skip', ['C13'], True, [(F, "multi_inputs[1:]))\n", "multi_inputs[2:]))\n")]),
    ('v_multi_inmap', ['C13'], True, [(F, "        base_inmap = {}\n", "        base_inmap = inmap\n")]),
    ('v_multi_sumsum', ['C13'], True, [(F, "return [a + b, a * b]", "return [a + b]")]),
    ('r_multi_product', ['C13'], False, [(F, """        values = self._recurse_execute(inmap, base_inmap, self.multi_inputs)
""", """        values = set()
        for combination in itertools.product(*[inmap[v] for v in self.multi_inputs]):
            base = dict(base_inmap)
            base.update(zip(self.multi_inputs, combination))
            values.update(self.multi_execute(base))
"""), (F, "import abc\n", "import abc\nimport itertools\n")]),
    ('r_multi_or', ['C13'], False, [(F, """                output.update(self._recurse_execute(inmap, base_inmap, \\
                multi_inputs[1:]))
""", """                output |= set(self._recurse_execute(inmap, base_inmap, \\
                multi_inputs[1:]))
"""), (F, """            if variable not in self.multi_inputs:
                value = inmap[variable]
                base_inmap[variable] = value
""", """            if not isinstance(variable, MultiVariable):
                base_inmap[variable] = inmap[variable]
""")]),
]
