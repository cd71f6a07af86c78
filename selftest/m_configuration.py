"""Edits of the configurations."""

CF = 'geometric/configuration.py'

EQ_TAIL = """            for var in self.mapping:
                # calculate distance between the coordinates for the same
                # variable in each configuration
                d = distance_2p(other_t.get(var), self.get(var))

                # check if d is >0
                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
                    return False

            # configurations are equal
            return True
"""
SHARED = "        shared = set(self.vars()) & set(other.vars())\n"
HASH = "        self.hashvalue = hash(sum([hash(var) for var in self.mapping]))\n"
ADD = """        new_mapping = {}

        # FIXME: just deep copy the dict - loop not needed
        # loop over each coordinate in this configuration
        for v in self.mapping:
            # copy the coordinate into the new set
            new_mapping[v] = self.mapping[v]

        # loop over the coordinates in the other configuration
        for v in c.mapping:
            # copy any coordinates not present in this configuration
            if v not in new_mapping:
                new_mapping[v] = c.mapping[v]
"""
SEL = """        for v in variables:
            new_mapping[v] = self.mapping[v]
"""
TR = """            ph = (t * Matrix([[self.mapping[v].x, self.mapping[v].y, 1.0]]).transpose()).elements

            # create a vector for the new coordinates
            new_mapping[v] = Vector(ph[0][0] / ph[2][0], ph[1][0] / ph[2][0])
"""
PREFER = """            for v in list(shared)[1:]:
                if not Scalar.tol_zero(distance_2p(self.mapping[v1], \\
                self.mapping[v])) and not Scalar.tol_zero(distance_2p( \\
                other.mapping[v1], other.mapping[v])):
                    v2 = v

                    break
"""
ONE = """            if len(self.vars()) > 1 and len(other.vars()) > 1:
                underconstrained = True
"""
MERGE = """        merged_configuration = self.add(other.transform(t))
        merged_configuration.underconstrained = underconstrained
"""
CS2 = """                cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
            else:
                # coordinates are different, so calculate the homogenous
                # coordinate system for the first configuration using the
                # vectors of the first two shared coordinates
                cs2 = make_hcs(p21, p22)
"""
FIRST = """            # check if the coordinates overlap
            if Scalar.tol_zero((p12 - p11).length):
                # coordinates overlap, so the merge is underconstrained
                underconstrained = True
"""
VARS = """            for var in self.mapping:
                if var not in other.mapping:
                    return False
"""
TWO = """            # get the first two shared variables
            v1 = list(shared)[0]
            v2 = list(shared)[1]
"""

EDITS = [
    ('cf_eq_others', ['C22'], True, [(CF, """        if not isinstance(other, Configuration):
            return False
        elif hash""", "        if hash")]),
    ('cf_eq_vars', ['C22'], True, [(CF, """        elif hash(self) != hash(other):
            # the hash value for configurations is based only on the variable
            # names, so if these differ then the configurations are definitely
            # different
            return False
""", ""), (CF, VARS, """            for var in other.mapping:
                if var not in other.mapping:
                    return False
""")]),
    ('cf_eq_raw', ['C22'], True, [(CF, """            other_t = other.transform(t)
""", """            other_t = other
""")]),
    ('cf_eq_any', ['C22'], True, [(CF, """                    return False

            # configurations are equal
            return True
""", """                    return False

                # configurations are equal
                return True

            return True
""")]),
    ('cf_eq_first', ['C22'], True, [(CF, """                d = distance_2p(other_t.get(var), self.get(var))
""", """                first = list(self.mapping)[0]
                d = abs(distance_2p(other_t.get(var), other_t.get(first)) - \\
                distance_2p(self.get(var), self.get(first)))
""")]),
    ('cf_eq_coarse', ['C22'], True, [(CF, """                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
                    return False
""", """                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0.5):
                    return False
""")]),
    ('cf_eq_scaled', ['C22', 'C25'], True, [(CF, """                cs2 = make_hcs(p21, p22)
""", """                cs2 = make_hcs_scaled(p21, p22)
"""), (CF, "                cs1 = make_hcs(p11, p12)\n",
       "                cs1 = make_hcs_scaled(p11, p12)\n")]),
    ('cf_eq_square', ['C22'], None, [(CF, """                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
                    return False
""", """                if not Scalar.tol_zero(d * d):
                    return False
""")]),
    ('cf_hash_order', ['C22'], True, [(CF, HASH, """        self.hashvalue = hash(tuple(self.mapping))
""")]),
    ('cf_hash_points', ['C22'], True, [(CF, HASH, """        self.hashvalue = hash(sum([hash(var) for var in self.mapping]) + \\
        sum([p.x for p in self.mapping.values()]))
""")]),
    ('cf_add_other', ['C23', 'C25'], True, [(CF, """            if v not in new_mapping:
                new_mapping[v] = c.mapping[v]
""", """            new_mapping[v] = c.mapping[v]
""")]),
    ('cf_add_inplace', ['C23', 'C25'], True, [(CF, """        new_mapping = {}

        # FIXME: just deep""", """        new_mapping = self.mapping

        # FIXME: just deep""")]),
    ('cf_add_shared', ['C23'], True, [(CF, """            if v not in new_mapping:
                new_mapping[v] = c""", """            if v not in new_mapping or len(new_mapping) == len(c.mapping):
                new_mapping[v] = c""")]),
    ('cf_select_skip', ['C23'], True, [(CF, SEL, """        for v in variables:
            if v in self.mapping:
                new_mapping[v] = self.mapping[v]
""")]),
    ('cf_select_rest', ['C23'], True, [(CF, SEL, """        for v in self.mapping:
            if v not in variables:
                new_mapping[v] = self.mapping[v]
""")]),
    ('cf_alias', ['C23'], True, [(CF, "        self.mapping = dict(mapping)\n",
                                  "        self.mapping = mapping\n")]),
    ('cf_copy_flag', ['C23'], True, [(CF, """        new.underconstrained = self.underconstrained

""", "")]),
    ('cf_transform_affine', ['C23'], True, [(CF, "ph[0][0] / ph[2][0], ph[1]"
                                             "[0] / ph[2][0]",
                                             "ph[0][0], ph[1][0]")]),
    ('cf_transform_inplace', ['C23', 'C25'], True, [(CF, """            new_mapping[v] = Vector(ph""",
                                              """            self.mapping[v] = new_mapping[v] = Vector(ph""")]),
    ('cf_transform_vector', ['C23', 'C25'], True, [(CF, """            new_mapping[v] = Vector(ph[0][0] / ph[2][0], ph[1][0] / ph[2][0])
""", """            new_mapping[v] = self.mapping[v]
            new_mapping[v].x = ph[0][0] / ph[2][0]
            new_mapping[v].y = ph[1][0] / ph[2][0]
""")]),
    ('cf_transform_row', ['C23'], True, [(CF, "ph[1][0] / ph[2][0]",
                                          "ph[1][0] / ph[0][0]")]),
    ('cf_merge_flag', ['C24'], True, [(CF, """        merged_configuration.underconstrained = underconstrained
""", "")]),
    ('cf_merge_or', ['C24'], True, [(CF, """            if len(self.vars()) > 1 and len(other.vars()) > 1:
""", """            if len(self.vars()) > 1 or len(other.vars()) > 1:
""")]),
    ('cf_merge_own', ['C24'], True, [(CF, "self.underconstrained or other."
                                      "underconstrained",
                                      "self.underconstrained")]),
    ('cf_merge_and', ['C24'], True, [(CF, "self.underconstrained or other."
                                      "underconstrained",
                                      "self.underconstrained and other."
                                      "underconstrained")]),
    ('cf_merge_overlap', ['C24'], True, [(CF, FIRST, FIRST.replace(
        "                underconstrained = True\n", "").replace(
            "so the merge is underconstrained", "so"))]),
    ('cf_merge_none', ['C24'], True, [(CF, """            # by definition, this is underconstrained
            underconstrained = True
""", """            underconstrained = len(self.vars()) > 0
""")]),
    ('cf_merge_sets', ['C25'], True, [(CF, """            p21 = other.mapping[v1]
            p22 = other.mapping[v2]
""", """            v1, v2 = list(set(other.vars()) & set(self.vars()))[:2]
            p21 = other.mapping[v1]
            p22 = other.mapping[v2]
""")]),
    ('cf_merge_prefer', ['C24'], True, [(CF, """                self.mapping[v])) and not Scalar.tol_zero(distance_2p( \\
                other.mapping[v1], other.mapping[v])):
""", """                self.mapping[v])):
""")]),
    ('cf_merge_noprefer', ['C24'], True, [(CF, PREFER, "")]),
    ('cf_merge_raw', ['C25'], True, [(CF, "self.add(other.transform(t))",
                                      "self.add(other)")]),
    ('cf_merge_turned', ['C25'], True, [(CF, "self.add(other.transform(t))",
                                         "other.add(self.transform(t))")]),
    ('cf_merge_inverse', ['C25', 'C22'], True, [(CF, "cs_transform_matrix(cs2, cs1)",
                                          "cs_transform_matrix(cs1, cs2)")]),
    ('cf_merge_swapped', ['C25'], True, [(CF, "                cs2 = make_hcs(p21, p22)\n",
                                          "                cs2 = make_hcs(p22, p21)\n")]),
    ('cf_merge_one', ['C25'], True, [(CF, "            cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))\n        else:",
                                      "            cs2 = make_hcs(Vector.origin(), Vector(1.0, 0.0))\n        else:")]),
    ('cf_merge_halfscale', ['C25'], True, [(CF, "                cs1 = make_hcs(p11, p12)\n",
       "                cs1 = make_hcs_scaled(p11, p12)\n")]),
    ('cf_merge_select', ['C25'], True, [(CF, MERGE, """        merged_configuration = self.add(other.transform(t).select( \\
        [v for v in other.vars() if v not in self.mapping][:1]))
        merged_configuration.underconstrained = underconstrained
""")]),
    ('cf_merge_frame', ['C25'], None, [(CF, CS2, CS2.replace(
        "p21 + Vector(1.0, 0.0)", "p22 + Vector(1.0, 0.0)"))]),
    ('cf_get_default', ['C23'], True, [(CF, "        return self.mapping[var]\n",
                                        "        return self.mapping.get(var)\n")]),

    # ------------------------------------------------ the same, in other words
    ('okcf_add', ['C23', 'C25'], False, [(CF, ADD, """        new_mapping = dict(c.mapping)
        new_mapping.update(self.mapping)
""")]),
    ('okcf_add2', ['C23', 'C25', 'C24'], False, [(CF, ADD, """        new_mapping = {**c.mapping, **self.mapping}
""")]),
    ('okcf_add3', ['C23', 'C25'], False, [(CF, ADD, """        new_mapping = self.mapping.copy()

        for v, p in c.mapping.items():
            new_mapping.setdefault(v, p)
""")]),
    ('okcf_select', ['C23'], False, [(CF, """        new_mapping = {}

        # FIXME: probably a smarter way to select the variables
""" + SEL, """        new_mapping = {v: self.mapping[v] for v in variables}
""")]),
    ('okcf_select2', ['C23'], False, [(CF, SEL, """        for v in variables:
            new_mapping[v] = self.get(v)
""")]),
    ('okcf_eq_all', ['C22'], False, [(CF, EQ_TAIL, """            return all(Scalar.tol_zero(distance_2p(other_t.get(var), \\
            self.get(var))) for var in self.mapping)
""")]),
    ('okcf_eq_sets', ['C22'], False, [(CF, VARS, """            if set(self.mapping) != set(other.mapping):
                return False
"""), (CF, """        elif len(self.mapping) != len(other.mapping):
            # equal configurations would have the same number of variables
            return False
""", "")]),
    ('okcf_eq_notimpl', ['C22'], False, [(CF, """        if not isinstance(other, Configuration):
            return False
        elif""", """        if not isinstance(other, Configuration):
            return NotImplemented

        if""")]),
    ('okcf_eq_helper', ['C22'], False, [(CF, EQ_TAIL, """            return self._close(other_t)

    def _close(self, other):
        for var, p in self.mapping.items():
            if not Scalar.tol_zero((other.get(var) - p).length):
                return False

        return True
""")]),
    ('okcf_hash', ['C22'], False, [(CF, HASH, """        self.hashvalue = hash(frozenset(self.mapping))
""")]),
    ('okcf_hash2', ['C22'], False, [(CF, HASH, """        self.hashvalue = 0

        for var in self.mapping:
            self.hashvalue += hash(var)
""")]),
    ('okcf_hash3', ['C22'], False, [(CF, HASH, """        self.hashvalue = hash(len(self.mapping))
""")]),
    ('okcf_shared', ['C22', 'C24', 'C25'], False, [(CF, SHARED, """        shared = [v for v in self.mapping if v in other.mapping]
""")]),
    ('okcf_shared2', ['C24', 'C25'], False, [(CF, SHARED, """        shared = set(other.vars()).intersection(self.vars())
""")]),
    ('okcf_pick', ['C24', 'C25'], False, [(CF, TWO, """            v1, v2 = list(shared)[:2]
""")]),
    ('okcf_pick2', ['C24', 'C25'], False, [(CF, """            v1 = list(shared)[0]

            # get coordinates associated""", """            (v1,) = shared

            # get coordinates associated""")]),
    ('okcf_sorted', ['C24', 'C25'], False, [(CF, TWO, """            names = sorted(shared, key=str)
            v1, v2 = names[0], names[1]
"""), (CF, "for v in list(shared)[1:]:", "for v in names[1:]:")]),
    ('okcf_prefer', ['C24', 'C25'], False, [(CF, PREFER, """            def apart(v):
                return not Scalar.tol_zero(distance_2p(self.mapping[v1], \\
                self.mapping[v])) and not Scalar.tol_zero(distance_2p( \\
                other.mapping[v1], other.mapping[v]))

            v2 = next((v for v in list(shared)[1:] if apart(v)), v2)
""")]),
    ('okcf_frames', ['C22', 'C24', 'C25'], False, [(CF, """            # check if the coordinates overlap
            if Scalar.tol_zero((p12 - p11).length):
                # coordinates overlap, so the merge is underconstrained
                underconstrained = True

                # calculate the homogenous coordinate system for the first
                # configuration using only the first shared point
                cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
            else:
                # coordinates are different, so calculate the homogenous
                # coordinate system for the first configuration using the
                # vectors of the first two shared coordinates
                cs1 = make_hcs(p11, p12)
""", """            cs1 = make_hcs(p11, p12)

            if cs1 is None:
                underconstrained = True
                cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
""")]),
    ('okcf_transform', ['C22', 'C23', 'C25'], False, [(CF, TR, """            a, b, c = t.elements
            x, y = self.mapping[v].x, self.mapping[v].y
            w = c[0] * x + c[1] * y + c[2]
            new_mapping[v] = Vector((a[0] * x + a[1] * y + a[2]) / w, \\
            (b[0] * x + b[1] * y + b[2]) / w)
""")]),
    ('okcf_transform2', ['C22', 'C23', 'C25'], False, [(CF, TR, """            p = self.mapping[v]
            column = t * Matrix([[p.x], [p.y], [1.0]])
            x, y, w = [row[0] for row in column.elements]
            new_mapping[v] = Vector(x, y) / w
""")]),
    ('okcf_one', ['C24', 'C25'], False, [(CF, ONE, """            underconstrained |= min(len(self.mapping), \\
            len(other.mapping)) > 1
""")]),
    ('okcf_one2', ['C24', 'C25'], False, [(CF, ONE, """            extra = [c for c in (self, other) if len(c.vars()) > 1]
            if len(extra) == 2:
                underconstrained = True
""")]),
    ('okcf_merge', ['C24', 'C25'], False, [(CF, MERGE, """        moved = other.transform(t)
        points = {v: moved.get(v) for v in moved.vars()}
        points.update((v, self.get(v)) for v in self.vars())
        merged_configuration = Configuration(points)
        merged_configuration.underconstrained = underconstrained
""")]),
    ('okcf_early', ['C24', 'C25', 'C22'], False, [(CF, """            cs1 = make_hcs(Vector.origin(), Vector(1.0, 0.0))
            cs2 = make_hcs(Vector.origin(), Vector(1.0, 0.0))
""", """            return Matrix.identity(3), True
""")]),
    ('okcf_copy', ['C23'], False, [(CF, """        new = Configuration(self.mapping)

        # copy underconstrained flag
        new.underconstrained = self.underconstrained
""", """        new = self.select(self.vars())
        new.underconstrained = bool(self.underconstrained)
""")]),
]
