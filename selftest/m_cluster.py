F = 'geometric/cluster.py'
R = 'geometric/relation.py'
LOOP3 = """        for i in range(len(shared)):
            # loop over second variable
            for j in range(i+1, len(shared)):
                # loop over third variable
                for k in range(j+1, len(shared)):
                    # get variables
                    v1 = shared[i]
                    v2 = shared[j]
                    v3 = shared[k]

                    # add combinations of angles to set (duplicates will be
                    # avoided due to hash values for each angle)
                    common_angles.add(Angle(v1, v2, v3))
                    common_angles.add(Angle(v2, v3, v1))
                    common_angles.add(Angle(v3, v1, v2))

        return common_angles
"""
RIG3 = """        shared = list(set(self.vars) & set(rigid.vars))

        # empty set of common angles
        common_angles = set()

        # loop over first variable
""" + LOOP3
RH = """        shared = list(set(self.vars) & set(hedgehog.x_vars))

        # empty set of common angles
        common_angles = set()

        if hedgehog.c_var not in self.vars:
            # hedgehog's central variable is not part of this rigid, so there
            # are no overconstrained angles to add
            return common_angles

        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i+1, len(shared)):
                # get variables
                v1 = shared[i]
                v2 = shared[j]

                # create angles with the hedgehog's central point
                common_angles.add(Angle(v1, hedgehog.c_var, v2))

        return common_angles
"""
HH = """        shared = list(set(self.x_vars) & set(hedgehog.x_vars))

        # empty set of common angles
        common_angles = set()

        if not self.c_var == hedgehog.c_var:
            # central values differ, so there are no overconstrained angles to
            # add
            return common_angles

        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i):
"""
DIST = """        # shared variables between this rigid and the other
        shared = list(set(self.vars) & set(other.vars))

        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i):
                # get variables
                v1 = shared[i]
                v2 = shared[j]

                # add distance to set (duplicates will be avoided due to hash
                # values for each distance)
                common_distances.add(Distance(v1, v2))

        return common_distances
"""
INTER = """        # return appropriate intersection
        if isinstance(other, Rigid):
            return self.intersect_rigid(shared, other)
        elif isinstance(other, Hedgehog):
            return self.intersect_hedgehog(shared, other)
        elif isinstance(other, Balloon):
            return self.intersect_balloon(shared, other)

        # if all fails
        raise TypeError("Intersection of unknown cluster types")
"""
IMP = "from scipy.special import binom\n"
EDITS = [
    # --- intersections
    ('c_less3', ['C17'], True, [(F, "if len(shared) < 2:", "if len(shared) < 3:")]),
    ('c_less1', ['C17'], True, [(F, "if len(shared) < 2:", "if len(shared) < 1:")]),
    ('c_union', ['C17'], True, [(F, "shared = self.vars & other.vars", "shared = self.vars | other.vars")]),
    ('c_rh_centre', ['C17'], True, [(F, """        x_vars = set(shared) - set([hedgehog.c_var])

        if hedgehog.c_var in self.vars and len(x_vars) >= 2:""", """        x_vars = set(shared) - set([hedgehog.c_var])

        if len(x_vars) >= 2:""")]),
    ('c_rh_all', ['C17'], True, [(F, "            return Hedgehog(hedgehog.c_var, x_vars)", "            return Hedgehog(hedgehog.c_var, hedgehog.x_vars)")]),
    ('c_rh_rigid', ['C17'], True, [(F, "            return Hedgehog(hedgehog.c_var, x_vars)", "            return Rigid(shared)")]),
    ('c_hh_shared', ['C17'], True, [(F, "        x_vars = self.x_vars & hedgehog.x_vars\n", "        x_vars = set(shared)\n")]),
    ('c_hh_ge3', ['C17'], True, [(F, "if self.c_var == hedgehog.c_var and len(x_vars) >= 2:", "if self.c_var == hedgehog.c_var and len(x_vars) > 2:")]),
    ('c_hh_nocheck', ['C17'], True, [(F, "if self.c_var == hedgehog.c_var and len(x_vars) >= 2:", "if self.c_var in hedgehog.vars and len(x_vars) >= 2:")]),
    ('c_hb_raise', ['C17'], True, [(F, "if self.c_var in balloon.vars and len(x_vars) >= 2:", "if self.c_var in balloon.vars and x_vars:")]),
    ('c_br_raise', ['C17'], True, [(F, """        if len(shared) < 3:
            # not possible to merge
            return None

        # intersection is a balloon""", """        # intersection is a balloon""")]),
    ('c_bb_self', ['C17'], True, [(F, "return self.intersect_rigid(shared, Rigid(balloon.var_list()))", "return self if len(shared) >= 3 else None")]),
    ('c_inplace', ['C17'], True, [(F, "        shared = self.vars & other.vars\n\n        if len", "        shared = self.vars\n        shared &= other.vars\n\n        if len")]),
    # --- constructors
    ('c_hh_len', ['C18'], True, [(F, "        if len(x_vars) < 2:\n            raise", "        if len(x_vars) < 1:\n            raise")]),
    ('c_hh_keepc', ['C18'], True, [(F, "        x_vars = set(x_vars) - set([c_var])\n\n        # check", "        x_vars = set(x_vars)\n\n        # check")]),
    ('c_b_len', ['C18'], True, [(F, "        if len(self.vars) < 3:\n            raise", "        if len(self.vars) < 4:\n            raise")]),
    ('c_vars_noset', ['C18'], True, [(F, "        self.vars = set(vars)\n", "        self.vars = vars\n")]),
    ('c_varlist', ['C18'], True, [(F, "        return [self.c_var] + list(self.x_vars)", "        return [self.c_var] + list(self.vars)")]),
    # --- common constraints
    ('c_common_and', ['C19'], True, [(F, "return self.common_distances(other) | self.common_angles(other)", "return self.common_distances(other) & self.common_angles(other)")]),
    ('c_rr_two', ['C19'], True, [(F, RIG3, RIG3.replace("                    common_angles.add(Angle(v3, v1, v2))\n", ""))]),
    ('c_rr_perm', ['C19'], True, [(F, RIG3, RIG3.replace("Angle(v3, v1, v2)", "Angle(v3, v2, v1)"))]),
    ('c_rr_range', ['C19'], True, [(F, RIG3, RIG3.replace("range(i+1, len(shared))", "range(i+2, len(shared))"))]),
    ('c_rr_range2', ['C19'], True, [(F, RIG3, RIG3.replace("range(j+1, len(shared))", "range(j, len(shared))"))]),
    ('c_rr_union', ['C19'], True, [(F, RIG3, RIG3.replace("&", "|"))]),
    ('c_rh_apex', ['C19'], True, [(F, RH, RH.replace("Angle(v1, hedgehog.c_var, v2)", "Angle(hedgehog.c_var, v1, v2)"))]),
    ('c_rh_vars', ['C19'], True, [(F, RH, RH.replace("hedgehog.x_vars", "hedgehog.vars"))]),
    ('c_rh_nogate', ['C19'], True, [(F, RH, RH.replace("if hedgehog.c_var not in self.vars:", "if False:"))]),
    ('c_hh_vars', ['C19'], True, [(F, HH, HH.replace("set(self.x_vars)", "set(self.vars)").replace("hedgehog.x_vars", "hedgehog.vars"))]),
    ('c_hh_range', ['C19'], True, [(F, HH, HH.replace("range(i)", "range(i-1)"))]),
    ('c_d_self', ['C19'], True, [(F, DIST, DIST.replace("range(i)", "range(i+1)"))]),
    ('c_d_balloon', ['C19'], True, [(F, "        if not isinstance(other, Rigid):\n            # other", "        if isinstance(other, Hedgehog):\n            # other")]),
    ('c_d_break', ['C19'], True, [(F, DIST, DIST.replace("(Distance(v1, v2))\n", "(Distance(v1, v2))\n                break\n"))]),
    # --- counts
    ('c_n2', ['C20'], True, [(F, "        return int(binom(len(self.x_vars), 2))", "        return int(binom(len(self.vars), 2))")]),
    ('c_n3', ['C20'], True, [(F, """    def n_distances(self):
        # no distances in a balloon
        return 0

    def n_angles(self):
        return int(binom(len(self.vars), 3) * 3)""", """    def n_distances(self):
        # no distances in a balloon
        return 0

    def n_angles(self):
        return int(binom(len(self.vars), 3))""")]),
    ('c_nd', ['C20'], True, [(F, "        return int(binom(len(self.vars), 2))", "        return 2 * len(self.vars) - 3")]),
    # --- relations
    ('r_eq_order', ['C21'], True, [(R, "            return frozenset(self.points) == frozenset(other.points)", "            return self.points == other.points")]),
    ('r_eq_apex', ['C21'], True, [(R, """            return self.points[1] == other.points[1] \\
            and frozenset(self.points) == frozenset(other.points)""", """            return frozenset(self.points) == frozenset(other.points)""")]),
    ('r_eq_apex0', ['C21'], True, [(R, "self.points[1] == other.points[1]", "self.points[0] == other.points[0]")]),
    ('r_eq_kind', ['C21'], True, [(R, "        if isinstance(other, Distance):", "        if isinstance(other, PointRelation):")]),
    ('r_hash_tuple', ['C21'], True, [(R, "        return hash(frozenset(self.points))", "        return hash(tuple(self.points))")]),
    ('r_hash_first', ['C21'], True, [(R, "        return hash(frozenset(self.points))", "        return hash(self.points[0])")]),
    ('r_nohash', ['C21'], True, [(R, """    # defining equality would otherwise remove the inherited hash
    __hash__ = PointRelation.__hash__

    def __eq__(self, other):
        if isinstance(other, Angle):""", """    def __eq__(self, other):
        if isinstance(other, Angle):""")]),
    ('r_sorted', ['C21'], True, [(R, "super(Distance, self).__init__([a, b])", "super(Distance, self).__init__([b, a])")]),
    # --- behaviour-preserving
    ('ok_comb', ['C17', 'C18', 'C19', 'C20', 'C21'], False, [
        (F, IMP, IMP + "from itertools import combinations\n"),
        (F, DIST, """        shared = self.vars.intersection(other.vars)
        return {Distance(a, b) for a, b in combinations(shared, 2)}
"""),
        (F, RH, """        if hedgehog.c_var not in self.vars:
            return set()
        shared = self.vars & hedgehog.x_vars
        return set(Angle(a, hedgehog.c_var, b)
                   for a, b in combinations(list(shared), 2))
"""),
        (F, RIG3, """        return self._angles_between(self.vars & rigid.vars)

    @staticmethod
    def _angles_between(points):
        angles = set()
        for triple in combinations(points, 3):
            a, b, c = triple
            angles |= {Angle(a, b, c), Angle(b, c, a), Angle(c, a, b)}
        return angles
""")]),
    ('ok_enum', ['C19'], False, [
        (F, DIST, """        shared = list(set(self.vars) & set(other.vars))
        for i, v1 in enumerate(shared):
            for v2 in shared[i+1:]:
                common_distances.add(Distance(v1, v2))
        return common_distances
""")]),
    ('ok_allpairs', ['C19'], False, [
        (F, DIST, """        shared = set(self.vars) & set(other.vars)
        for v1 in shared:
            for v2 in shared:
                if v1 != v2:
                    common_distances.add(Distance(v1, v2))
        return common_distances
""")]),
    ('ok_apexloop', ['C19'], False, [
        (F, RIG3, """        shared = set(self.vars) & set(rigid.vars)
        common_angles = set()
        for apex in shared:
            arms = list(shared - {apex})
            for i in range(len(arms)):
                for j in range(i):
                    common_angles.add(Angle(arms[i], apex, arms[j]))
        return common_angles
""")]),
    ('ok_update', ['C19'], False, [
        (F, "return self.common_distances(other) | self.common_angles(other)", """        common = set()
        common.update(self.common_distances(other))
        common.update(self.common_angles(other))
        return common""".lstrip())]),
    ('ok_dispatch', ['C17'], False, [
        (F, INTER, """        handlers = [(Rigid, self.intersect_rigid),
                    (Hedgehog, self.intersect_hedgehog),
                    (Balloon, self.intersect_balloon)]
        for kind, handler in handlers:
            if isinstance(other, kind):
                return handler(shared, other)
        raise TypeError("Intersection of unknown cluster types")
""")]),
    ('ok_nested_if', ['C17'], False, [
        (F, """        if self.c_var in balloon.vars and len(x_vars) >= 2:
            # this hedgehog's central value is in the balloon, so make the
            # balloon's variables extra variables of this hedgehog
            return Hedgehog(self.c_var, x_vars)

        # not possible to merge
        return None""", """        if self.c_var not in balloon.vars:
            return None
        if len(x_vars) < 2:
            return None
        return Hedgehog(self.c_var, x_vars)"""),
        (F, "        x_vars = set(shared) - set([hedgehog.c_var])\n", "        x_vars = {v for v in shared if v != hedgehog.c_var}\n"),
        (F, "        shared = self.vars & other.vars\n", "        shared = set()\n        for var in self.vars:\n            if var in other.vars:\n                shared.add(var)\n"),
    ]),
    ('ok_try', ['C17'], False, [
        (F, """        if len(shared) < 3:
            # not possible to merge
            return None

        # intersection is a balloon
        return Balloon(shared)""", """        try:
            return Balloon(shared)
        except ValueError:
            return None""")]),
    ('ok_discard', ['C18'], False, [
        (F, "        x_vars = set(x_vars) - set([c_var])\n\n        # check", "        x_vars = set(x_vars)\n        x_vars.discard(c_var)\n\n        # check"),
        (F, "        super(Hedgehog, self).__init__(self.x_vars | set([self.c_var]))", "        super(Hedgehog, self).__init__([self.c_var, *self.x_vars])"),
        (F, "        self.vars = set(vars)\n", "        self.vars = {v for v in vars}\n"),
        (F, "        return [self.c_var] + list(self.x_vars)", "        result = [self.c_var]\n        result.extend(self.x_vars)\n        return result")]),
    ('ok_counts', ['C20'], False, [
        (F, "        return int(binom(len(self.x_vars), 2))", "        n = len(self.x_vars)\n        return n * (n - 1) // 2"),
        (F, "        return int(binom(len(self.vars), 2))", "        return len(self.vars) * (len(self.vars) - 1) // 2"),
        (F, "        return self.n_distances() + self.n_angles()", "        return sum([self.n_distances(), self.n_angles()])")]),
    ('ok_rel', ['C21', 'C19'], False, [
        (R, """        if isinstance(other, Distance):
            # check points are the same
            return frozenset(self.points) == frozenset(other.points)

        # other object is not same type
        return False""", """        if not isinstance(other, Distance):
            return False
        a, b = self.points
        return (a == other.points[0] and b == other.points[1]) or \\
            (a == other.points[1] and b == other.points[0])"""),
        (R, """            return self.points[1] == other.points[1] \\
            and frozenset(self.points) == frozenset(other.points)""", """            if self.points[1] != other.points[1]:
                return False
            return {self.points[0], self.points[2]} == \\
                {other.points[0], other.points[2]}"""),
        (R, "        self.points = list(points)", "        self.points = tuple(points)"),
    ]),
    ('ok_rel2', ['C21', 'C19'], False, [
        (R, "            return frozenset(self.points) == frozenset(other.points)\n\n", "            return set(self.points) == set(other.points)\n\n"),
        (R, "        return hash(frozenset(self.points))", "        return hash((type(self).__name__, frozenset(self.points)))"),
    ]),
    ('ok_rel3', ['C21', 'C19'], False, [
        (R, "        return hash(frozenset(self.points))", "        return sum(hash(p) for p in self.points)"),
    ]),
]
