G = 'geometry.py'
CC_CMP = """    if Scalar.tol_lt(a, b):
        return []
    elif a < b:
        v = 0.0
    else:
        v = math.sqrt(a-b)
"""
CC_S = """    s = (p2 - p1) * u / d

    if Scalar.tol_zero(s.length):
"""
CW = """    # check a < 0 within tolerance
    return Scalar.tol_lt(perp_u.dot(v), 0)
"""
CCW = """    # check that a > 0 within tolerance
    return Scalar.tol_gt(perp_u.dot(v), 0)
"""
EDITS = [
    # ------------------------------------------------ C26 orientation
    ('cw_notol', ['C26'], True, [(G, CW, """    return perp_u.dot(v) < 0
""")]),
    ('cw_le', ['C26'], True, [(G, CW, """    return Scalar.tol_le(perp_u.dot(v), 0)
""")]),
    ('ccw_swapped', ['C26', 'C27'], True, [(G, CCW, """    return Scalar.tol_lt(perp_u.dot(v), 0)
""")]),
    ('flat_vec', ['C26'], True, [(G, """    v = p3 - p2;
    perp_u = Vector(-u.y, u.x)

    return Scalar.tol_zero(""", """    v = p3 - p1;
    perp_u = Vector(u.y, u.x)

    return Scalar.tol_zero(""")]),
    ('flat_unit', ['C26'], True, [(G, """    return Scalar.tol_zero(perp_u.dot(v), 0)
""", """    return Scalar.tol_zero(perp_u.dot(v), 0, 1e-4)
""")]),
    ('ok_cw_helper', ['C26', 'C27', 'C30'], False, [(G, CW, """    return Scalar.tol_lt(_turn(p1, p2, p3), 0)

def _turn(a, b, c):
    return (b.x - a.x) * (c.y - b.y) - (b.y - a.y) * (c.x - b.x)
""")]),
    ('ok_cw_frombase', ['C26'], False, [(G, CW, """    w = p3 - p1
    turn = u.x * w.y - u.y * w.x
    return turn < 0 and not Scalar.tol_zero(turn)
""")]),
    ('ok_flat_not', ['C26', 'C30'], False, [(G, """    return Scalar.tol_zero(perp_u.dot(v), 0)
""", """    area = abs(v.dot(perp_u))
    return area <= Scalar.abs_tol
""")]),
    # ------------------------------------------------ C27 angles
    ('angle_noclip', ['C27'], True, [(G, """    if t > 1.0:
        t = 1.0
    elif""", """    if""")]),
    ('angle_nodegen', ['C27'], True, [(G, "    if Scalar.tol_zero(d21) or Scalar.tol_zero(d23):", "    if Scalar.tol_zero(d21) and Scalar.tol_zero(d23):")]),
    ('angle_dir', ['C27'], True, [(G, "    v21 = (p1 - p2) / d21\n", "    v21 = (p2 - p1) / d21\n")]),
    ('angle_norm', ['C27'], True, [(G, "    v23 = (p3 - p2) / d23\n", "    v23 = (p3 - p2) / d21\n")]),
    ('angle_sideswap', ['C27'], True, [(G, "    if is_counterclockwise(p1, p2, p3):\n        # flip", "    if is_counterclockwise(p3, p2, p1):\n        # flip")]),
    ('angle_clip', ['C27'], True, [(G, "        t = 1.0\n    elif", "        t = 0.9\n    elif")]),
    ('angle_zero', ['C27'], True, [(G, """        # degenerate angle
        return None
""", """        # degenerate angle
        return 0.0
""")]),
    ('acute_tol', ['C27'], True, [(G, "    return Scalar.tol_lt(abs(angle), math.pi / 2)", "    return Scalar.tol_lt(angle, math.pi / 2)")]),
    ('obtuse_right', ['C27'], True, [(G, "    return Scalar.tol_gt(abs(angle), math.pi / 2)", "    return Scalar.tol_ge(abs(angle), math.pi / 2)")]),
    ('obtuse_none', ['C27', 'C30'], True, [(G, """    angle = angle_3p(p1, p2, p3)

    if angle is None:
        return False

    return Scalar.tol_gt""", """    angle = angle_3p(p1, p2, p3)

    return Scalar.tol_gt""")]),
    ('ok_angle_minmax', ['C27', 'C30'], False, [(G, """    if t > 1.0:
        t = 1.0
    elif t < -1.0:
        t = -1.0
""", """    t = max(-1.0, min(1.0, t))
""")]),
    ('ok_angle_dist', ['C27', 'C30'], False, [(G, """    d21 = (p2 - p1).length
    d23 = (p3 - p2).length
""", """    d21 = distance_2p(p1, p2)
    d23 = distance_2p(p2, p3)
""")]),
    ('ok_angle_ret', ['C27', 'C30'], False, [(G, """        # flip angle
        angle = -angle

    return angle
""", """        return -angle
    else:
        return angle
""")]),
    ('ok_angle_dot', ['C27'], False, [(G, "    t = v21.dot(v23)\n", "    t = v21.x * v23.x + v21.y * v23.y\n")]),
    ('ok_angle_atan2', ['C27', 'C30'], False, [(G, """    angle = math.acos(t)

    if is_counter""", """    v = Vector(v21.x, v21.y)
    cross = v.x * v23.y - v.y * v23.x
    angle = abs(math.atan2(cross, t))

    if is_counter""")]),
    ('ok_acute_expr', ['C27'], False, [(G, """    if angle is None:
        return False

    return Scalar.tol_lt(abs(angle), math.pi / 2)""", """    return angle is not None and Scalar.tol_lt(abs(angle), math.pi / 2)""")]),
    # ------------------------------------------------ C28 tolerances
    ('tol_abs', ['C28'], True, [(G, "(abs_tol + rel_tol * abs(b))", "(abs_tol + rel_tol * b)")]),
    ('tol_rel', ['C28'], True, [(G, "(abs_tol + rel_tol * abs(b))", "max(abs_tol, rel_tol * abs(b))")]),
    ('tol_strict', ['C28'], True, [(G, "return abs(a - b) <= (abs", "return abs(a - b) < (abs")]),
    ('tol_a', ['C28'], True, [(G, "(abs_tol + rel_tol * abs(b))", "(abs_tol + rel_tol * abs(a))")]),
    ('tol_falsy', ['C28'], True, [(G, "        if abs_tol is None:\n", "        if not abs_tol:\n")]),
    ('tol_falsyrel', ['C28'], True, [(G, "        if rel_tol is None:\n", "        if not rel_tol:\n")]),
    ('tol_gtargs', ['C28'], True, [(G, "return a > b and not cls.tol_eq(a, b, *args, **kwargs)", "return a > b and not cls.tol_eq(a, b)")]),
    ('tol_lekw', ['C28'], True, [(G, "return a < b or cls.tol_eq(a, b, *args, **kwargs)", "return a < b or cls.tol_eq(a, b, *args)")]),
    ('tol_geand', ['C28'], True, [(G, "return a > b or cls.tol_eq(a, b, *args, **kwargs)", "return a >= b and cls.tol_eq(a, b, *args, **kwargs)")]),
    ('tol_sign', ['C28'], True, [(G, "        if x > 0:\n            return 1\n\n        return -1", "        if x > 0:\n            return 1\n\n        return -1 if x < 0 else 0")]),
    ('tol_vec', ['C28'], True, [(G, "        return Scalar.tol_eq(self.x, other.x, *args, **kwargs) \\\n        and Scalar.tol_eq(self.y, other.y, *args, **kwargs)", "        return Scalar.tol_eq(self.x, other.x, *args, **kwargs) \\\n        and Scalar.tol_eq(self.y, other.y)")]),
    ('tol_vecor', ['C28'], True, [(G, "*args, **kwargs) \\\n        and Scalar.tol_eq(self.y", "*args, **kwargs) \\\n        or Scalar.tol_eq(self.y")]),
    ('tol_defaults', ['C28'], True, [(G, "def tol_eq(cls, a, b, rel_tol=None, abs_tol=None):", "def tol_eq(cls, a, b, abs_tol=None, rel_tol=None):")]),
    ('ok_tol_ternary', ['C28'], False, [(G, """        if rel_tol is None:
            rel_tol = cls.rel_tol

        if abs_tol is None:
            abs_tol = cls.abs_tol
""", """        rel_tol = cls.rel_tol if rel_tol is None else rel_tol
        abs_tol = Scalar.abs_tol if abs_tol is None else abs_tol
""")]),
    ('ok_tol_limit', ['C28'], False, [(G, "        return abs(a - b) <= (abs_tol + rel_tol * abs(b))", "        limit = abs_tol + rel_tol * abs(b)\n        return not (b - a > limit or a - b > limit)")]),
    ('ok_tol_sign', ['C28', 'C29'], False, [(G, "        if x > 0:\n            return 1\n\n        return -1", "        return 1 if x > 0 else -1")]),
    ('ok_tol_gtle', ['C28'], False, [(G, "return a > b and not cls.tol_eq(a, b, *args, **kwargs)", "return not cls.tol_le(a, b, *args, **kwargs)")]),
    # ------------------------------------------------ C29 intersections
    ('cc_u', ['C29'], True, [(G, "u = ((r1*r1 - r2*r2) / d + d) / 2", "u = ((r2*r2 - r1*r1) / d + d) / 2")]),
    ('cc_nov', ['C29'], True, [(G, CC_CMP, CC_CMP.replace("elif a < b:", "elif a < b + 1:"))]),
    ('cc_tolgone', ['C30'], True, [(G, CC_CMP, """    if Scalar.tol_lt(a, b):
        return []
    else:
        v = math.sqrt(a-b)
""")]),
    ('cc_onlytouch', ['C29'], True, [(G, "        if Scalar.tol_zero(v / s.length):\n            return [p3a]\n", "        if Scalar.tol_zero(v, abs_tol=1.0):\n            return [p3a]\n")]),
    ('cc_sign', ['C29'], True, [(G, "            p3b = p1 + s + Vector(-s.y, s.x) * v / s.length", "            p3b = p1 + s + Vector(s.y, -s.x) * v / s.length")]),
    ('cc_samepoint', ['C29'], True, [(G, "            p3b = p1 + Vector(p1.y - p2.y, p2.x - p1.x) * r1/d", "            p3b = p1 + Vector(p2.y - p1.y, p1.x - p2.x) * r1/d")]),
    ('cc_r2', ['C29'], True, [(G, "            p3b = p1 + Vector(p1.y - p2.y, p2.x - p1.x) * r1/d", "            p3b = p1 + Vector(p1.y - p2.y, p2.x - p1.x) * r2/d")]),
    ('cc_concentric', ['C30'], True, [(G, "    if Scalar.tol_le(d, 0):\n        # no", "    if Scalar.tol_lt(d, 0):\n        # no")]),
    ('cc_szero', ['C30'], True, [(G, CC_S, CC_S.replace("if Scalar.tol_zero(s.length)", "if Scalar.tol_lt(s.length, 0)"))]),
    ('cc_apart', ['C29'], True, [(G, CC_CMP, CC_CMP.replace("if Scalar.tol_lt(a, b):", "if Scalar.tol_gt(a, b):"))]),
    ('cc_farther', ['C29'], True, [(G, CC_CMP, CC_CMP.replace("if Scalar.tol_lt(a, b):", "if d > r1 + r2:"))]),
    ('ok_cc_sqrtmax', ['C29', 'C30'], False, [(G, CC_CMP, """    if Scalar.tol_lt(a, b):
        return []

    v = math.sqrt(max(a - b, 0.0))
""")]),
    ('ok_cc_points', ['C29', 'C30'], False, [(G, """        p3a = p1 + s + Vector(s.y, -s.x) * v / s.length

        if Scalar.tol_zero(v / s.length):
            return [p3a]
        else:
            p3b = p1 + s + Vector(-s.y, s.x) * v / s.length

            return [p3a, p3b]
""", """        offset = Vector(s.y, -s.x) * v / s.length
        foot = p1 + s
        solutions = [foot + offset]

        if not Scalar.tol_zero(v / s.length):
            solutions.append(foot - offset)

        return solutions
""")]),
    ('ok_cc_dist', ['C29', 'C30'], False, [(G, "    d = (p2-p1).length\n", "    d = distance_2p(p1, p2)\n"), (G, "    a = r1*r1\n    b = u*u\n", "    a = r1 ** 2\n    b = u ** 2\n")]),
    ('ok_cc_swaporder', ['C29', 'C30'], False, [(G, """            p3b = p1 + s + Vector(-s.y, s.x) * v / s.length

            return [p3a, p3b]
""", """            p3b = p1 + s - Vector(s.y, -s.x) * v / s.length

            return [p3b, p3a]
""")]),
    ('cl_tol', ['C29'], True, [(G, "    elif d2 > 0 and Scalar.tol_zero(E):", "    elif d2 > 0 and Scalar.tol_le(E, 0):")]),
    ('cl_nodir', ['C30'], True, [(G, "    if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0):", "    if Scalar.tol_gt(E, 0):"), (G, "    elif d2 > 0 and Scalar.tol_zero(E):", "    elif Scalar.tol_zero(E):")]),
    ('cl_nodir2', ['C30'], True, [(G, "    elif d2 > 0 and Scalar.tol_zero(E):", "    elif Scalar.tol_zero(E):")]),
    ('cl_sign', ['C29'], True, [(G, "x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2", "x2 = p1.x + (D * v.y - v.x * sE) / d2"), (G, "x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2", "x1 = p1.x + (D * v.y + v.x * sE) / d2")]),
    ('cl_touchtwice', ['C29'], True, [(G, "    if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0):", "    if Scalar.tol_gt(d2, 0) and E >= 0:")]),
    ('cl_center', ['C29'], True, [(G, "        y1 = p1.y + -D * v.x / d2\n", "        y1 = p2.y + -D * v.x / d2\n")]),
    ('cl_radius', ['C29'], True, [(G, "    E = r * r * d2 - D * D\n", "    E = r * d2 - D * D\n")]),
    ('cl_signzero', ['C29', 'C28'], True, [(G, "        if x > 0:\n            return 1\n\n        return -1", "        return (x > 0) - (x < 0)")]),
    ('ok_cl_alt', ['C29', 'C30'], False, [(G, """        x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2
        x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2
        y1 = p1.y + (-D * v.x + abs(v.y) * sE) / d2
        y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
""", """        x1 = p1.x + (D * v.y + v.x * sE) / d2
        x2 = p1.x + (D * v.y - v.x * sE) / d2
        y1 = p1.y + (v.y * sE - D * v.x) / d2
        y2 = p1.y - (v.y * sE + D * v.x) / d2
""")]),
    ('ok_cl_foot', ['C29', 'C30'], False, [(G, """        x1 = p1.x + D * v.y / d2
        y1 = p1.y + -D * v.x / d2

        return [Vector(x1, y1)]
""", """        return [p1 + Vector(v.y, -v.x) * (D / d2)]
""")]),
    ('cr_line', ['C29'], True, [(G, "        if Scalar.tol_ge((s - p2).dot(v), 0):\n", "        if Scalar.tol_ge((s - p1).dot(v), 0):\n")]),
    ('cr_strict', ['C29'], True, [(G, "        if Scalar.tol_ge((s - p2).dot(v), 0):\n            solutions.append(s)\n", "        if Scalar.tol_ge((s - p2).dot(v), 0):\n            solutions.append(s)\n            break\n")]),
    ('cr_behind', ['C29'], True, [(G, "        if Scalar.tol_ge((s - p2).dot(v), 0):\n", "        if Scalar.tol_ge((p2 - s).dot(v), 0):\n")]),
    ('cr_bool', ['C30'], True, [(G, "            solutions.append(s)\n\n    return solutions", "            solutions.append(s)\n\n    return solutions if solutions else None")]),
    ('ok_cr_comp', ['C29', 'C30'], False, [(G, """    solutions = []

    # loop over solutions of the circle and line intercept
    for s in cl_int(p1, r, p2, v):
        # check if a is >= 0 within tolerance
        if Scalar.tol_ge((s - p2).dot(v), 0):
            solutions.append(s)

    return solutions
""", """    def ahead(point):
        return Scalar.tol_ge(v.dot(point - p2), 0)

    return [s for s in cl_int(p1, r, p2, v) if ahead(s)]
""")]),
    ('ok_cr_filter', ['C29', 'C30'], False, [(G, """        # check if a is >= 0 within tolerance
        if Scalar.tol_ge((s - p2).dot(v), 0):
            solutions.append(s)
""", """        if Scalar.tol_lt((s - p2).dot(v), 0):
            # behind the ray
            continue

        solutions.append(s)
""")]),
    ('ll_sign', ['C29'], True, [(G, "    t1 = (d.x * v2.y - d.y * v2.x) / c\n", "    t1 = (d.x * v1.y - d.y * v1.x) / c\n")]),
    ('ll_exact', ['C29'], True, [(G, """    if Scalar.tol_zero(c):
        # lines don't""", """    if c == 0:
        # lines don't""")]),
    ('ll_other', ['C29'], True, [(G, """    c = v1.x * v2.y - v1.y * v2.x

    if""", """    c = v1.x * v2.y + v1.y * v2.x

    if""")]),
    ('ll_none', ['C30'], True, [(G, "        # lines don't intersect\n        return []", "        # lines don't intersect\n        return None")]),
    ('ok_ll_neg', ['C29', 'C30'], False, [(G, """    c = v1.x * v2.y - v1.y * v2.x

    if Scalar.tol_zero(c):
        # lines don't intersect
        return []

    d = p2 - p1
    t1 = (d.x * v2.y - d.y * v2.x) / c

    return [p1 + v1 * t1]
""", """    c = v1.y * v2.x - v1.x * v2.y
    solutions = []

    if not Scalar.tol_zero(c):
        d = p1 - p2
        t2 = (v1.y * d.x - v1.x * d.y) / c
        solutions.append(p2 + v2 * t2)

    return solutions
""")]),
    ('lr_start', ['C29'], True, [(G, "    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0):", "    if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0):")]),
    ('lr_len', ['C30'], True, [(G, "    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0):", "    if Scalar.tol_ge((s[0] - p2).dot(v2), 0):")]),
    ('rr_one', ['C29'], True, [(G, """    if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \\
    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):""", """    if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0):""")]),
    ('rr_or', ['C29'], True, [(G, "    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):", "    or len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0):")]),
    ('rr_mut', ['C30'], True, [(G, "    # assume rays are lines and get intersection\n", "    p1.x = p1.x + 0.5\n")]),
    ('ok_rr_early', ['C29', 'C30'], False, [(G, """    if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \\
    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
        return s
    else:
        # lines intersect behind rays
        return []
""", """    for p, v in ((p1, v1), (p2, v2)):
        s = [t for t in s if Scalar.tol_ge((t - p).dot(v), 0)]

    return s
""")]),
    ('ok_rr_lr', ['C29', 'C30'], False, [(G, """    if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \\
    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
        return s
""", """    if s and Scalar.tol_ge(v1.dot(s[0] - p1), 0) \\
    and Scalar.tol_ge(v2.dot(s[0] - p2), 0):
        return list(s)
""")]),
    # ------------------------------------------------ C31 frames
    ('hcs_mirror', ['C31'], True, [(G, "    v = Vector(-u.y, u.x)\n\n    # return", "    v = Vector(u.y, -u.x)\n\n    # return")]),
    ('hcs_early', ['C31'], True, [(G, """    if not scale:
        # normalise resultant
        u /= u.length

    # mirror of u
    v = Vector(-u.y, u.x)
""", """    # mirror of u
    v = Vector(-u.y, u.x)

    if not scale:
        # normalise resultant
        u /= u.length
""")]),
    ('hcs_scaleinv', ['C31'], True, [(G, "    if not scale:\n", "    if scale:\n")]),
    ('hcs_originb', ['C31'], True, [(G, "        [u.y, v.y, a.y],", "        [u.y, v.y, b.y],")]),
    ('hcs_none', ['C31', 'C30'], True, [(G, """    if Scalar.tol_zero(u.length):
        # vectors are on top""", """    if Scalar.tol_lt(u.length, 0):
        # vectors are on top""")]),
    ('hcs_rownorm', ['C31'], True, [(G, "        [0.0, 0.0, 1.0]\n    ])", "        [0.0, 0.0, 0.0]\n    ])")]),
    ('cs_order', ['C31'], True, [(G, "    return to_cs * from_cs.inverse()", "    return from_cs.inverse() * to_cs")]),
    ('cs_inv', ['C31'], True, [(G, "    return to_cs * from_cs.inverse()", "    return from_cs * to_cs.inverse()")]),
    ('scaled_default', ['C31'], True, [(G, "    return make_hcs(scale=True, *args, **kwargs)", "    return make_hcs(*args, **kwargs)")]),
    ('dist_sq', ['C31'], True, [(G, "    return (p2 - p1).length\n", "    return (p2 - p1).dot(p2 - p1)\n")]),
    ('ok_hcs_cols', ['C31', 'C30'], False, [(G, """    return Matrix([
        [u.x, v.x, a.x],
        [u.y, v.y, a.y],
        [0.0, 0.0, 1.0]
    ])
""", """    columns = Matrix([[u.x, u.y, 0.0], [v.x, v.y, 0.0], [a.x, a.y, 1.0]])

    return columns.transpose()
""")]),
    ('ok_hcs_factor', ['C31', 'C30'], False, [(G, """    if not scale:
        # normalise resultant
        u /= u.length
""", """    size = 1 if scale else distance_2p(a, b)
    u = u / size
""")]),
    ('ok_cs_solve', ['C31'], False, [(G, "    return to_cs * from_cs.inverse()", "    inverse = from_cs.solve(Matrix.identity(3))\n\n    return to_cs.__mul__(inverse)")]),
    # ------------------------------------------------ C32 vectors
    ('vec_alias', ['C32'], True, [(G, "                y = x.elements[1][0]\n                x = x.elements[0][0]\n", "                self._elements = x.elements\n                return\n")]),
    ('vec_row', ['C32'], True, [(G, "                if x.num_cols > 1:\n", "                if x.num_cols > 2:\n")]),
    ('vec_rows3', ['C32'], True, [(G, "                if x.num_rows != 2:\n", "                if x.num_rows < 2:\n")]),
    ('vec_swap', ['C32'], True, [(G, "                y = x.elements[1][0]\n                x = x.elements[0][0]\n", "                x = x.elements[0][0]\n                y = x\n")]),
    ('vec_yfalsy', ['C32'], True, [(G, "        if y is None:\n            # check if x", "        if not y:\n            # check if x")]),
    ('vec_iadd', ['C32'], True, [(G, "        return self.__class__(self.x + other_x, self.y + other_y)", "        self.x = self.x + other_x\n        self.y = self.y + other_y\n        return self")]),
    ('vec_sety', ['C32'], True, [(G, "        self.elements[1][0] = float(y)", "        self.elements[0][0] = float(y)")]),
    ('vec_rot', ['C32'], True, [(G, "        + self.y * math.cos(math.radians(azimuth))", "        + x * math.cos(math.radians(azimuth))")]),
    ('vec_rotcc', ['C32'], True, [(G, "        y = self.x * math.sin(math.radians(azimuth)) \\\n        + self.y", "        y = -self.x * math.sin(math.radians(azimuth)) \\\n        + self.y")]),
    ('vec_azimuth', ['C32'], True, [(G, "math.atan2(self.y, self.x)", "math.atan(self.y / self.x)")]),
    ('vec_neg1', ['C32'], True, [(G, "        return self.__class__(-self.x, -self.y)", "        return self.__class__(-self.x, self.y)")]),
    ('vec_le', ['C32'], True, [(G, "        return self.x <= other.x and self.y <= other.y", "        return self.x <= other.x and self.y < other.y")]),
    ('vec_lex', ['C32'], True, [(G, "        return self.x < other.x and self.y < other.y", "        return (self.x, self.y) < (other.x, other.y)")]),
    ('vec_pos', ['C32'], True, [(G, "        return self.x >= 0 and self.y >= 0", "        return self.x > 0 and self.y > 0")]),
    ('vec_posor', ['C32'], True, [(G, "        return self.x < 0 and self.y < 0", "        return not self.is_positive()")]),
    ('vec_idx', ['C32'], True, [(G, "        return self.elements[int(i)][0]\n", "        return self.elements[int(i) % 2][0]\n")]),
    ('vec_eqtol', ['C32'], True, [(G, "        return self.x == other.x and self.y == other.y", "        return self.tol_eq(other)")]),
    ('vec_muldot', ['C32'], True, [(G, "        return self.__class__(self.x * other_x, self.y * other_y)", "        return self.__class__(self.x * other_x, self.y * other_x)")]),
    ('ok_vec_helper', ['C32', 'C30'], False, [(G, """        try:
            other_x = other.x
            other_y = other.y
        except AttributeError:
            other_x = other
            other_y = other

        return self.__class__(self.x + other_x, self.y + other_y)
""", """        other_x, other_y = self._operand(other)

        return self.__class__(self.x + other_x, self.y + other_y)

    @staticmethod
    def _operand(other):
        if isinstance(other, Vector):
            return other.x, other.y

        return other, other
""")]),
    ('ok_vec_sub', ['C32', 'C29'], False, [(G, "        return self.__class__(self.x - other_x, self.y - other_y)", "        return Vector(-other_x + self.x, -other_y + self.y)")]),
    ('ok_vec_hypot', ['C32', 'C27', 'C29'], False, [(G, "        return math.sqrt(self.x * self.x + self.y * self.y)", "        return math.hypot(self.x, self.y)")]),
    ('ok_vec_dotlen', ['C32', 'C29'], False, [(G, "        return math.sqrt(self.x * self.x + self.y * self.y)", "        return self.dot(self) ** 0.5")]),
    ('ok_vec_rotcs', ['C32'], False, [(G, """        x = self.x * math.cos(math.radians(azimuth)) \\
        - self.y * math.sin(math.radians(azimuth))
        y = self.x * math.sin(math.radians(azimuth)) \\
        + self.y * math.cos(math.radians(azimuth))

        # return new coordinates
        return self.__class__(x, y)
""", """        angle = math.radians(azimuth)
        c, s = math.cos(angle), math.sin(angle)
        rotation = Matrix([[c, -s], [s, c]])

        return self.__class__(rotation * self)
""")]),
    ('ok_vec_azrad', ['C32'], False, [(G, "        return math.degrees(math.atan2(self.y, self.x))", "        return math.atan2(self[1], self[0]) * 180 / math.pi")]),
    ('ok_vec_cmp', ['C32', 'C28'], False, [(G, "        return self.x >= other.x and self.y >= other.y", "        return all(a >= b for a, b in zip(self[:], other[:]))")]),
    ('ok_vec_eq', ['C32'], False, [(G, "        return self.x == other.x and self.y == other.y", "        return not (self.x != other.x or self.y != other.y)")]),
    # ------------------------------------------------ C33 matrices
    ('mat_mulT', ['C33', 'C31'], True, [(G, "        for col_b in zip(*other.elements)] for row_a in self.elements])", "        for col_b in other.elements] for row_a in self.elements])")]),
    ('mat_shape', ['C33'], True, [(G, "        if self.num_cols != other.num_rows:\n", "        if self.num_rows != other.num_cols:\n")]),
    ('mat_is', ['C33'], True, [(G, "        if self.num_cols != other.num_rows:\n", "        if self.num_cols is not other.num_rows:\n")]),
    ('mat_is_local', ['C33'], True, [(G, "        if self.num_cols != other.num_rows:\n", "        inner = len(self.elements[0])\n        if not (inner is other.num_rows):\n")]),
    ('ok_mat_is_none', ['C33'], False, [(G, "        if self.num_cols != other.num_rows:\n", "        if other is None or self.num_cols != other.num_rows:\n")]),
    ('mat_noshape', ['C33'], True, [(G, "        if self.num_cols != other.num_rows:\n            raise Exception('Matrix dimensions mismatch')\n", "")]),
    ('mat_inplaceT', ['C33'], True, [(G, "        return Matrix(t_matrix)\n", "        self.elements = t_matrix\n        return self\n")]),
    ('mat_sq', ['C33'], True, [(G, "        for row in range(self.num_cols):\n            t_row", "        for row in range(self.num_rows):\n            t_row")]),
    ('mat_ident', ['C33', 'C31'], True, [(G, "            if i == j:\n                return 1.0\n", "            if i <= j:\n                return 1.0\n")]),
    ('mat_alias', ['C33'], True, [(G, "        return cls([[ij_elem(i, j) for i in range(n)] for j in range(n)])", "        return cls([[1.0] + [0.0] * (n - 1)] * n)")]),
    ('mat_inv', ['C33', 'C31'], True, [(G, "        return self.solve(self.identity(self.num_rows))", "        return self.transpose()")]),
    ('mat_nonsq', ['C33'], True, [(G, """        if self.num_rows != self.num_cols:
            raise Exception('Inverse only defined for square matrices')

        return self.solve(self.identity(self.num_rows))""", """        if self.num_rows < self.num_cols:
            raise Exception('Inverse only defined for square matrices')

        return Matrix(la.pinv(np.array(self.elements)).tolist())""")]),
    ('mat_dim', ['C33'], True, [(G, "        if (self.num_rows > 1) and (self.num_cols > 1):", "        if (self.num_rows > 1) or (self.num_cols > 1):")]),
    ('mat_elems', ['C33'], True, [(G, "        return self.num_rows * self.num_cols", "        return self.num_rows * self.num_rows")]),
    ('mat_round', ['C33'], True, [(G, "                precision)\n\n    def __mul__", "                4)\n\n    def __mul__")]),
    ('mat_roundsq', ['C33'], True, [(G, "            for col in range(self.num_cols):\n                self.elements[row][col] = round", "            for col in range(self.num_rows):\n                self.elements[row][col] = round")]),
    ('mat_solveswap', ['C33', 'C31'], True, [(G, "        x = la.solve(A, B)", "        x = la.solve(A.T, B)")]),
    ('ok_mat_loops', ['C33', 'C31'], False, [(G, """        return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \\
        for col_b in zip(*other.elements)] for row_a in self.elements])
""", """        rows = []

        for i in range(self.num_rows):
            row = []

            for j in range(other.num_cols):
                value = 0

                for k in range(self.num_cols):
                    value += self.elements[i][k] * other.elements[k][j]

                row.append(value)

            rows.append(row)

        return Matrix(rows)
""")]),
    ('ok_mat_dot', ['C33', 'C31'], False, [(G, """        return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \\
        for col_b in zip(*other.elements)] for row_a in self.elements])
""", """        return Matrix(np.dot(np.array(self.elements), np.array(other.elements)).tolist())
""")]),
    ('ok_mat_zipT', ['C33', 'C31'], False, [(G, """        t_matrix = []

        for row in range(self.num_cols):
            t_row = []

            for col in range(self.num_rows):
                t_row.append(self.elements[col][row])

            t_matrix.append(t_row)

        return Matrix(t_matrix)
""", """        return Matrix([list(column) for column in zip(*self.elements)])
""")]),
    ('ok_mat_ident', ['C33', 'C31'], False, [(G, "        return cls([[ij_elem(i, j) for i in range(n)] for j in range(n)])", "        rows = [[0.0] * n for _ in range(n)]\n\n        for i in range(n):\n            rows[i][i] = 1.0\n\n        return cls(rows)")]),
    ('ok_mat_inv', ['C33', 'C31'], False, [(G, "        return self.solve(self.identity(self.num_rows))", "        return Matrix(la.inv(np.array(self.elements)).tolist())")]),
    ('ok_mat_round', ['C33'], False, [(G, """        for row in range(self.num_rows):
            for col in range(self.num_cols):
                self.elements[row][col] = round(self.elements[row][col], \\
                precision)
""", """        self.elements = [[round(e, precision) for e in row] for row in self.elements]
""")]),
]
