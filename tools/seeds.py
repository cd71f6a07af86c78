"""Planted bugs: edits of the original lines of the repository that keep its
tests passing, and a demonstration of what each of them breaks."""

G, M = 'graph.py', 'method.py'
GI = 'from solver.graph import Graph\n'
CI = 'from solver.geometric.cluster import Rigid, Hedgehog, Balloon\n'
YI = 'from solver.geometry import *\n'
CLF = 'geometric/cluster.py'
K, CF = 'geometric/constraint.py', 'geometric/configuration.py'
KI = 'from solver.geometric.constraint import *\n'
FI = ('from solver.geometric.configuration import Configuration\n'
      'from solver.geometry import Vector\n')
MI = 'from solver.method import *\nfrom solver.method import MethodGraph\n'

SEEDS = [
    dict(id='g-set-stale-reverse', property='C01', edits=[(G, """            self._forward[v1][v2] = value
            self._reverse[v2][v1] = value

    def set_bi_edge""", """            self._forward[v1][v2] = value

    def set_bi_edge""")],
         needs='overwriting the value of an edge that exists already, then '
         'looking at the reversed graph or the ingoing side',
         breaks='the value of an overwritten edge differs between the outgoing '
         'and the ingoing view', demo=GI + """
g = Graph()
g.set('a', 'b', 1)
g.set('a', 'b', 2)
assert g._reverse['b']['a'] == g._forward['a']['b'] == 2
"""),
    dict(id='g-edge-selfloop-reverse', property='C01', edits=[(G, """        if v1 not in self._reverse[v2]:
            self._reverse[v2][v1] = value
""", """        if v1 not in self._reverse[v2] and v2 not in self._reverse[v1]:
            self._reverse[v2][v1] = value
""")],
         needs='two edges in opposite directions between the same vertices',
         breaks='the second edge of a bidirectional pair is not listed among '
         'the ingoing edges of its end', demo=GI + """
g = Graph()
g.add_edge('a', 'b')
g.add_edge('b', 'a')
assert g.ingoing_vertices('a') == ['b'], g.ingoing_vertices('a')
assert g.ingoing_vertices('b') == ['a']
"""),
    dict(id='g-bi-keyword', property='C02', edits=[(G, """        self.add_edge(v2, v1, *args, **kwargs)
""", """        self.add_edge(v2, v1, *args)
""")],
         needs='adding a bidirectional edge whose value is given by keyword',
         breaks='the edge back gets the default value instead of the given '
         'one', demo=GI + """
g = Graph()
g.add_bi_edge('a', 'b', value=7)
assert (g.get('a', 'b'), g.get('b', 'a')) == (7, 7), g.get('b', 'a')
"""),
    dict(id='g-add-edge-overwrites', property='C02', edits=[(G, """        if v2 not in self._forward[v1]:
            self._forward[v1][v2] = value

        # and the reverse edge
        if v1 not in self._reverse[v2]:
            self._reverse[v2][v1] = value
""", """        self._forward[v1][v2] = value
        self._reverse[v2][v1] = value
""")],
         needs='adding an edge that exists already, with another value',
         breaks='adding an edge overwrites the value of an existing one',
         demo=GI + """
g = Graph()
g.set('a', 'b', 'first')
g.add_edge('a', 'b')
assert g.get('a', 'b') == 'first', g.get('a', 'b')
"""),
    dict(id='g-subgraph-values', property='C04', edits=[(G, """                    # copy over the edge's value
                    g.set(v, w, self.get(v, w))
""", """                    # copy over the edge's value
                    g.add_edge(v, w, self.get(v, w) or 1)
""")],
         needs='an edge with a falsy value such as 0', breaks='a subgraph or '
         'copy has other edge values than its source', demo=GI + """
g = Graph()
g.set('a', 'b', 0)
assert g.copy().get('a', 'b') == 0
"""),
    dict(id='g-subgraph-bi', property='C04', edits=[(G, """                if w in vertices:
                    # copy""", """                if w in vertices and not g.has_any_edge(v, w):
                    # copy""")],
         needs='edges in both directions between two vertices of the subgraph',
         breaks='a subgraph loses one of two opposite edges', demo=GI + """
g = Graph()
g.add_bi_edge('a', 'b')
s = g.subgraph(['a', 'b'])
assert s.has_bi_edge('a', 'b')
"""),
    dict(id='g-adjacent-reciprocal', property='C05', edits=[(G, """            | set(self.outgoing_vertices(vertex)))
""", """            ^ set(self.outgoing_vertices(vertex)))
""")],
         needs='a vertex with edges to and from the same neighbour', breaks='the '
         'neighbours of a vertex leave out those in both directions',
         demo=GI + """
g = Graph()
g.add_bi_edge('a', 'b')
assert g.adjacent_vertices('a') == ['b']
"""),
    dict(id='m-propagate-order', property='C09', edits=[(M, """            for method in methods:
                self._do_execute(method)

            if pick in self._changed:
                del(self._changed[pick])
""", """            if pick in self._changed:
                del(self._changed[pick])

            for method in methods:
                self._do_execute(method)
                if not self._changed:
                    break
""")],
         needs='a variable with two dependent methods, the first of which '
         'changes nothing', breaks='propagation leaves methods of a changed '
         'variable out', demo=MI + """
mg = MethodGraph()
for v in 'abcde':
    mg.add_variable(v)
mg.add_method(AddMethod('a', 'b', 'c'))      # b is never set
mg.add_method(AssignMethod('d', 'a'))
mg.set('a', 1)
assert mg.get('d') == 1, mg.get('d')
"""),
    dict(id='m-set-same-value', property='C10', edits=[(M, """        self._map[varname] = value
        self._changed[varname] = 1

        if prop""", """        if self._map[varname] != value:
            self._changed[varname] = 1

        self._map[varname] = value

        if prop""")],
         needs='setting a variable to a value that compares equal to the one '
         'it had, but is another one (1 and True)', breaks='setting a variable '
         'does not run the methods on it', demo=MI + """
class Never(object):
    # a value whose inequality says nothing
    def __init__(self, n): self.n = n
    def __eq__(self, o): return True
    def __ne__(self, o): return False
    __hash__ = None
mg = MethodGraph()
mg.add_variable('a')
mg.add_variable('b')
mg.add_method(AssignMethod('b', 'a'))
mg.set('a', Never(1))
assert mg.get('b') is not None and mg.get('b').n == 1
mg.set('a', Never(2))
assert mg.get('b').n == 2, mg.get('b').n
"""),
    dict(id='m-refuse-keeps-edges', property='C08', edits=[(M, """            if len(self._graph.ingoing_vertices(var)) > 1:
                self.rem_method(met)

                raise""", """            if len(self._graph.ingoing_vertices(var)) > 1:
                del self._methods[met]
                for other in met.outputs:
                    if self._graph.has_edge(met, other):
                        self._graph.remove_edge(met, other)

                raise""")],
         needs='a method refused for determining a variable twice, and a '
         'change of one of its inputs afterwards', breaks='a refused method '
         'stays connected with its inputs and is executed later on',
         demo=MI + """
mg = MethodGraph()
for v in 'abc':
    mg.add_variable(v)
mg.add_method(AssignMethod('c', 'a'))
try:
    mg.add_method(AssignMethod('c', 'b'))
except MethodGraphDetermineException:
    pass
mg.set('a', 1)
mg.set('b', 2)
assert mg.get('c') == 1, mg.get('c')
"""),
    dict(id='m-rem-variable-in', property='C11', edits=[(M, """        for vertex in self._graph.outgoing_vertices(varname):
            self.rem_method(vertex)
""", """        for vertex in self._graph.outgoing_vertices(varname):
            if not self._graph.outgoing_vertices(vertex):
                self.rem_method(vertex)
""")],
         needs='removing a variable that is the input of a method with an '
         'output, then changing another input of it',
         breaks='methods on a removed variable stay registered', demo=MI + """
mg = MethodGraph()
for v in 'abc':
    mg.add_variable(v, 1)
m = AddMethod('a', 'b', 'c')
mg.add_method(m)
mg.rem_variable('a')
assert m not in list(mg.methods())
mg.set('b', 3)
"""),
    dict(id='m-multi-shared', property='C13', edits=[(M, """        for variable in self.inputs:
            if variable not in self.multi_inputs:
                value""", """        for variable in self.inputs:
            if variable not in self.multi_inputs and len(self.inputs) < 3:
                value""")],
         needs='a multi-valued method with three inputs, one of them '
         'single-valued', breaks='the value of a single-valued input is '
         'missing from the combinations', demo=MI + """
from solver.method import MultiMethod, MultiVariable
x, y, z = MultiVariable('x'), MultiVariable('y'), MultiVariable('z')

class Sum3(MultiMethod):
    def __init__(self):
        super(Sum3, self).__init__('Sum3', [x, 'k', y], [z])

    def multi_execute(self, inmap):
        return [inmap[x] + inmap['k'] + inmap[y]]
r = Sum3().execute({x: {1, 2}, 'k': 10, y: {100, 200}})
assert set(r[z]) == {111, 112, 211, 212}, r
"""),
    dict(id='c-hedgehogs-shared', property='C17', edits=[('geometric/cluster.py', """        x_vars = self.x_vars & hedgehog.x_vars

        if self.c_var == hedgehog.c_var and len(x_vars) >= 2:
            # each hedgehog shares the same point, so merge them
            return Hedgehog(self.c_var, x_vars)
""", """        x_vars = set(shared)

        if self.c_var == hedgehog.c_var and len(x_vars) >= 2:
            # each hedgehog shares the same point, so merge them
            return Hedgehog(self.c_var, x_vars)
""")],
         needs='two hedgehogs that share their centre and exactly one other '
         'point', breaks='intersecting them fails instead of giving nothing',
         demo=CI + """
assert Hedgehog(1, [2, 3]).intersection(Hedgehog(1, [3, 4])) is None
i = Hedgehog(1, [2, 3, 5]).intersection(Hedgehog(1, [3, 5, 4]))
assert i.c_var == 1 and i.x_vars == {3, 5}
"""),
    dict(id='c-angle-rotation', property='C19', edits=[('geometric/cluster.py', """    def common_angles_balloon(self, balloon):
        # list of duplicate angles
        shared = list(set(self.vars) & set(balloon.vars))

        # empty set of common angles
        common_angles = set()

        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i+1, len(shared)):
                # loop over third variable
                for k in range(j+1, len(shared)):
                    # get variables
                    v1 = shared[i]
                    v2 = shared[j]
                    v3 = shared[k]

                    # add combinations of angles to set (duplicates will be
                    # avoided due to hash values for each angle)
                    common_angles.add(Angle(v1, v2, v3))
                    common_angles.add(Angle(v2, v3, v1))
                    common_angles.add(Angle(v3, v1, v2))

        return common_angles

    def n_distances(self):
        # no distances in a balloon
""", """    def common_angles_balloon(self, balloon):
        # list of duplicate angles
        shared = list(set(self.vars) & set(balloon.vars))

        # empty set of common angles
        common_angles = set()

        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i+1, len(shared)):
                # loop over third variable
                for k in range(j+1, len(shared)):
                    # get variables
                    v1 = shared[i]
                    v2 = shared[j]
                    v3 = shared[k]

                    # add combinations of angles to set (duplicates will be
                    # avoided due to hash values for each angle)
                    common_angles.add(Angle(v1, v2, v3))
                    common_angles.add(Angle(v2, v3, v1))
                    common_angles.add(Angle(v3, v2, v1))

        return common_angles

    def n_distances(self):
        # no distances in a balloon
""")],
         needs='two balloons that share three points', breaks='the angle at '
         'one of the points of a shared triple is missing', demo=CI + """
a = Balloon([1, 2, 3, 4]).common_angles(Balloon([1, 2, 3, 5]))
assert {x.points[1] for x in a} == {1, 2, 3} and len(a) == 3, a
"""),
    dict(id='c-hedgehog-angle-pairs', property='C19', edits=[('geometric/cluster.py', """        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i):
                # get variables
                v1 = shared[i]
                v2 = shared[j]

                # add angle to overconstrained set
                common_angles.add(Angle(v1, self.c_var, v2))
""", """        # loop over neighbouring variables
        for i in range(1, len(shared)):
            common_angles.add(Angle(shared[i], self.c_var, shared[i-1]))
""")],
         needs='hedgehogs with the same centre that share three or more other '
         'points', breaks='only angles between neighbours are found',
         demo=CI + """
a = Hedgehog(0, [1, 2, 3]).common_angles(Hedgehog(0, [1, 2, 3]))
assert len(a) == 3, a
assert len(Hedgehog(0, [1, 2]).common_angles(Hedgehog(0, [1, 2, 3]))) == 1
"""),
    dict(id='r-hash-order', property='C21', edits=[('geometric/relation.py',
         "        return hash(frozenset(self.points))",
         "        return hash(tuple(self.points))")],
         needs='the same distance found with its points in both orders',
         breaks='equal relations have different hashes, so that sets hold '
         'them twice', demo="""
from solver.geometric.relation import Distance, Angle
assert len({Distance(1, 2), Distance(2, 1)}) == 1
assert len({Angle(1, 2, 3), Angle(3, 2, 1)}) == 1
assert len({Angle(1, 2, 3), Angle(1, 3, 2)}) == 2
"""),
    dict(id='c-balloon-duplicates', property='C18', edits=[('geometric/cluster.py', """        # call parent
        super(Balloon, self).__init__(*args, **kwargs)

        # check there are enough variables for a balloon
        if len(self.vars) < 3:
""", """        # call parent
        super(Balloon, self).__init__(*args, **kwargs)

        # check there are enough variables for a balloon
        if len(list(args[0] if args else kwargs["vars"])) < 3:
""")],
         needs='a balloon created from three variables two of which are the '
         'same', breaks='a balloon of two points is created', demo=CI + """
try:
    Balloon([1, 2, 2])
except ValueError:
    pass
else:
    raise SystemExit('accepted')
assert Balloon([1, 2, 3, 3]).vars == {1, 2, 3}
assert Balloon(vars=[1, 2, 3]).vars == {1, 2, 3}
"""),
    dict(id='y-flat-base', property='C26', edits=[('geometry.py', """    v = p3 - p2;
    perp_u = Vector(-u.y, u.x)

    # check that a > 0""", """    v = p3 - p2 if p3.x >= p2.x else p2 - p3
    perp_u = Vector(-u.y, u.x)

    # check that a > 0""")],
         needs='a left turn that goes back to the left', breaks='triangles '
         'whose last point lies to the left are not counter-clockwise',
         demo=YI + """
a, b, c = Vector(0, 0), Vector(1, 0), Vector(0, 1)
assert is_counterclockwise(a, b, c) and is_counterclockwise(b, c, a)
assert not is_clockwise(a, b, c) and not is_counterclockwise(c, b, a)
"""),
    dict(id='y-angle-clip', property='C27', edits=[('geometry.py', """    elif t < -1.0:
        t = -1.0
""", """    elif t < -1.0:
        t = 1.0
""")],
         needs='a straight angle whose cosine is rounded below minus one',
         breaks='a straight angle counts as zero', demo=YI + """
import math, random
rnd = random.Random(1)
for i in range(20000):
    d = Vector(rnd.uniform(-1, 1), rnd.uniform(-1, 1))
    if d.length < 0.1:
        continue
    p = Vector(0, 0)
    a = angle_3p(d, p, d * -rnd.uniform(0.5, 3))
    assert abs(abs(a) - math.pi) < 1e-6, (d, a)
"""),
    dict(id='y-tolerance-side', property='C28', edits=[('geometry.py', """        return a < b or cls.tol_eq(a, b, *args, **kwargs)
""", """        return a < b or cls.tol_eq(b, a, *args, **kwargs)
""")],
         needs='large relative tolerances and numbers in between those of the '
         'two sides', breaks='the relative tolerance is taken from the wrong '
         'number', demo=YI + """
assert Scalar.tol_eq(2.0, 1.0, rel_tol=0.6, abs_tol=0) is False
assert Scalar.tol_le(2.0, 1.0, rel_tol=0.6, abs_tol=0) is False
assert Scalar.tol_le(1.5, 1.0, rel_tol=0.6, abs_tol=0) is True
"""),
    dict(id='y-circle-tangent-inside', property='C29', edits=[('geometry.py', """    u = ((r1*r1 - r2*r2) / d + d) / 2
""", """    u = (abs(r1*r1 - r2*r2) / d + d) / 2
""")],
         needs='two circles the first of which is the smaller one',
         breaks='points that are not on the circles are returned',
         demo=YI + """
for p in cc_int(Vector(0, 0), 2, Vector(3, 0), 2.5):
    assert abs((p - Vector(0, 0)).length - 2) < 1e-6
    assert abs((p - Vector(3, 0)).length - 2.5) < 1e-6
assert len(cc_int(Vector(0, 0), 2, Vector(3, 0), 2.5)) == 2
"""),
    dict(id='y-circle-ray-touch', property='C29', edits=[('geometry.py', """        # check if a is >= 0 within tolerance
        if Scalar.tol_ge((s - p2).dot(v), 0):
            solutions.append(s)
""", """        # check if a is >= 0 within tolerance
        if Scalar.tol_ge((s - p2).dot(v), 0) or (v.x < 0 and not solutions):
            solutions.append(s)
""")],
         needs='a ray to the left that starts inside of a circle, whose '
         'line meets the circle behind its start', breaks='an intersection '
         'behind the start of the ray is returned', demo=YI + """
for v in (Vector(0, 1), Vector(0, -1), Vector(1, 0), Vector(-1, 0)):
    s = cr_int(Vector(0, 0), 2, Vector(0, 0), v)
    assert len(s) == 1 and (s[0] - v * 2).length < 1e-6, (v, s)
"""),
    dict(id='y-concentric', property='C30', edits=[('geometry.py', """    # check if d <= 0 within tolerance
    if Scalar.tol_le(d, 0):
""", """    # check if d <= 0 within tolerance
    if Scalar.tol_zero(d) and not Scalar.tol_eq(r1, r2):
""")],
         needs='two circles that coincide', breaks='intersecting a circle '
         'with itself divides by zero', demo=YI + """
assert cc_int(Vector(1, 1), 2, Vector(1, 1), 2) == []
assert cc_int(Vector(1, 1), 2, Vector(1, 1), 3) == []
"""),
    dict(id='y-frame-far', property='C31', edits=[('geometry.py', """    if not scale:
        # normalise resultant
        u /= u.length
""", """    if not scale or u.length < 1:
        # normalise resultant
        u /= u.length
""")],
         needs='a scaled frame of two points that are close to each other',
         breaks='scaled frames of short distances are not scaled', demo=YI + """
m = make_hcs_scaled(Vector(0, 0), Vector(0.5, 0))
assert m.elements[0][0] == 0.5, m.elements
m = make_hcs_scaled(Vector(0, 0), Vector(0, 3))
assert m.elements[1][0] == 3, m.elements
"""),
    dict(id='y-rotate-inplace', property='C32', edits=[('geometry.py', """        # validate azimuth
        azimuth = float(azimuth)
""", """        # validate azimuth
        azimuth = min(float(azimuth), 360.0)
""")],
         needs='rotations by more than a whole turn', breaks='rotations by '
         'angles beyond 360 degrees do not turn at all', demo=YI + """
v = Vector(1, 0).rotate(450)
assert abs(v.x) < 1e-6 and abs(v.y - 1) < 1e-6, v
"""),
    dict(id='y-solve-transposed', property='C33', edits=[('geometry.py', """        # solve
        x = la.solve(A, B)
""", """        # solve
        x = la.solve(A, B.T if B.shape[0] == B.shape[1] else B)
""")],
         needs='a square right hand side that is not symmetric',
         breaks='equations with square right hand sides are solved for the '
         'transposed one', demo=YI + """
X = Matrix([[2.0, 0.0], [0.0, 1.0]]).solve(Matrix([[1.0, 2.0], [3.0, 4.0]]))
assert X.elements == [[0.5, 1.0], [3.0, 4.0]], X
"""),
    dict(id='k-rem-dangling', property='C14', edits=[(K, """        for constraint in self.get_constraints_on(var_name):
            self.rem_constraint(constraint)
""", """        for constraint in self.get_constraints_on(var_name):
            del(self._constraints[constraint])
""")],
         needs='removing a variable whose constraints are on other variables '
         'too, then asking for the constraints on those',
         breaks='constraints that went with a variable are still listed on '
         'the other ones', demo=KI + """
g = ConstraintGraph()
c = PlusConstraint('a', 'b', 'c')
g.add_constraint(c)
g.rem_variable('a')
assert list(g.constraints()) == []
assert g.get_constraints_on('b') == [], g.get_constraints_on('b')
"""),
    dict(id='k-add-again', property='C14', edits=[(K, """        # only add if it doesn't already exist
        if var_name in self._variables:
            return

        # create entry in variables dict
        self._variables[var_name] = None

        # create a vertex in the graph for the variable
        self._graph.add_vertex(var_name)
""", """        # only add if it doesn't already exist
        if self._graph.has_vertex(var_name):
            return

        # create a vertex in the graph for the variable
        self._graph.add_vertex(var_name)

        # create entry in variables dict
        self._variables.setdefault(var_name)
"""), (K, """            # add the variable to the graph
            self.add_variable(var)

            # create edge in the graph for the variable
            self._graph.add_edge(var, constraint)
""", """            # create edge in the graph for the variable
            self._graph.add_edge(var, constraint)

            # add the variable to the graph
            self.add_variable(var)
""")],
         needs='a constraint on a variable that was not added before',
         breaks='variables that are introduced by a constraint are not '
         'registered', demo=KI + """
g = ConstraintGraph()
g.add_constraint(PlusConstraint('a', 'b', 'c'))
assert set(g.variables()) == set('abc'), list(g.variables())
"""),
    dict(id='k-any-parity', property='C15', edits=[(K, """            constraints.update(set(self.get_constraints_on(variable)))
""", """            constraints ^= set(self.get_constraints_on(variable))
""")],
         needs='asking for the constraints on any of an even number of '
         'variables of one constraint',
         breaks='a constraint on two of the variables is not listed',
         demo=KI + """
g = ConstraintGraph()
c = PlusConstraint('a', 'b', 'c')
g.add_constraint(c)
assert g.get_constraints_on_any(['a', 'b']) == [c]
"""),
    dict(id='k-mapping-order', property='C16', edits=[(K, """        return self.function(*[mapping[variable] for variable in \\
""", """        return self.function(*[mapping[variable] for variable in mapping \\
        if variable in \\
""")],
         needs='a mapping that lists the variables in another order, or a '
         'constraint in which a variable occurs twice',
         breaks='the function gets its arguments in the order of the mapping',
         demo=KI + """
c = FunctionConstraint(lambda x, y: x < y, ['a', 'b'])
assert c.satisfied({'a': 1, 'b': 2})
assert c.satisfied({'b': 2, 'a': 1})
"""),
    dict(id='f-alias', property='C23', edits=[(CF, """        self.mapping = dict(mapping)
""", """        self.mapping = mapping if isinstance(mapping, dict) \\
        else dict(mapping)
""")],
         needs='changing the mapping that a configuration was created from',
         breaks='the points of the configuration change with it', demo=FI + """
d = {'a': Vector(0, 0)}
c = Configuration(d)
d['a'] = Vector(1, 1)
d['b'] = Vector(1, 1)
assert list(c.vars()) == ['a'] and c.get('a').x == 0
"""),
    dict(id='f-length', property='C22', edits=[(CF, """        elif len(self.mapping) != len(other.mapping):
            # equal configurations would have the same number of variables
            return False
        else:
            # equal configurations would share the same variable names
            for var in self.mapping:
                if var not in other.mapping:
                    return False
""", """        else:
            # equal configurations would share the same variable names
            for var in self.mapping:
                if var not in other.mapping:
                    return False
""")],
         needs='variables with colliding sums of hashes, such as 0',
         breaks='a configuration equals one with additional variables',
         demo=FI + """
a = Configuration({1: Vector(0, 0)})
b = Configuration({0: Vector(1, 0), 1: Vector(0, 0)})
assert not a == b and not b == a
"""),
    dict(id='f-nearby', property='C22', edits=[(CF, """                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
""", """                if not Scalar.tol_zero(d * self.get(var).length):
""")],
         needs='points close to the origin',
         breaks='configurations whose first ones differ at the origin are '
         'equal', demo=FI + """
a = Configuration({0: Vector(1, 0), 1: Vector(2, 0), 2: Vector(0, 0)})
b = Configuration({0: Vector(1, 0), 1: Vector(2, 0), 2: Vector(1, 1)})
assert not a == b and not b == a
"""),
    dict(id='f-overlap-flag', property='C24', edits=[(CF, """            if Scalar.tol_zero((p22 - p21).length):
                # coordinates overlap, so the merge is underconstrained
                underconstrained = True

""", """            if Scalar.tol_zero((p22 - p21).length):
""")],
         needs='merging configurations whose shared points coincide in the '
         'second one only', breaks='such a merge is not flagged', demo=FI + """
a = Configuration({'a': Vector(0, 0), 'b': Vector(1, 0)})
b = Configuration({'a': Vector(0, 0), 'b': Vector(0, 0), 'c': Vector(1, 1)})
assert a.merge(b)[1] is True
"""),
    dict(id='f-set-order', property='C25', edits=[(CF, """            p21 = other.mapping[v1]
            p22 = other.mapping[v2]
""", """            w1, w2 = list(set(other.vars()) & set(self.vars()))[:2]
            p21 = other.mapping[w1]
            p22 = other.mapping[w2]
""")],
         needs='variables whose hashes collide, so that sets of them are '
         'visited in the order they were filled',
         breaks='the second configuration is fitted to the wrong points',
         demo=FI + """
for x, y in ((0, 8), (8, 0)):
    a = Configuration({0: Vector(0, 0), 8: Vector(8, 0), 'd': Vector(1, 1)})
    b = Configuration({x: Vector(x, 0), y: Vector(y, 0), 'c': Vector(0, 5)})
    m, u = a.merge(b)
    assert abs(m.get('c').x) < 1e-6 and abs(m.get('c').y - 5) < 1e-6, m
"""),
    dict(id='f-one-shared', property='C25', edits=[(CF, """            # the only shared variable's coordinates in each case
            cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
""", """            # the only shared variable's coordinates in each case
            cs1 = make_hcs(p11, p11 + Vector(p11.length + 1.0, 0.0), True)
""")],
         needs='two configurations that share one point away from the origin',
         breaks='the second configuration is scaled', demo=FI + """
a = Configuration({'a': Vector(0, 2), 'b': Vector(1, 0)})
b = Configuration({'a': Vector(0, 0), 'c': Vector(0, 1)})
m, u = a.merge(b)
assert abs((m.get('c') - m.get('a')).length - 1) < 1e-6, m
"""),
    dict(id='l-balloon-pair', property='C34', edits=[(CLF, """    def common_angles_balloon(self, balloon):
        # call balloon's common angles method with reversed arguments
        return balloon.common_angles_hedgehog(self)
""", """    def common_angles_balloon(self, balloon):
        # call balloon's common angles method with reversed arguments
        return balloon.common_angles_hedgehog_balloon(self)
""")],
         needs='the common angles of a hedgehog with a balloon, in this order',
         breaks='an AttributeError instead of the angles', demo=CI + """
h = Hedgehog('a', ['b', 'c'])
assert len(h.common_angles(Balloon(['a', 'b', 'c']))) == 1
"""),
    dict(id='l-error-path', property='C34', edits=[(CLF, """        raise TypeError("Intersection of unknown cluster types")
""", """        raise TypeError("Intersection of {0} with {1}: unknown cluster \\
types".format(self.pretty_name, other.prety_name))
""")],
         needs='the intersection with a kind of cluster which is not known',
         breaks='the refusal ends in an AttributeError', demo=CI + """
class Other:
    pretty_name = 'Other'
    vars = {'a', 'b', 'c'}
try:
    Rigid(['a', 'b', 'c']).intersection(Other())
except TypeError:
    pass
"""),
    dict(id='l-optional-kind', property='C35', edits=[(CLF, """    @abc.abstractmethod
    def common_angles_hedgehog(self, hedgehog):
        pass
""", """    def common_angles_hedgehog(self, hedgehog):
        pass
""")],
         needs='a kind of cluster of a user without common angles with '
         'hedgehogs', breaks='it can be created, and its common angles are '
         'None', demo=CI + """
from solver.geometric.cluster import Cluster
names = [n for n in dir(Rigid) if n.startswith(('intersect_', 'common_',
                                                'n_'))]
body = {n: (lambda self, *a: set()) for n in names
        if n not in ('common_angles_hedgehog', 'common_angles',
                     'common_constraints', 'n_constraints')}
Half = type('Half', (Cluster,), body)
try:
    Half(['a', 'b'])
except TypeError:
    pass
else:
    raise AssertionError('an incomplete cluster exists')
"""),
    dict(id='p-falsy-name', property='C36', edits=[(M, """        if self.name is None:
""", """        if not self.name:
""")],
         needs='a multi-valued variable whose name is falsy, such as 0',
         breaks='the text of the variable does not mention its name', demo=MI + """
from solver.method import MultiVariable
assert '0' in str(MultiVariable(0)).split('(')[-1], str(MultiVariable(0))
assert str(MultiVariable('a')) == 'MultiVariable(a)'
assert str(MultiVariable(0)).count('(') == 1
"""),
    dict(id='p-sorted-variables', property='C36', edits=[(M, """for element in self._map.keys()])
""", """for element in sorted(self._map)])
""")],
         needs='a method graph whose variables cannot be compared with each '
         'other, such as 1 and a name',
         breaks='the method graph cannot be printed', demo=MI + """
g = MethodGraph()
g.add_variable('a')
g.add_variable(1)
assert 'a' in str(g) and '1' in str(g)
"""),
    dict(id='s-shared-inputs', property='C37', edits=[(M, """        self.inputs = list(inputs)
""", """        self.inputs = inputs if isinstance(inputs, list) else list(inputs)
""")],
         needs='a list of inputs that is modified after a method was created '
         'from it', breaks='the method changes with the list', demo=MI + """
class Mine(Method):
    def execute(self, inmap):
        return {}
xs = ['a', 'b']
m = Mine('m', xs, ['c'])
xs.append('d')
assert list(m.inputs) == ['a', 'b'], m.inputs
"""),
    dict(id='g-path-revisit', property='C06', edits=[(G, """                elif v not in trails:
""", """                elif v not in consider and v != start:
""")],
         needs='a cycle that does not contain the start, and no path to the '
         'end', breaks='the search goes round in circles and never ends',
         demo=GI + """
import signal
signal.alarm(20)
g = Graph()
for x, y in ('sa', 'ab', 'bc', 'ca'):
    g.add_edge(x, y)
g.add_vertex('end')
assert g.path('s', 'end') == []
"""),
    dict(id='g-path-cycle-prefix', property='C06', edits=[(G, """                if v == end:
                    # found the end, so return the path we have taken
                    return this_path + [v]
""", """                if v == end:
                    # found the end, so return the path we have taken
                    return this_path + [v] if len(this_path) > 1 or \
                    not self.has_edge(v, key) else [key, v]
                elif end == start and self.has_edge(v, end):
                    return [start, v, end]
""")],
         needs='a cycle of at least four vertices',
         breaks='the cycle found leaves out vertices, and its edges do not '
         'exist', demo=GI + """
g = Graph()
for x, y in ('ab', 'bc', 'cd', 'da'):
    g.add_edge(x, y)
p = g.path('a', 'a')
assert p[0] == p[-1] == 'a', p
assert all(g.has_edge(x, y) for x, y in zip(p, p[1:])), p
"""),
    dict(id='g-connected-chain', property='C07', edits=[(G, """                front += vertex_edge_func(x)
""", """                near = vertex_edge_func(x)
                if len(near) > 1 or x == vertex:
                    front += near
""")],
         needs='edges followed in one direction only, along a chain',
         breaks='vertices behind one with a single continuation are missing',
         demo=GI + """
g = Graph()
for x, y in ('ab', 'bc', 'cd'):
    g.add_edge(x, y)
assert set(g.connected('a', ingoing=False)) == set('bcd')
"""),
    dict(id='g-subsets-shared', property='C07', edits=[(G, """        while len(to_check) > 0:
            # get next vertex
            vertex = to_check.pop()
""", """        while len(to_check) > 1:
            # get next vertex
            vertex = to_check.pop()
""")],
         needs='a graph with an isolated vertex, if it is the last one looked '
         'at', breaks='the last isolated vertex is in no subset', demo=GI + """
g = Graph()
g.add_edge(1, 2)
for v in (3, 4):
    g.add_vertex(v)
assert {frozenset(x) for x in g.connected_subsets()} == {
    frozenset({1, 2}), frozenset({3}), frozenset({4})}
"""),
]
