"""The properties: statements, anchors, techniques."""

AI = 'abstract interpretation (relational dataflow over the syntax tree)'
NOTE = ('Every rule is decided for all inputs in the abstraction of the '
        'analysed functions (see DESIGN.md for the trusted base: semantics of '
        'Python containers in the analysis, lawful hashable keys); rules the '
        'abstraction cannot decide are reported as undecided in the evidence '
        'and raise no alarm.')
G = ['solver/graph.py']
M = ['solver/method.py']
CL_ = ['solver/geometric/cluster.py', 'solver/geometric/relation.py']
REL_ = ['solver/geometric/relation.py']
GE = ['solver/geometry.py']
ALG = ('abstract interpretation over an algebraic domain (normal forms of '
       'rational functions with roots and trigonometric symbols; sign '
       'conditions decided by linear arithmetic over monomials)')
NUMNOTE = (NOTE + ' Real arithmetic stands for floating point arithmetic; '
           'alarms are raised only for deviations far above rounding and '
           'tolerances.')
CG_ = ['solver/geometric/constraint.py']
CF = ['solver/geometric/configuration.py', 'solver/geometry.py']
CFNOTE = (NUMNOTE + ' Merging and comparing are decided for '
          'configurations of up to three points each, with arbitrary '
          'coordinates and in every order in which the shared variables may '
          'be visited; creating, copying, extending and selecting for any '
          'number of points.')
ALLF = ['solver/graph.py', 'solver/method.py', 'solver/geometry.py',
        'solver/geometric/cluster.py', 'solver/geometric/configuration.py',
        'solver/geometric/constraint.py', 'solver/geometric/relation.py']
LINT = ('A certain failure is reported, a possible one is not: what is '
        'guarded by a handler, reached through dynamic attributes or comes '
        'from libraries outside of the standard one raises no alarm.')
MG_ = ['solver/method.py', 'solver/graph.py']

FIN = ('abstract interpretation with Boolean functions of the edges as guards '
       '(all graphs of a bounded size at once, joined at every merge point)')
FINNOTE = ('Decided for every graph of up to four vertices, edges from a '
           'vertex to itself included (thorough: most rules also for five '
           'vertices without such edges), all 65536 edge relations at once; '
           'the analysed code treats vertices through equality only, so their '
           'identity does not matter.  Larger graphs are covered as far as '
           'the small ones are typical of them.')

PROPS = [
    dict(id='C01', title='Incoming and outgoing views of a graph never disagree',
         statement='After every sequence of graph operations, an edge is listed '
         'among the outgoing edges of its start exactly when it is listed among '
         'the incoming edges of its end, with the same value, and every vertex '
         'that an edge mentions is a vertex of the graph. Reversing, querying '
         'from either side and membership tests therefore always describe one '
         'and the same graph.',
         over=['histories', 'inputs'],
         forall='all operation sequences on a graph, hence all graphs and all '
         'vertices, edges and values, self-loops included',
         tests='The tests run a handful of operations on one small graph; a '
         'view that goes stale needs a particular overwrite or removal '
         'sequence.',
         files=G, mechanism=[
             ('two adjacency maps updated together',
              'solver/graph.py Graph.set, rem_edge, remove_vertex, add_edge, '
              'add_bi_edge, add_vertex'),
             ('queries of both directions', 'solver/graph.py Graph.'
              'ingoing_vertices, outgoing_vertices, reverse')],
         technique=AI + ': one inductive step per mutator from an arbitrary '
         'consistent graph', note=NOTE),
    dict(id='C02', title='Adding vertices and edges changes exactly what was asked for',
         statement='Adding a vertex, an edge, an edge in both directions or a '
         'whole graph, and setting an edge value, leaves the graph with exactly '
         'the requested vertices and edges in addition to what it had. All '
         'other vertices, edges and values stay as they were, and existing '
         'edges are overwritten only by operations that set a value.',
         over=['histories', 'inputs'],
         forall='all graphs and all arguments, including vertices and edges '
         'that exist already and self-loops',
         tests='The tests add a few new edges to one graph; they never check '
         'that everything else is untouched.',
         files=G, mechanism=[
             ('mutators', 'solver/graph.py Graph.add_vertex, add_edge, '
              'add_bi_edge, set, add_graph')],
         technique=AI + ': exact frame conditions of each mutator', note=NOTE),
    dict(id='C03', title='Removing vertices and edges is exact, or refused without effect',
         statement='Removing a vertex removes it and all edges that touch it, '
         'removing an edge removes that edge, and nothing else changes. '
         'Removing something that is not there is refused and leaves the '
         'graph as it was.',
         over=['histories', 'inputs'],
         forall='all graphs and all vertices and edges, self-loops included',
         tests='The tests do not remove vertices that have edges in both '
         'directions, nor absent ones.',
         files=G, mechanism=[
             ('removal', 'solver/graph.py Graph.remove_vertex, rem_edge, '
              'remove_bi_edge')],
         technique=AI + ': exact post-state of each removal, including its '
         'exceptional ends', note=NOTE),
    dict(id='C04', title='Derived graphs are exact and independent of their source',
         statement='A copy, a subgraph, a reversed graph and a graph constructed '
         'from another one contain exactly the vertices, edges and values that '
         'they should, including isolated vertices. Their source is not '
         'changed, and later changes of either graph do not show in the other.',
         over=['inputs', 'histories'],
         forall='all graphs and all vertex collections',
         tests='No test derives a graph with isolated vertices or edge values, '
         'or changes a graph after deriving another one from it.',
         files=G, mechanism=[
             ('derived graphs', 'solver/graph.py Graph.copy, subgraph, '
              'reverse, __init__')],
         technique=AI + ' with alias analysis of the result', note=NOTE),
    dict(id='C05', title='Graph queries are exact, oriented and return snapshots',
         statement='Vertices, edges, neighbours in either direction, membership '
         'tests and edge values report exactly the contents of the graph, and '
         'edges are always given as (start, end). Queries change nothing, and '
         'what they return does not change with the graph or give access to '
         'its internals.',
         over=['inputs', 'histories'],
         forall='all graphs and all query arguments',
         tests='The tests query a graph of a few vertices and never modify it '
         'while holding a result.',
         files=G, mechanism=[
             ('queries', 'solver/graph.py Graph.vertices, edges, has_vertex, '
              'has_edge, has_bi_edge, get, outgoing_vertices, '
              'ingoing_vertices, adjacent_vertices, outgoing_edges, '
              'ingoing_edges, adjacent_edges')],
         technique=AI + ' with escape analysis of the result', note=NOTE),
    dict(id='C06', title='A path is found exactly if there is one, and it is a real path',
         statement='path(start, end) returns a list of vertices that begins with '
         'start, ends with end and follows an outgoing edge of the graph from '
         'each vertex to the next; if start and end are the same the list is a '
         'cycle of at least one edge. If no such path exists it returns an '
         'empty list, and it always comes to an end, whatever cycles the graph '
         'has.',
         over=['inputs'],
         forall='all graphs and all pairs of vertices of a graph',
         tests='The tests ask for a handful of paths in two small graphs.',
         files=G, mechanism=[('search', 'solver/graph.py Graph.path')],
         technique=FIN, note=FINNOTE),
    dict(id='C07', title='Connected vertices and connected subsets are exact',
         statement='connected(vertex) returns each vertex that can be reached '
         'over any number of edges, followed in the selected directions only, '
         'exactly once, and never the vertex itself; the two one-directional '
         'forms follow only outgoing or only ingoing edges. connected_subsets '
         'returns the set of the connected components of the graph, isolated '
         'vertices included. All of them come to an end, whatever cycles the '
         'graph has.',
         over=['inputs'],
         forall='all graphs and all start vertices',
         tests='The tests query one graph of a few vertices.',
         files=G, mechanism=[
             ('search', 'solver/graph.py Graph.connected'),
             ('directions', 'solver/graph.py Graph.connected_via_outgoing, '
              'connected_via_ingoing'),
             ('components', 'solver/graph.py Graph.connected_subsets')],
         technique=FIN, note=FINNOTE),
    dict(id='C08', title='A method is validated before it runs; a refused one leaves no trace',
         statement='A method that would determine a variable that another method '
         'determines, or that would close a cycle, is refused with an error '
         'before it or any other method is executed. After a refusal the '
         'methods, values, pending changes and dependencies of the method graph '
         'are as before, except that variables the method mentioned may be '
         'declared, without a value; an accepted method is connected with '
         'exactly its variables.',
         over=['histories', 'inputs'],
         forall='all method graphs reachable by operations and all new methods',
         tests='The tests refuse one method in one graph and look at nothing '
         'but the exception.',
         files=MG_, mechanism=[
             ('validation', 'solver/method.py MethodGraph.add_method'),
             ('rollback', 'solver/method.py MethodGraph.rem_method')],
         technique=AI + ': typestate and post-state of every exit of the '
         'operation', note=NOTE),
    dict(id='C09', title='Propagation brings every dependent variable up to date',
         statement='While propagation runs, a changed variable stays pending '
         'until every method that depends on it has been executed, every '
         'variable that a method changes becomes pending in turn, and '
         'propagation ends only when nothing is pending. Afterwards every '
         'method whose inputs changed has been executed with their current '
         'values.',
         over=['histories', 'inputs', 'schedules'],
         forall='all method graphs, all sets of pending changes and every order '
         'in which they are picked',
         tests='The tests propagate through two or three chained methods; a '
         'dropped notification needs several methods on one variable or a '
         'particular order of picks.',
         files=MG_, mechanism=[
             ('worklist of changed variables',
              'solver/method.py MethodGraph.propagate, execute, _do_execute')],
         technique=AI + ': inductive invariant of the worklist loop', note=NOTE),
    dict(id='C10', title='Methods run exactly when all inputs are set; outputs follow',
         statement='Executing a method runs it exactly when none of its inputs '
         'is None, hands it the current values of its inputs and outputs, '
         'stores exactly what it provides for its outputs and unsets outputs it '
         'does not provide or that can no longer be computed. Setting, adding '
         'and executing mark exactly the variables that changed as pending, '
         'and propagate them unless this is switched off.',
         over=['inputs', 'histories'],
         forall='all method graphs, methods, values (falsy values and values '
         'with a peculiar equality included) and results of methods',
         tests='The tests use numbers only and unset no input again.',
         files=M, mechanism=[
             ('execution', 'solver/method.py MethodGraph._do_execute, execute'),
             ('entry points', 'solver/method.py MethodGraph.set, add_variable, '
              'add_method')],
         technique=AI + ': post-states against an uninterpreted method', note=NOTE),
    dict(id='C11', title='Removing methods and variables keeps a method graph consistent',
         statement='Removing a method takes it and its edges out, and removing '
         'a variable takes out the variable, its pending change and exactly '
         'the methods that use or determine it; everything else is untouched. '
         'Registered methods, values and dependencies always describe the same '
         'graph, and clearing leaves no variable and no pending change.',
         over=['histories', 'inputs'],
         forall='all method graphs and all methods and variables',
         tests='The tests remove next to nothing and only look at what the '
         'removed thing was.',
         files=MG_, mechanism=[
             ('removal', 'solver/method.py MethodGraph.rem_method, '
              'rem_variable, clear'),
             ('listing', 'solver/method.py MethodGraph.variables, methods, '
              'get')],
         technique=AI + ': inductive invariant between the registries and the '
         'graph', note=NOTE),
    dict(id='C12', title='The built-in methods compute their output from their inputs',
         statement='The addition and subtraction methods provide the sum and '
         'the difference of their inputs exactly when both are there, the '
         'assignment method provides the value of its input, and the set '
         'method its constant, whatever the values are. They declare the right '
         'inputs and outputs, provide nothing else, and leave the mapping they '
         'are given alone.',
         over=['inputs'],
         forall='all variables (equal ones included) and all input mappings and '
         'values',
         tests='The tests compute one sum and one difference.',
         files=M, mechanism=[
             ('methods', 'solver/method.py AddMethod, SubMethod, SetMethod, '
              'AssignMethod')],
         technique=AI + ' of each execute on a symbolic mapping', note=NOTE),
    dict(id='C13', title='Multi-valued methods cover every combination of input values',
         statement='A multi-valued method is executed once for every '
         'combination of values of its multi-valued inputs together with the '
         'single-valued inputs, and its output holds exactly all the results. '
         'It has exactly one output, a multi-valued one; anything else is '
         'refused, and executing it changes neither the method nor the '
         'mapping it is given.',
         over=['inputs'],
         forall='all value sets, empty ones included, for every arrangement of '
         'up to three single- or multi-valued inputs',
         tests='The tests use one or two multi-valued inputs with two values '
         'each.',
         files=M, mechanism=[
             ('combination', 'solver/method.py MultiMethod.execute, '
              '_recurse_execute, __init__'),
             ('example', 'solver/method.py SumProdMethod.multi_execute')],
         technique=AI + ' of the recursion over the inputs', note=NOTE +
         ' Bound: up to three inputs.'),
    dict(id='C14', title='Constraint graphs register and connect exactly what is added',
         statement='Adding a constraint registers it together with all of its '
         'variables, and the constraints listed on a variable are always '
         'exactly the registered ones it occurs in. Removing a constraint '
         'removes nothing else, and removing a variable removes it with exactly '
         'the constraints on it. Adding something twice or removing something '
         'unknown changes nothing.',
         over=['histories', 'inputs'],
         forall='all constraint graphs reachable by operations, all variables '
         'and constraints',
         tests='The tests build one graph of three constraints and never '
         'remove anything.',
         files=CG_, mechanism=[
             ('registry and incidence', 'solver/geometric/constraint.py '
              'ConstraintGraph.add_variable, add_constraint, rem_variable, '
              'rem_constraint'),
             ('structure', 'solver/graph.py Graph')],
         technique=AI + '; graph operations by their contract (C01 to C05)',
         note=NOTE),
    dict(id='C15', title='Constraint queries are exact, free of duplicates and copies',
         statement='The constraints on a variable, those shared by all of '
         'several variables and those on any of several variables are exactly '
         'the registered constraints that contain it, all of them, or at least '
         'one of them, each listed once. Unknown variables and an empty '
         'selection have no constraints. Asking changes neither the graph nor '
         'the selection, and what is returned is independent of the graph.',
         over=['inputs', 'histories'],
         forall='all constraint graphs and all selections of variables, '
         'repeated ones included',
         tests='The tests ask for the constraints of one graph with three '
         'constraints, mostly by membership.',
         files=CG_, mechanism=[
             ('queries', 'solver/geometric/constraint.py '
              'ConstraintGraph.get_constraints_on, get_constraints_on_all, '
              'get_constraints_on_any')],
         technique=AI + ' with escape analysis of the result', note=NOTE),
    dict(id='C16', title='Constraints evaluate their own variables, in order',
         statement='A constraint lists the variables it was created with, in '
         'order, in a list of its own, whatever happens to the lists handed '
         'in or out. A function constraint is satisfied exactly if its '
         'function, called once with the values of its variables in that '
         'order, says so, and a plus constraint exactly if the third value is '
         'the sum of the others. The selection constraints not clockwise, not '
         'counter-clockwise, not obtuse and not acute are satisfied exactly '
         'if the named predicate does not hold for their three points, in '
         'order, and checking changes no mapping.',
         over=['inputs'],
         forall='all variables, mappings, points and functions that return '
         'True or False',
         tests='The tests evaluate each constraint for a few triples of '
         'points.',
         files=CG_, mechanism=[
             ('evaluation', 'solver/geometric/constraint.py '
              'FunctionConstraint.satisfied, PlusConstraint.satisfied'),
             ('predicates', 'solver/geometric/constraint.py '
              'NotClockwiseConstraint, NotCounterClockwiseConstraint, '
              'NotObtuseConstraint, NotAcuteConstraint')],
         technique=AI + '; algebraic normal forms for the predicates',
         note=NUMNOTE),
    dict(id='C17', title='The intersection of two clusters is the cluster both determine',
         statement='Intersecting two clusters gives nothing unless they share '
         'enough points; otherwise it gives a new cluster of exactly the points '
         'that both determine and of the right kind: two rigids sharing at '
         'least two points give a rigid of the shared points; a rigid or '
         'balloon with a balloon gives a balloon of at least three shared '
         'points; a hedgehog with a rigid or balloon that contains its centre '
         'gives a hedgehog with that centre and at least two shared other '
         'points; two hedgehogs with the same centre give a hedgehog of that '
         'centre and at least two shared other points. The result does not '
         'depend on which of the two is asked, intersecting never fails, and '
         'neither operand changes.',
         over=['inputs'],
         forall='all pairs of clusters of every kind over arbitrary variables, '
         'sharing any number of points',
         tests='The tests intersect a dozen pairs of clusters over a handful '
         'of numbered points.',
         files=CL_, mechanism=[
             ('dispatch', 'solver/geometric/cluster.py Cluster.intersection'),
             ('cases', 'solver/geometric/cluster.py Rigid, Hedgehog, Balloon '
              'intersect_rigid, intersect_hedgehog, intersect_balloon')],
         technique=AI + ': each of the nine pairs against the specified table',
         note=NOTE),
    dict(id='C18', title='Clusters hold exactly their variables and are refused without enough of them',
         statement='A cluster consists of exactly the distinct variables it '
         'is created from, however often these are given, and lists each of '
         'them once (a hedgehog its centre first, which is not one of its '
         'other variables). A balloon with less than three distinct variables '
         'and a hedgehog with less than two distinct variables other than its '
         'centre are refused with ValueError, everything else is accepted. A '
         'new cluster is not overconstrained and is independent of the '
         'collection it was created from.',
         over=['inputs'],
         forall='all collections of variables, duplicates and the centre '
         'among them included',
         tests='The tests create clusters of different numbers of distinct '
         'variables.',
         files=CL_, mechanism=[
             ('constructors', 'solver/geometric/cluster.py Cluster, Rigid, '
              'Hedgehog, Balloon __init__'),
             ('listing', 'solver/geometric/cluster.py var_list')],
         technique=AI + ' of the constructors', note=NOTE),
    dict(id='C19', title='Common constraints are exactly the distances and angles both clusters determine',
         statement='The common distances of two clusters are exactly the '
         'distances between two different points shared by two rigids, and '
         'none otherwise. Their common angles are exactly the angles at any '
         'three different points that both clusters determine: all three '
         'angles of every shared triple of rigids and balloons, and only the '
         'angles at the centre between two other points when a hedgehog is '
         'involved. The common constraints are all of these together, nothing '
         'else, whichever of the two clusters is asked, and neither cluster '
         'changes.',
         over=['inputs'],
         forall='all pairs of clusters of every kind with any number of shared '
         'points',
         tests='The tests count the common constraints of a few pairs of '
         'clusters.',
         files=CL_, mechanism=[
             ('union', 'solver/geometric/cluster.py Cluster.common_constraints, '
              'common_angles'),
             ('cases', 'solver/geometric/cluster.py Rigid, Hedgehog, Balloon '
              'common_distances, common_angles_*')],
         technique=AI + ': index loops over shared points as quantified '
         'updates ordered by position', note=NOTE),
    dict(id='C20', title='Clusters count every constraint they impose exactly once',
         statement='The numbers of distances and angles of a cluster with n '
         'points are the numbers of those that it determines: n(n-1)/2 '
         'distances and n(n-1)(n-2)/2 angles of a rigid, the same angles and '
         'no distances of a balloon, and k(k-1)/2 angles and no distances of '
         'a hedgehog with k points around its centre. The number of '
         'constraints is their sum, and counting changes nothing.',
         over=['inputs'], forall='all clusters of any size',
         tests='The tests count clusters of up to ten points at most.',
         files=CL_, mechanism=[
             ('counts', 'solver/geometric/cluster.py n_constraints, '
              'n_distances, n_angles')],
         technique=AI + ' with polynomial normal forms over the number of '
         'variables', note=NOTE),
    dict(id='C21', title='Relations are equal exactly if they relate the same points',
         statement='Two distances are equal exactly if they relate the same '
         'two points, in either order. Two angles between three points are '
         'equal exactly if they have the same apex and the same two arms, in '
         'either order. Relations of different kinds, and other objects, are '
         'never equal, while equal relations have equal hashes, so that sets of '
         'relations hold each just once, and a relation keeps its points in '
         'the order they were given in.',
         over=['inputs'], forall='all points, equal ones included',
         tests='The tests look at a few distances and angles between numbers.',
         files=REL_, mechanism=[
             ('equality', 'solver/geometric/relation.py Distance.__eq__, '
              'Angle.__eq__'),
             ('hash', 'solver/geometric/relation.py PointRelation.__hash__')],
         technique=AI + '; congruence of hashes', note=NOTE),
    dict(id='C22', title='Configurations are equal exactly up to rotation and translation',
         statement='Two configurations with the same variables are equal if a '
         'rotation and a translation map one onto the other, in whatever order '
         'their points were given and even if some of their points coincide. '
         'They are not equal if distances between points or their orientation '
         'differ (mirror images), if their variables differ, or if the other '
         'object is no configuration. Equal configurations have equal hashes, '
         'and comparing never fails and changes nothing.',
         over=['inputs', 'schedules'],
         forall='all coordinates, rotations and translations of '
         'configurations of up to three points, all orders of their variables',
         tests='The tests compare a few configurations with integral '
         'coordinates.',
         files=CF, mechanism=[
             ('equality', 'solver/geometric/configuration.py '
              'Configuration.__eq__, transformation_matrix'),
             ('hash', 'solver/geometric/configuration.py '
              'Configuration.makehash, __hash__')],
         technique=ALG, note=CFNOTE),
    dict(id='C23', title='Configurations are immutable; derived ones have the right points',
         statement='A configuration has exactly the points it is created from, '
         'whatever happens to that mapping later, and no operation changes an '
         'existing configuration. A copy has the same points and flag, '
         'extending keeps all own points and takes the missing ones of the '
         'other, selecting takes exactly the selected points and refuses '
         'unknown ones. Transforming applies the matrix to every point in '
         'homogeneous coordinates.',
         over=['inputs', 'histories'],
         forall='all configurations of any size, all selections; for '
         'transforming all 3x3 matrices',
         tests='The tests derive a few configurations and do not look at the '
         'original ones afterwards.',
         files=CF, mechanism=[
             ('derivation', 'solver/geometric/configuration.py '
              'Configuration.__init__, copy, add, select, transform')],
         technique=AI + ' with alias analysis; algebraic normal forms for '
         'coordinates', note=CFNOTE),
    dict(id='C24', title='Merging flags exactly the merges that are not unique',
         statement='A merge is flagged as underconstrained if the two '
         'configurations share no variable, if they share one and both have '
         'more than that, if all shared points coincide in one of them, or if '
         'one of the two was underconstrained itself. A merge that the shared '
         'points determine is not flagged. The merged configuration carries the '
         'flag that is returned.',
         over=['inputs', 'schedules'],
         forall='all coordinates and flags of configurations of up to three '
         'points, every order in which the shared variables may be visited',
         tests='No test looks at the flag of a merge with coinciding points or '
         'of underconstrained operands.',
         files=CF, mechanism=[
             ('flag', 'solver/geometric/configuration.py '
              'Configuration.transformation_matrix, merge')],
         technique=ALG, note=CFNOTE),
    dict(id='C25', title='Merging moves the other configuration rigidly into place',
         statement='The merged configuration has the variables of both; the '
         'points of the first one stay where they are. The points taken from '
         'the second one are moved by one rotation and translation, never '
         'scaled or mirrored, such that a shared point and the direction to '
         'another one fit wherever the shared points determine that. Merging '
         'never fails and changes neither of the two.',
         over=['inputs', 'schedules'],
         forall='all coordinates of configurations of up to three points, '
         'every order in which the shared variables may be visited',
         tests='The tests merge a few configurations with integral '
         'coordinates and right angles.',
         files=CF, mechanism=[
             ('placement', 'solver/geometric/configuration.py '
              'Configuration.merge, transformation_matrix'),
             ('frames', 'solver/geometry.py make_hcs, cs_transform_matrix')],
         technique=ALG, note=CFNOTE),
    dict(id='C26', title='Every point triple is clockwise, counter-clockwise or flat',
         statement='Three points are counter-clockwise if the turn at the '
         'second one (the cross product of the two legs) is positive, '
         'clockwise if it is negative, and flat if it is zero, within the '
         'absolute tolerance, so that exactly one of the three always holds. '
         'Cyclic exchanges of the points keep the orientation, swapping two '
         'points reverses it, and asking changes no point.',
         over=['inputs'], forall='all triples of points, coinciding and '
         'collinear ones included',
         tests='The tests look at a few triangles, none of them near the '
         'tolerance.',
         files=GE, mechanism=[
             ('orientation', 'solver/geometry.py is_clockwise, '
              'is_counterclockwise, is_flat'),
             ('tolerance', 'solver/geometry.py Scalar.tol_lt, tol_gt, '
              'tol_zero')],
         technique=ALG, note=NUMNOTE),
    dict(id='C27', title='Angles between three points are right for every triangle',
         statement='The angle at the second of three points is undefined '
         'exactly if that point coincides with another one within the '
         'tolerance; otherwise it is the angle between the directions to the '
         'other two points, positive unless the points are counter-clockwise, '
         'and rounding never takes it out of the domain of the arc cosine. '
         'Points are acute if there is an angle that is smaller than a right '
         'angle and obtuse if it is larger, right angles being neither.',
         over=['inputs'], forall='all triples of points, degenerate and '
         'collinear ones included',
         tests='The tests compute a few angles of well-shaped triangles.',
         files=GE, mechanism=[
             ('angle', 'solver/geometry.py angle_3p'),
             ('predicates', 'solver/geometry.py is_acute, is_obtuse')],
         technique=ALG, note=NUMNOTE),
    dict(id='C28', title='Comparisons use exactly the tolerances they are given',
         statement='Two numbers are equal within the tolerance exactly if '
         'they differ by no more than the absolute tolerance plus the '
         'relative one times the size of the second number, and the strict '
         'and lax order comparisons exclude and include these. Tolerances '
         'that are passed, zero included, replace the defaults, one '
         'independently of the other, and are honoured by every comparison. '
         'Vectors are equal within the tolerance if both coordinates are, '
         'and the sign of a number is 1 or -1.',
         over=['inputs'], forall='all numbers and all tolerances',
         tests='The tests compare a few numbers with default tolerances.',
         files=GE, mechanism=[
             ('comparisons', 'solver/geometry.py Scalar.tol_eq, tol_zero, '
              'tol_gt, tol_lt, tol_ge, tol_le, sign'),
             ('vectors', 'solver/geometry.py Vector.tol_eq')],
         technique=ALG, note=NUMNOTE),
    dict(id='C29', title='Intersections return exactly the common points of two curves',
         statement='Every point that an intersection of circles, lines and '
         'rays returns lies on both curves, and the points are different '
         'from each other. Crossing circles and lines have two common points, '
         'touching ones one, curves that are apart and parallel lines none, '
         'within the tolerances. The intersections with a ray are '
         'those with its line that do not lie behind its start, none of them '
         'left out.',
         over=['inputs'], forall='all circles, lines and rays in any position '
         'to each other: vertical, horizontal, touching, concentric, parallel',
         tests='The tests intersect a few curves; most branches for special '
         'positions are never reached.',
         files=GE, mechanism=[
             ('circles', 'solver/geometry.py cc_int'),
             ('circle and line', 'solver/geometry.py cl_int, cr_int'),
             ('lines', 'solver/geometry.py ll_int, lr_int, rr_int')],
         technique=ALG, note=NUMNOTE),
    dict(id='C30', title='Geometry never fails on degenerate input and changes no argument',
         statement='Intersections, angles, orientations, distances and frames '
         'can be computed for any points, radii and directions, coinciding '
         'and zero ones included: there is no division by zero and no root '
         'of a negative number. They change none of the vectors that they '
         'are given, and the points that intersections return are new '
         'vectors.',
         over=['inputs'], forall='all points, directions and radii, also one '
         'and the same vector passed twice',
         tests='The tests pass well-conditioned input.',
         files=GE, mechanism=[
             ('guards', 'solver/geometry.py cc_int, cl_int, ll_int, angle_3p, '
              'make_hcs')],
         technique=ALG, note=NUMNOTE),
    dict(id='C31', title='Coordinate frames and transformations between them are exact',
         statement='The frame of two points has its origin in the first, its '
         'first axis towards the second and its second axis to the left of '
         'it, with axes of unit length, or the length of the distance if '
         'scaled, and there is none exactly if the points coincide within '
         'the tolerance. The transformation from one frame to another takes '
         'the first to the second, and keeps lengths, angles and orientation '
         'if both are unscaled. The distance of two points is the Euclidean '
         'one.',
         over=['inputs'], forall='all points and all invertible frames',
         tests='The tests never build frames or transformations directly.',
         files=GE, mechanism=[
             ('frames', 'solver/geometry.py make_hcs, make_hcs_scaled'),
             ('transformation', 'solver/geometry.py cs_transform_matrix'),
             ('distance', 'solver/geometry.py distance_2p')],
         technique=ALG, note=NUMNOTE),
    dict(id='C32', title='Vectors calculate coordinate by coordinate and never share state',
         statement='Arithmetic, negation, dot product, length, azimuth and '
         'rotation of vectors give the mathematical result as a new vector or '
         'number and leave the operands as they were, also between vectors '
         'and numbers, and comparisons and sign checks hold exactly if they '
         'hold for both coordinates. A vector made from another vector or a '
         'column matrix is independent of it, and other matrices are '
         'refused. The two coordinates can be read, set, indexed and sliced '
         'individually.',
         over=['inputs', 'histories'], forall='all coordinates, numbers and '
         'angles',
         tests='The tests try operations on a few vectors.',
         files=GE, mechanism=[
             ('construction', 'solver/geometry.py Vector.__init__'),
             ('arithmetic', 'solver/geometry.py Vector.__add__, __sub__, '
              '__mul__, __truediv__, __neg__, dot, rotate, length, azimuth'),
             ('comparison', 'solver/geometry.py Vector.__eq__, __lt__, '
              '__gt__, __le__, __ge__, is_positive, is_negative')],
         technique=ALG, note=NUMNOTE),
    dict(id='C33', title='Matrix algebra is exact and refuses shapes that do not fit',
         statement='Products, transposes, identities, inverses and solutions '
         'of linear equations have the entries that linear algebra '
         'prescribes, for square and rectangular matrices alike, and leave '
         'their operands as they were. Products of matrices whose shapes do '
         'not fit and inverses of matrices that are not square are refused. '
         'The numbers of rows, columns, elements and dimensions are those of '
         'the entries, and rounding rounds every entry to the precision that '
         'is asked for.',
         over=['inputs'], forall='all entries, for every shape of up to three '
         'rows and columns',
         tests='The tests do not use matrices other than vectors.',
         files=GE, mechanism=[
             ('products', 'solver/geometry.py Matrix.__mul__, transpose, '
              'identity'),
             ('equations', 'solver/geometry.py Matrix.solve, inverse'),
             ('shape', 'solver/geometry.py Matrix.num_rows, num_cols, '
              'num_elements, num_dim, round')],
         technique=ALG, note=NUMNOTE),
    dict(id='C34', title='No branch of the package refers to something that does not exist',
         statement='Whatever branch an operation takes, the names, attributes, '
         'methods and imports it uses exist, calls within the package have the '
         'arguments their target takes, objects are only created of classes '
         'that can be instantiated, methods are called rather than used like '
         'the values they return, attributes are set by a constructor before '
         'public operations read them, and format strings fit their '
         'arguments. No operation on any object, error paths and rarely used '
         'kinds of arguments included, therefore ends in a NameError, '
         'UnboundLocalError, AttributeError, ImportError or TypeError of its '
         'own making instead of its result or its documented exception.',
         over=['inputs', 'histories'],
         forall='all branches of all functions of the package',
         tests='The tests enter less than half of the branches; Python looks '
         'a name up only when a branch is taken.',
         files=ALLF, mechanism=[
             ('names and locals', 'solver/*.py, solver/geometric/*.py every '
              'function'),
             ('attributes of self, super and classes', 'solver/geometric/'
              'cluster.py Rigid, Hedgehog, Balloon; solver/method.py '
              'MethodGraph; solver/geometric/configuration.py Configuration'),
             ('calls and error paths', 'solver/geometric/cluster.py '
              'Cluster.intersection, common_angles; solver/geometry.py')],
         technique='whole-package name, attribute, call and format string '
         'resolution over the syntax tree and symbol tables (custom lint '
         'with class hierarchy, constructor closure and a may-assign '
         'dataflow for locals)', note=LINT),
    dict(id='C35', title='Interfaces are complete: no half-implemented object can exist',
         statement='Methods without execute, multi-valued methods without '
         'multi_execute, constraints without satisfied or a text, relations '
         'without equality and clusters without any of their intersections, '
         'common constraints and counts cannot be instantiated, by the '
         'package or by its users. Every concrete method, constraint, '
         'relation and cluster of the package implements its whole interface '
         'and is of the documented kind. Objects of all classes that serve as '
         'keys or set members are hashable.',
         over=['inputs'],
         forall='all classes of the package and all classes derived from '
         'them',
         tests='The tests only use complete classes; what is missing shows '
         'when a user derives a class or a rare pair of kinds meets.',
         files=ALLF, mechanism=[
             ('abstract classes', 'solver/method.py Method, MultiMethod; '
              'solver/geometric/constraint.py Constraint, '
              'SelectionConstraint; solver/geometric/relation.py '
              'PointRelation; solver/geometric/cluster.py Cluster'),
             ('hash values', 'solver/geometric/relation.py Distance, Angle; '
              'solver/geometric/configuration.py Configuration')],
         technique='custom lint over the class hierarchy (method resolution '
         'order, abstract members, hash removal by equality)', note=LINT),
    dict(id='C36', title='Every object can be printed, whatever its variables are',
         statement='Graphs, method graphs, constraint graphs, methods, '
         'multi-valued variables, constraints, clusters, relations, '
         'configurations, vectors and matrices can be turned into text for '
         'all hashable variables and values, strings or not, and for all '
         'callables that need not have a name. The text mentions every vertex '
         'with the values of its edges, every variable, method, constraint, '
         'coordinate or element the object is made of. Printing a graph or a '
         'vector leaves it as it was.',
         over=['inputs'],
         forall='all graphs, method graphs and constraint graphs of any size '
         'and all other objects with any variables',
         tests='The tests print nothing; with string variables, some mistakes '
         'do not show at all.',
         files=ALLF, mechanism=[
             ('text of graphs', 'solver/graph.py Graph.__str__; '
              'solver/method.py MethodGraph.__str__; solver/geometric/'
              'constraint.py ConstraintGraph.__str__'),
             ('text of what they contain', 'solver/method.py Method.__str__, '
              'SetMethod.__str__, AssignMethod.__str__; solver/geometric/'
              'constraint.py FunctionConstraint.__str__; solver/geometric/'
              'cluster.py Cluster.__str__; solver/geometric/relation.py '
              'PointRelation.__str__'),
             ('coordinates', 'solver/geometry.py Vector.__str__, '
              'Matrix.__repr__')],
         technique=AI + ': texts as terms over the values they are built '
         'from; strings and other values are told apart where they are '
         'joined', note=NOTE),
    dict(id='C37', title='Objects share no state they do not have to share',
         statement='Two objects created one after the other have no container '
         'in common, neither through default values nor through containers '
         'of their class, so what is done to one never shows in the other. '
         'Methods, selection constraints, relations, clusters and '
         'configurations copy the containers they are created from, so '
         'modifying those afterwards does not change the objects.',
         over=['histories', 'inputs'],
         forall='all pairs of objects of every class and all constructor '
         'arguments',
         tests='The tests rarely create two objects of a class and never '
         'modify an argument afterwards.',
         files=ALLF, mechanism=[
             ('constructors', 'solver/method.py Method.__init__, '
              'MethodGraph.__init__; solver/graph.py Graph.__init__; '
              'solver/geometric/cluster.py Cluster.__init__, '
              'Hedgehog.__init__; solver/geometric/constraint.py '
              'SelectionConstraint.__init__, ConstraintGraph.__init__; '
              'solver/geometric/relation.py PointRelation.__init__')],
         technique='alias analysis of constructors (abstract heap '
         'reachability) and a custom lint on default values and class level '
         'containers', note=NOTE),
]

NOT_APPLICABLE = [
]

# what is decided a second time over bounded histories or small inputs,
# independently of how the classes store things
HIST = {
    **dict.fromkeys(('C01', 'C02', 'C03', 'C04', 'C05'),
                    ' A second set of rules decides all histories of a few '
                    'operations and queries on graphs of two vertices, in '
                    'the finite domain, whatever the representation.'),
    **dict.fromkeys(('C06', 'C07'),
                    ' Further rules decide chains, stars, ladders, long '
                    'cycles and wide graphs of up to 40 vertices (thorough: '
                    '60), and that answers are right after each change of a '
                    'graph of three vertices of which everything has been '
                    'asked before, or after changes of earlier results.'),
    **dict.fromkeys(('C08', 'C09', 'C10', 'C11'),
                    ' A second set of rules decides scripts of six optional '
                    'steps over four variables, followed by the operation '
                    'itself, against a reference model, in the finite '
                    'domain, whatever the representation.'),
    **dict.fromkeys(('C14', 'C15'),
                    ' A second set of rules decides scripts of optional '
                    'steps over a few variables against a reference model, '
                    'in the finite domain, whatever the representation.'),
    **dict.fromkeys(('C17', 'C18', 'C19', 'C20'),
                    ' A second set of rules decides every pair of clusters '
                    'over four points (thorough: five) in the finite '
                    'domain, whatever the representation.'),
}
for _p in PROPS:
    if _p['id'] in HIST:
        _p['note'] = _p['note'] + HIST[_p['id']]
        if not _p['technique'].startswith('abstract interpretation with B'):
            _p['technique'] += ('; finite Boolean-function domain over small '
                                'histories or inputs')
