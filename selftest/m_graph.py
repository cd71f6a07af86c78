"""Edits of the basic operations of graphs (C01 to C05)."""

import ast

GR = 'graph.py'
SRC = open('/repo/solver/graph.py').read()
_CLS = next(n for n in ast.parse(SRC).body if isinstance(n, ast.ClassDef))
_FN = {n.name: n for n in _CLS.body if isinstance(n, ast.FunctionDef)}


def src(name):
    n = _FN[name]
    return '\n'.join(SRC.split('\n')[n.lineno - 1:n.end_lineno]) + '\n'


def whole(name, body):
    """Another body for a method (its head is kept)."""
    s = src(name)
    head = s.split('\n')[0] + '\n'
    return [(GR, s, head + body)]


def sub(name, a, b):
    s = src(name)
    assert s.count(a) == 1, (name, s.count(a), a)
    return [(GR, s, s.replace(a, b))]


A = ['C01', 'C02', 'C03', 'C04', 'C05']
EDITS = [
    ('bi_keyword', ['C02'], True, sub('add_bi_edge', 'self.add_edge(v2, v1, *args, **kwargs)',
                                      'self.add_edge(v2, v1, *args)')),
    ('via_keyword', ['C07'], True, sub('connected_via_outgoing', 'outgoing=True, *args, **kwargs)',
                                       'outgoing=True, *args)')),
    ('subsets_unhashable', ['C07'], True, sub('connected_subsets', 'subsets.add(frozenset(connected))',
                                              'subsets.add(connected)')),
    ('ok_via_named', ['C07'], False, [
        (GR, src('connected_via_ingoing'), '''    def connected_via_ingoing(self, vertex):
        return self.connected(vertex, True, False)
''')]),
    # ------------------------------------------------------------- breaking
    ('g_addv_reset', ['C02'], True, sub('add_vertex', '            return\n', '            pass\n')),
    ('g_addv_reverse_only_new', ['C01'], True, sub('add_vertex', '        self._reverse[vertex] = {}\n', '        self._reverse.setdefault(vertex, self._forward[vertex])\n')),
    ('g_addv_falsy', ['C02'], True, sub('add_vertex', 'if vertex in self._forward:', 'if not vertex or vertex in self._forward:')),
    ('g_addv_none', ['C02'], True, sub('add_vertex', 'if vertex in self._forward:', 'if vertex is None or vertex in self._forward:')),
    ('g_rmv_no_in', ['C03'], True, sub('remove_vertex', '''        for u in self.ingoing_vertices(vertex):
            self.remove_edge(u, vertex)
''', '')),
    ('g_rmv_no_out', ['C01'], True, sub('remove_vertex', '''        for w in self.outgoing_vertices(vertex):
            self.remove_edge(vertex, w)
''', '')),
    ('g_rmv_self_loop', ['C03'], True, sub('remove_vertex', '''        for u in self.ingoing_vertices(vertex):
            self.remove_edge(u, vertex)

        for w in self.outgoing_vertices(vertex):
            self.remove_edge(vertex, w)
''', '''        ins = self.ingoing_vertices(vertex)
        outs = self.outgoing_vertices(vertex)

        for u in ins:
            self.remove_edge(u, vertex)

        for w in outs:
            self.remove_edge(vertex, w)
''')),
    ('g_rmv_lazy_map', ['C03'], True, sub('remove_vertex', '''        for u in self.ingoing_vertices(vertex):
            self.remove_edge(u, vertex)
''', '''        map(lambda u: self.remove_edge(u, vertex), self.ingoing_vertices(vertex))
''')),
    ('g_rmv_lazy_gen', ['C03'], True, sub('remove_vertex', '''        for u in self.ingoing_vertices(vertex):
            self.remove_edge(u, vertex)
''', '''        (self.remove_edge(u, vertex) for u in self.ingoing_vertices(vertex))
''')),
    ('g_rmv_view', ['C03'], True, sub('remove_vertex', 'in self.outgoing_vertices(vertex):', 'in self._forward[vertex]:')),
    ('g_rmv_pop_only', ['C01'], True, sub('remove_vertex', '''        for w in self.outgoing_vertices(vertex):
            self.remove_edge(vertex, w)
''', '''        for w in self.outgoing_vertices(vertex):
            del self._forward[vertex][w]
''')),
    ('okg_rmv_keeps_reverse', A, False, sub('remove_vertex', '        del self._reverse[vertex]\n', '')),
    ('g_rmv_quiet', ['C03'], True, sub('remove_vertex', '            raise Exception("Vertex not in graph")\n', '            return\n')),
    ('g_rmv_any_in', ['C03'], True, sub('remove_vertex', 'self.remove_edge(u, vertex)', 'if self.get(u, vertex):\n                self.remove_edge(u, vertex)')),
    ('g_adde_overwrite', ['C02'], True, sub('add_edge', '        if v2 not in self._forward[v1]:\n            self', '        if True:\n            self')),
    ('okg_adde_one_value', A, False, sub('add_edge', '            self._reverse[v2][v1] = value', '            self._reverse[v2][v1] = 1')),
    ('g_adde_head_only', ['C02', 'C01'], True, sub('add_edge', '''        if v2 not in self._forward:
            self.add_vertex(v2)
''', '''        elif v2 not in self._forward:
            self.add_vertex(v2)
''')),
    ('g_adde_same', ['C02'], True, sub('add_edge', '        # add edge\n', '        if v1 == v2:\n            return\n\n        # add edge\n')),
    ('g_adde_default', ['C02'], True, [(GR, 'def add_edge(self, v1, v2, value=1):', 'def add_edge(self, v1, v2, value=0):')]),
    ('g_adde_back', ['C01'], True, sub('add_edge', '        if v1 not in self._reverse[v2]:\n            self._reverse[v2][v1] = value', '        if v1 not in self._forward[v2]:\n            self._reverse[v2][v1] = value')),
    ('g_rme_forward_only', ['C01'], True, sub('remove_edge', '        del self._reverse[v2][v1]\n', '')),
    ('g_rme_swapped', ['C01', 'C03'], True, sub('remove_edge', '        del self._reverse[v2][v1]\n', '        del self._reverse[v1][v2]\n')),
    ('g_rme_silent', ['C03'], True, sub('remove_edge', '            raise Exception("Edge not in graph")\n', '            return\n')),
    ('g_rme_lonely', ['C03'], True, sub('remove_edge', '        del self._reverse[v2][v1]\n', '''        del self._reverse[v2][v1]

        if not self._forward[v2] and not self._reverse[v2]:
            del self._forward[v2]
            del self._reverse[v2]
''')),
    ('okg_rme_late', A, False, sub('remove_edge', '''        if not self.has_edge(v1,v2):
            raise Exception("Edge not in graph")

''', '''        if not self.has_any_edge(v1, v2):
            raise Exception("Edge not in graph")

''')),
    ('g_bi_one_value', ['C02'], True, sub('add_bi_edge', 'self.add_edge(v2, v1, *args, **kwargs)', 'self.add_edge(v2, v1)')),
    ('g_bi_once', ['C02'], True, sub('add_bi_edge', 'self.add_edge(v2, v1, *args, **kwargs)', 'self.add_edge(v1, v2, *args, **kwargs)')),
    ('g_rmbi', ['C03'], True, sub('remove_bi_edge', '        self.remove_edge(v2, v1)\n', '        self.remove_edge(v1, v2)\n')),
    ('g_hasbi', ['C05'], True, sub('has_bi_edge', ' and ', ' or ')),
    ('g_hasany', ['C05'], True, sub('has_any_edge', ' or ', ' and ')),
    ('g_set_no_reverse', ['C01'], True, sub('set', '            self._reverse[v2][v1] = value\n', '')),
    ('g_set_only_new', ['C02'], True, sub('set', '''            self._forward[v1][v2] = value
            self._reverse[v2][v1] = value
''', '''            pass
''')),
    ('g_set_falsy', ['C02'], True, sub('set', 'if not self.has_edge(v1, v2):', 'if not self.has_edge(v1, v2) or not self.get(v1, v2):')),
    ('g_setbi', ['C02'], True, sub('set_bi_edge', '        self.set(v2, v1, value)\n', '        self.set(v2, v1, self.get(v1, v1) if self.has_edge(v1, v1) else value)\n')),
    ('g_vertices_out', ['C05'], True, sub('vertices', 'list(self._forward)', '[v for v in self._forward if self._forward[v] or self._reverse[v]]')),
    ('g_vertices_view', ['C05'], True, sub('vertices', 'list(self._forward)', 'self._forward.keys()')),
    ('g_vertices_gen', ['C05'], True, sub('vertices', 'list(self._forward)', 'iter(self._forward)')),
    ('g_edges_noloop', ['C05'], True, sub('edges', '                l.append((i, j))', '                if i != j:\n                    l.append((i, j))')),
    ('g_edges_once', ['C05'], True, sub('edges', '                l.append((i, j))', '                if (j, i) not in l:\n                    l.append((i, j))')),
    ('g_edges_reverse', ['C05'], True, sub('edges', 'self._forward[i]', 'self._reverse[i]')),
    ('g_edges_cached', ['C05'], True, sub('edges', '''        # empty list
        l = []
''', '''        if hasattr(self, '_edges'):
            return self._edges

        l = self._edges = []
''')),
    ('g_out_live', ['C05'], True, sub('outgoing_vertices', 'list(self._forward[vertex])', 'self._forward[vertex]')),
    ('g_out_missing', ['C05'], True, sub('outgoing_vertices', 'list(self._forward[vertex])', 'list(self._forward.setdefault(vertex, {}))')),
    ('g_in_out', ['C05'], True, sub('ingoing_vertices', 'self._reverse', 'self._forward')),
    ('g_adj_twice', ['C05'], True, sub('adjacent_vertices', '''        return list(set(self.ingoing_vertices(vertex))
            | set(self.outgoing_vertices(vertex)))
''', '''        return self.ingoing_vertices(vertex) + self.outgoing_vertices(vertex)
''')),
    ('g_adj_noself', ['C05'], True, sub('adjacent_vertices', '''list(set(self.ingoing_vertices(vertex))
            | set(self.outgoing_vertices(vertex)))''', '''list((set(self.ingoing_vertices(vertex))
            | set(self.outgoing_vertices(vertex))) - {vertex})''')),
    ('g_adj_xor', ['C05'], True, sub('adjacent_vertices', '            | set', '            ^ set')),
    ('g_adje_out', ['C05'], True, sub('adjacent_edges', 'self.ingoing_edges(vertex) + self', 'self.outgoing_edges(vertex) + self')),
    ('g_ine_swapped', ['C05'], True, sub('ingoing_edges', '(v, vertex)', '(vertex, v)')),
    ('g_sub_novalue', ['C04'], True, sub('subgraph', 'g.set(v, w, self.get(v, w))', 'g.add_edge(v, w)')),
    ('g_sub_leak', ['C04'], True, sub('subgraph', 'if w in vertices:', 'if w in vertices or v == w or self.has_edge(w, v):')),
    ('g_sub_isolated', ['C04'], True, sub('subgraph', '            g.add_vertex(v)\n', '')),
    ('g_sub_foreign', ['C04'], True, sub('subgraph', 'in filter(self.has_vertex, vertices)', 'in vertices')),
    ('g_sub_back', ['C04'], True, sub('subgraph', 'g.set(v, w, self.get(v, w))', 'g.set_bi_edge(v, w, self.get(v, w))')),
    ('g_sub_ghost', ['C04'], True, sub('subgraph', '                if w in vertices:\n', '                if w in vertices or len(self._forward[v]) > 3:\n')),
    ('g_copy_self', ['C04'], True, sub('copy', 'return self.subgraph(self.vertices())', 'return self')),
    ('g_copy_share', ['C04'], True, sub('copy', 'return self.subgraph(self.vertices())', '''g = Graph()
        g._forward = dict(self._forward)
        g._reverse = dict(self._reverse)
        return g''')),
    ('g_copy_no_isolated', ['C04'], True, sub('copy', 'return self.subgraph(self.vertices())', '''g = Graph()
        for v, w in self.edges():
            g.add_edge(v, w, self.get(v, w))
        return g''')),
    ('g_rev_bi', ['C04'], True, sub('reverse', 'g.add_edge(v2, v1, self.get(v1, v2))', 'g.add_edge(v2, v1, self.get(v1, v2))\n            g.add_edge(v1, v2, self.get(v1, v2)) if v1 == v2 and False else None\n            g.add_vertex((v1, v2))')),
    ('g_rev_value', ['C04'], True, sub('reverse', 'self.get(v1, v2)', 'self.get(v2, v1) if self.has_edge(v2, v1) else self.get(v1, v2)')),
    ('g_rev_swap_self', ['C04'], True, whole('reverse', '''        g = Graph()
        g._forward, g._reverse = self._reverse, self._forward
        return g
''')),
    ('g_init_share', ['C04'], True, sub('__init__', '''            for v in graph.vertices():
                self.add_vertex(v)

            # set up edges between vertices
            for v, w in graph.edges():
                self.set(v, w, graph.get(v, w))
''', '''            self._forward.update(graph._forward)
            self._reverse.update(graph._reverse)
''')),
    ('g_init_lazy', ['C04'], True, sub('__init__', '''            for v in graph.vertices():
                self.add_vertex(v)
''', '''            map(self.add_vertex, graph.vertices())
''')),
    ('g_init_novalue', ['C04'], True, sub('__init__', 'self.set(v, w, graph.get(v, w))', 'self.add_edge(v, w)')),
    # ----------------------------------------------------------- behaviour kept
    ('okg_setdefault', A, False, sub('add_vertex', '''        if vertex in self._forward:
            # already in dict
            return

        # add vertex to each dict
        self._forward[vertex] = {}
        self._reverse[vertex] = {}
''', '''        self._forward.setdefault(vertex, {})
        self._reverse.setdefault(vertex, {})
''')),
    ('okg_rmv_direct', A, False, sub('remove_vertex', '''        for u in self.ingoing_vertices(vertex):
            self.remove_edge(u, vertex)

        for w in self.outgoing_vertices(vertex):
            self.remove_edge(vertex, w)

        # remove vertex in dicts
        del self._forward[vertex]
        del self._reverse[vertex]
''', '''        for u in self._reverse[vertex]:
            if u != vertex:
                del self._forward[u][vertex]

        for w in self._forward[vertex]:
            if w != vertex:
                del self._reverse[w][vertex]

        self._forward.pop(vertex)
        self._reverse.pop(vertex)
''')),
    ('okg_rmv_all', A, False, sub('remove_vertex', '''        for u in self.ingoing_vertices(vertex):
            self.remove_edge(u, vertex)

        for w in self.outgoing_vertices(vertex):
            self.remove_edge(vertex, w)

''', '''        for targets in self._forward.values():
            targets.pop(vertex, None)

        for sources in self._reverse.values():
            sources.pop(vertex, None)

''')),
    ('okg_rmv_edges', A, False, sub('remove_vertex', '''        for u in self.ingoing_vertices(vertex):
            self.remove_edge(u, vertex)

        for w in self.outgoing_vertices(vertex):
            self.remove_edge(vertex, w)
''', '''        for u, w in self.edges():
            if vertex in (u, w):
                self.remove_edge(u, w)
''')),
    ('okg_rmv_map', A, False, sub('remove_vertex', '''        for u in self.ingoing_vertices(vertex):
            self.remove_edge(u, vertex)
''', '''        list(map(lambda u: self.remove_edge(u, vertex), self.ingoing_vertices(vertex)))
''')),
    ('okg_rmv_while', A, False, sub('remove_vertex', '''        for w in self.outgoing_vertices(vertex):
            self.remove_edge(vertex, w)
''', '''        others = self.outgoing_vertices(vertex)

        while others:
            self.remove_edge(vertex, others.pop())
''')),
    ('okg_adde_set', A, False, sub('add_edge', '''        if v1 not in self._forward:
            self.add_vertex(v1)

        if v2 not in self._forward:
            self.add_vertex(v2)

        # add edge
        if v2 not in self._forward[v1]:
            self._forward[v1][v2] = value

        # and the reverse edge
        if v1 not in self._reverse[v2]:
            self._reverse[v2][v1] = value
''', '''        for v in (v1, v2):
            self.add_vertex(v)

        if self.has_edge(v1, v2):
            return

        self._forward[v1][v2] = self._reverse[v2][v1] = value
''')),
    ('okg_adde_default', A, False, sub('add_edge', '''        if v2 not in self._forward[v1]:
            self._forward[v1][v2] = value

        # and the reverse edge
        if v1 not in self._reverse[v2]:
            self._reverse[v2][v1] = value
''', '''        value = self._forward[v1].setdefault(v2, value)
        self._reverse[v2].setdefault(v1, value)
''')),
    ('okg_bi_loop', A, False, sub('add_bi_edge', '''        self.add_edge(v1, v2, *args, **kwargs)
        self.add_edge(v2, v1, *args, **kwargs)
''', '''        for tail, head in [(v1, v2), (v2, v1)]:
            self.add_edge(tail, head, *args, **kwargs)
''')),
    ('okg_bi_named', A, False, [(GR, src('add_bi_edge'), '''    def add_bi_edge(self, v1, v2, value=1):
        self.add_edge(v1, v2, value=value)
        self.add_edge(v2, v1, value=value)
''')]),
    ('okg_has_get', A, False, sub('has_edge', '''        if v1 not in self._forward:
            return False

        return v2 in self._forward[v1]
''', '''        return v2 in self._forward.get(v1, ())
''')),
    ('okg_has_try', A, False, sub('has_edge', '''        if v1 not in self._forward:
            return False

        return v2 in self._forward[v1]
''', '''        try:
            return v2 in self._forward[v1]
        except KeyError:
            return False
''')),
    ('okg_has_and', A, False, sub('has_edge', '''        if v1 not in self._forward:
            return False

        return v2 in self._forward[v1]
''', '''        return v1 in self._forward and v2 in self._forward[v1]
''')),
    ('okg_has_all', A, False, sub('has_bi_edge', 'return self.has_edge(v1, v2) and self.has_edge(v2, v1)', 'return all(self.has_edge(*e) for e in ((v1, v2), (v2, v1)))')),
    ('okg_set_add', A, False, sub('set', '''        if not self.has_edge(v1, v2):
            # add new edge and set value
            self.add_edge(v1, v2, value)
        else:
            # set edge value
            self._forward[v1][v2] = value
            self._reverse[v2][v1] = value
''', '''        self.add_vertex(v1)
        self.add_vertex(v2)
        self._forward[v1][v2] = value
        self._reverse[v2][v1] = value
''')),
    ('okg_set_again', A, False, sub('set', '''        if not self.has_edge(v1, v2):
            # add new edge and set value
            self.add_edge(v1, v2, value)
        else:
            # set edge value
            self._forward[v1][v2] = value
            self._reverse[v2][v1] = value
''', '''        if self.has_edge(v1, v2):
            self.remove_edge(v1, v2)

        self.add_edge(v1, v2, value)
''')),
    ('okg_vertices', A, False, sub('vertices', 'list(self._forward)', '[v for v in self._reverse.keys()]')),
    ('okg_vertices_star', A, False, sub('vertices', 'list(self._forward)', '[*self._forward]')),
    ('okg_vertices_copy', A, False, sub('vertices', 'list(self._forward)', 'sorted(self._forward, key=id)')),
    ('okg_edges_comp', A, False, sub('edges', '''        # empty list
        l = []

        for i in self._forward:
            for j in self._forward[i]:
                l.append((i, j))

        return l
''', '''        return [(v, w) for v, targets in self._forward.items() for w in targets]
''')),
    ('okg_edges_rev', A, False, sub('edges', '''        for i in self._forward:
            for j in self._forward[i]:
                l.append((i, j))
''', '''        for j, sources in self._reverse.items():
            l += [(i, j) for i in sources]
''')),
    ('okg_edges_extend', A, False, sub('edges', '''            for j in self._forward[i]:
                l.append((i, j))
''', '''            l.extend(self.outgoing_edges(i))
''')),
    ('okg_edges_gen', A, False, sub('edges', '''        # empty list
        l = []

        for i in self._forward:
            for j in self._forward[i]:
                l.append((i, j))

        return l
''', '''        return list(self._walk())

    def _walk(self):
        for i in self._forward:
            for j in self._forward[i]:
                yield i, j
''')),
    ('okg_sub_set', A, False, sub('subgraph', '''        for v in filter(self.has_vertex, vertices):
            # vertex is in the list, so add to new graph
            g.add_vertex(v)

            # copy associated edges
            for w in self._forward[v]:
                if w in vertices:
                    # copy over the edge's value
                    g.set(v, w, self.get(v, w))
''', '''        for v in vertices:
            if self.has_vertex(v):
                g.add_vertex(v)

        for v, w in self.edges():
            if g.has_vertex(v) and g.has_vertex(w):
                g.add_edge(v, w, self.get(v, w))
''')),
    ('okg_sub_items', A, False, sub('subgraph', '''            for w in self._forward[v]:
                if w in vertices:
                    # copy over the edge's value
                    g.set(v, w, self.get(v, w))
''', '''            for w, value in self._forward[v].items():
                if w not in vertices:
                    continue

                g.set(v, w, value)
''')),
    ('okg_sub_wanted', A, False, sub('subgraph', '''        for v in filter(self.has_vertex, vertices):
''', '''        wanted = set(vertices) & set(self._forward)

        for v in wanted:
''')),
    ('okg_copy_init', A, False, sub('copy', 'self.subgraph(self.vertices())', 'Graph(self)')),
    ('okg_copy_dicts', A, False, sub('copy', 'return self.subgraph(self.vertices())', '''g = Graph()
        g._forward = {v: dict(ws) for v, ws in self._forward.items()}
        g._reverse = {v: dict(ws) for v, ws in self._reverse.items()}
        return g''')),
    ('okg_init_none', A, False, sub('__init__', 'if graph:', 'if graph is not None:')),
    ('okg_init_items', A, False, sub('__init__', '''            for v, w in graph.edges():
                self.set(v, w, graph.get(v, w))
''', '''            for edge in graph.edges():
                self.add_edge(*edge, value=graph.get(*edge))
''')),
    ('okg_adj_loop', A, False, sub('adjacent_vertices', '''        return list(set(self.ingoing_vertices(vertex))
            | set(self.outgoing_vertices(vertex)))
''', '''        found = self.outgoing_vertices(vertex)

        for v in self.ingoing_vertices(vertex):
            if v not in found:
                found.append(v)

        return found
''')),
    ('okg_adj_union', A, False, sub('adjacent_vertices', '''        return list(set(self.ingoing_vertices(vertex))
            | set(self.outgoing_vertices(vertex)))
''', '''        return list(set().union(self._forward[vertex], self._reverse[vertex]))
''')),
    ('okg_adj_chain', A, False, [(GR, 'class Graph(object):', 'import itertools\n\n\nclass Graph(object):')] + sub('adjacent_edges', 'self.ingoing_edges(vertex) + self.outgoing_edges(vertex)', 'list(itertools.chain(self.ingoing_edges(vertex), self.outgoing_edges(vertex)))')),
    ('okg_rev_swap', A, False, whole('reverse', '''        g = Graph()
        g._forward = {v: dict(ws) for v, ws in self._reverse.items()}
        g._reverse = {v: dict(ws) for v, ws in self._forward.items()}
        return g
''')),
    ('okg_rev_edges', A, False, sub('reverse', '''        for v1, v2 in self.edges():
            g.add_edge(v2, v1, self.get(v1, v2))
''', '''        for head in self._reverse:
            for tail, value in self._reverse[head].items():
                g.set(head, tail, value)
''')),
    ('okg_in_scan', A, False, sub('ingoing_vertices', 'list(self._reverse[vertex])', '[v for v in self.vertices() if self.has_edge(v, vertex)] if self.has_vertex(vertex) else list(self._reverse[vertex])')),
    ('okg_get_reverse', A, False, sub('get', 'self._forward[v1][v2]', 'self._reverse[v2][v1]')),
    ('okg_names', A, False, [(GR, SRC, SRC.replace('_forward', '_succ').replace('_reverse', '_pred'))]),
    ('okg_set_helper', A, False, sub('set', '''            self._forward[v1][v2] = value
            self._reverse[v2][v1] = value
''', '''            self._store(v1, v2, value)

    def _store(self, tail, head, value):
        for table, x, y in ((self._forward, tail, head), (self._reverse, head, tail)):
            table[x][y] = value
''')),
]
