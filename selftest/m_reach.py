GR = 'graph.py'
_S = open('/repo/solver/graph.py').read()


def _body(name):
    """Source of a method after its docstring."""
    i = _S.index('    def %s(' % name)
    j = _S.index('\n    def ', i + 1)
    f = _S[i:j]
    k = f.index('"""', f.index('"""') + 3) + 4
    return f[k:]


_P, _C, _T = _body('path'), _body('connected'), _body('connected_subsets')
_O = _body('connected_via_outgoing')


def whole(old, new):
    return [(GR, old, new)]


def sub(old, a, b):
    assert old.count(a) == 1, (old.count(a), a)
    return [(GR, old, old.replace(a, b))]


P, C = ['C06'], ['C07']
EDITS = [
    # ---------------------------------------------------------------- paths
    ('r_path_ingoing', P, True, sub(_P, 'self.outgoing_vertices(key)', 'self.ingoing_vertices(key)')),
    ('r_path_adjacent', P, True, sub(_P, 'self.outgoing_vertices(key)', 'self.adjacent_vertices(key)')),
    ('r_path_noend', P, True, sub(_P, 'return this_path + [v]', 'return this_path')),
    ('r_path_stop_early', P, True, sub(_P, 'key = consider.pop()', 'key = consider.pop(0)\n            if len(trails) > 2:\n                break')),
    ('r_path_none', P, True, sub(_P, 'return []', 'return None')),
    ('r_path_trivial', P, True, sub(_P, '        trails[start] = [start]\n', '        trails[start] = [start]\n\n        if start == end:\n            return [start]\n')),
    ('r_path_wrong_prefix', P, True, sub(_P, "                    trails[v] = this_path + [v]\n\n                    # add", "                    trails[v] = trails[start] + [v]\n\n                    # add")),
    ('r_path_shared', P, True, sub(_P, "                    trails[v] = this_path + [v]\n\n                    # add", "                    this_path.append(v)\n                    trails[v] = this_path\n\n                    # add")),
    ('r_path_no_push', P, True, sub(_P, "                    consider.append(v)\n", "                    if len(this_path) < 2:\n                        consider.append(v)\n")),
    ('r_path_return_loop', P, True, sub(_P, "                    trails[v] = this_path + [v]\n\n        # no path", "                    trails[v] = this_path + [v]\n\n            if len(consider) > 1:\n                return []\n\n        # no path")),
    ('r_path_nocheck', P, True, sub(_P, 'elif v not in trails:', 'elif v != start:')),
    ('r_path_last_only', P, True, sub(_P, "            for v in self.outgoing_vertices(key):", "            for v in self.outgoing_vertices(key)[-1:]:")),
    ('r_path_shorter', P, None, sub(_P, "len(this_path) + 1 < len(trails[v]):\n                    # this trail is shorter than a previous one, so overwrite\n                    trails[v] = this_path + [v]", "len(this_path) + 1 < len(trails[v]):\n                    # this trail is shorter than a previous one, so overwrite\n                    trails[v] = this_path")),
    ('r_path_depth', P, True, sub(_P, "elif v not in trails:", "elif v not in trails and len(this_path) < 20:")),
    ('r_path_budget', P, True, sub(_P, "            key = consider.pop()", "            if len(trails) > 24:\n                break\n\n            key = consider.pop()")),
    ('r_con_depth', C, True, sub(_C, "            x = front.pop()", "            x = front.pop()\n\n            if len(connected) > 30:\n                break")),
    ('r_con_front', C, True, sub(_C, "front += vertex_edge_func(x)", "front += vertex_edge_func(x)[:16]")),
    ('r_sub_limit', C, True, sub(_T, "while len(to_check) > 0:", "while len(to_check) > 0 and len(subsets) < 5:")),
    # keeps
    ('okr_path_queue', P, False, sub(_P, 'consider.pop()', 'consider.pop(0)')),
    ('okr_path_noshort', P, False, sub(_P, "                elif len(this_path) + 1 < len(trails[v]):\n                    # this trail is shorter than a previous one, so overwrite\n                    trails[v] = this_path + [v]\n", "")),
    ('okr_path_deque', P, False, [(GR, 'class Graph(object):', 'import collections\n\n\nclass Graph(object):')] + sub(_P, 'consider = [start]', 'consider = collections.deque([start])')),
    ('okr_path_preds', P, False, whole(_P, '''        parents = {}
        front = [start]
        seen = {start}

        while front:
            x = front.pop(0)

            for v in self.outgoing_vertices(x):
                if v == end:
                    trail = [end, x]
                    while x != start:
                        x = parents[x]
                        trail.append(x)
                    trail.reverse()
                    return trail
                if v in seen:
                    continue
                seen.add(v)
                parents[v] = x
                front.append(v)

        return []
''')),
    ('okr_path_rec', P, False, whole(_P, '''        def search(key, trail, visited):
            for v in self.outgoing_vertices(key):
                if v == end:
                    return trail + [v]
                if v in visited:
                    continue
                visited.add(v)
                found = search(v, trail + [v], visited)
                if found:
                    return found
            return []

        return search(start, [start], {start})
''')),
    ('okr_path_pairs', P, False, whole(_P, '''        stack = [(start, [start])]
        visited = {start}

        while stack:
            key, trail = stack.pop()

            for v in self.outgoing_vertices(key):
                if v == end:
                    return trail + [v]

                if v not in visited:
                    visited.add(v)
                    stack.append((v, trail + [v]))

        return []
''')),
    ('okr_path_helper', P, False, sub(_P, '''            for v in self.outgoing_vertices(key):
                if v == end:
                    # found the end, so return the path we have taken
                    return this_path + [v]
                elif v''', '''            for v in self.outgoing_vertices(key):
                extended = this_path + [v]
                if v == end:
                    # found the end, so return the path we have taken
                    return extended
                elif v''')),
    ('okr_path_found', P, False, sub(_P, 'while len(consider) > 0:', 'while consider:')),
    ('okr_path_flag', P, False, whole(_P, '''        trails = {start: [start]}
        consider = [start]
        found = None

        while found is None and len(consider) > 0:
            key = consider.pop()

            if end in self.outgoing_vertices(key):
                found = trails[key] + [end]
                continue

            for v in self.outgoing_vertices(key):
                if v not in trails:
                    trails[v] = trails[key] + [v]
                    consider.append(v)

        return found if found is not None else []
''')),
    ('okr_path_tuple', P, None, whole(_P, '''        trails = {start: (start,)}
        consider = [start]

        while consider:
            key = consider.pop()

            for v in self.outgoing_vertices(key):
                if v == end:
                    return list(trails[key] + (v,))
                if v not in trails:
                    trails[v] = trails[key] + (v,)
                    consider.append(v)

        return []
''')),
    ('okr_path_for', P, False, whole(_P, '''        trails = {start: [start]}
        order = [start]

        for key in order:
            for v in self.outgoing_vertices(key):
                if v == end:
                    return trails[key] + [v]
                if v not in trails:
                    trails[v] = trails[key] + [v]
                    order.append(v)

        return []
''')),
    # ------------------------------------------------------------ connected
    ('r_con_self', C, True, sub(_C, "        del connected[vertex]\n", "        if len(connected) == 1:\n            del connected[vertex]\n")),
    ('r_con_one', C, True, sub(_C, 'front += vertex_edge_func(x)', 'front += vertex_edge_func(vertex)')),
    ('r_con_dirs', C, True, sub(_C, "elif ingoing:\n            vertex_edge_func = self.ingoing_vertices", "elif ingoing:\n            vertex_edge_func = self.adjacent_vertices")),
    ('r_con_adj_once', C, True, sub(_C, 'front += vertex_edge_func(x)', 'front = vertex_edge_func(x)')),
    ('r_con_slice', C, True, sub(_C, 'front += vertex_edge_func(x)', 'front += vertex_edge_func(x)[:2]')),
    ('r_con_break', C, True, sub(_C, "                front += vertex_edge_func(x)\n", "                front += vertex_edge_func(x)\n            else:\n                break\n")),
    ('r_con_endless', C, True, sub(_C, "            if x not in connected:\n                # add vertex\n                connected[x] = 1\n\n                # add connected vertices to search list\n                front += vertex_edge_func(x)", "            connected[x] = 1\n            front += [y for y in vertex_edge_func(x) if y != vertex]")),
    ('r_con_swap', C, True, sub(_O, 'ingoing=False, outgoing=True', 'ingoing=True, outgoing=False')),
    ('r_con_default', C, True, [(GR, 'def connected(self, vertex, ingoing=True, outgoing=True)', 'def connected(self, vertex, ingoing=False, outgoing=True)')]),
    ('r_sub_keep', C, True, sub(_T, "connected = set(self.connected(vertex))", "connected = set(self.connected_via_outgoing(vertex))")),
    ('r_sub_missing', C, True, sub(_T, "            connected.add(vertex)\n", "            if connected:\n                connected.add(vertex)\n")),
    ('r_sub_isolated', C, True, sub(_T, "            # add this subset to the set\n            subsets", "            # add this subset to the set\n            if len(connected) > 1:\n                subsets")),
    ('r_sub_checked', C, True, sub(_T, "to_check -= connected", "to_check &= connected")),
    ('r_sub_shared', C, True, sub(_T, "            # remove vertices connected to this one from check list\n            to_check -= connected", "            # only vertices that are left to check\n            connected &= to_check\n\n            if len(connected) < 3:\n                to_check -= connected")),
    # keeps
    ('okr_con_set', C, False, whole(_C, '''        if not ingoing and not outgoing:
            return []

        seen = {vertex}
        front = [vertex]

        while front:
            x = front.pop()
            nxt = set()

            if ingoing:
                nxt.update(self.ingoing_vertices(x))
            if outgoing:
                nxt.update(self.outgoing_vertices(x))

            front.extend(nxt - seen)
            seen |= nxt

        return [v for v in seen if v != vertex]
''')),
    ('okr_con_rec', C, False, whole(_C, '''        seen = []

        def visit(x):
            steps = []
            if ingoing:
                steps += self.ingoing_vertices(x)
            if outgoing:
                steps += self.outgoing_vertices(x)
            for y in steps:
                if y not in seen:
                    seen.append(y)
                    visit(y)

        visit(vertex)

        return [y for y in seen if y != vertex]
''')),
    ('okr_con_layers', C, False, whole(_C, '''        found = set()
        layer = {vertex}

        while layer:
            found |= layer
            following = set()
            for x in layer:
                if outgoing:
                    following.update(self.outgoing_vertices(x))
                if ingoing:
                    following.update(self.ingoing_vertices(x))
            layer = following - found

        found.discard(vertex)
        return list(found)
''')),
    ('okr_con_fix', C, False, whole(_C, '''        found = {vertex}
        changed = ingoing or outgoing

        while changed:
            changed = False
            for x in self.vertices():
                if x in found:
                    continue
                near = []
                if outgoing:
                    near += self.ingoing_vertices(x)
                if ingoing:
                    near += self.outgoing_vertices(x)
                if any(y in found for y in near):
                    found.add(x)
                    changed = True

        found.remove(vertex)
        return list(found)
''')),
    ('okr_con_lambda', C, False, sub(_C, 'vertex_edge_func = self.adjacent_vertices', 'vertex_edge_func = lambda v: self.adjacent_vertices(v)')),
    ('okr_con_pop0', C, False, sub(_C, 'front.pop()', 'front.pop(0)')),
    ('okr_con_continue', C, False, sub(_C, '''            if x not in connected:
                # add vertex
                connected[x] = 1

                # add connected vertices to search list
                front += vertex_edge_func(x)''', '''            if x in connected:
                continue

            connected[x] = 1
            for y in vertex_edge_func(x):
                if y not in connected:
                    front.append(y)''')),
    ('okr_con_true', C, False, sub(_C, '''        while len(front) > 0:
            # get''', '''        while True:
            if not front:
                break

            # get''')),
    ('okr_sub_list', C, False, whole(_T, '''        subsets = set()
        done = set()

        for vertex in self.vertices():
            if vertex in done:
                continue

            subset = frozenset(self.connected(vertex) + [vertex])
            done.update(subset)
            subsets.add(subset)

        return subsets
''')),
    ('okr_sub_comp', C, False, whole(_T, '''        return {frozenset([v] + self.connected(v)) for v in self.vertices()}
''')),
    ('okr_sub_union', C, False, whole(_T, '''        groups = {v: v for v in self.vertices()}

        for a, b in self.edges():
            old, new = groups[a], groups[b]
            for v in groups:
                if groups[v] == old:
                    groups[v] = new

        subsets = {}
        for v, g in groups.items():
            subsets.setdefault(g, set()).add(v)

        return set(frozenset(s) for s in subsets.values())
''')),
]
