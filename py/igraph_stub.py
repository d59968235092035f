"""The part of python-igraph that a small undirected weighted graph needs."""
import heapq


class InternalError(Exception):
    pass


class Vertex(object):
    def __init__(self, g, i):
        self.graph, self.index = g, i

    def __getitem__(self, k): return self.graph._va[self.index][k]
    def __setitem__(self, k, v): self.graph._va[self.index][k] = v
    def attributes(self): return dict(self.graph._va[self.index])
    def neighbors(self, *a, **k): return [Vertex(self.graph, i) for i in self.graph.neighbors(self.index)]
    def degree(self, *a, **k): return len(self.graph.neighbors(self.index))
    outdegree = indegree = degree
    def incident(self, *a, **k): return [Edge(self.graph, e) for e in self.graph.incident(self.index)]
    all_edges = in_edges = out_edges = incident


class VertexSeq(object):
    def __init__(self, g): self.g = g
    def __len__(self): return self.g._n
    def __iter__(self): return iter([Vertex(self.g, i) for i in range(self.g._n)])
    def __getitem__(self, k):
        if isinstance(k, str):
            return [v[k] for v in self.g._va]
        if not -self.g._n <= k < self.g._n:
            raise IndexError('vertex index out of range')
        return Vertex(self.g, k % self.g._n)

    def __setitem__(self, k, vals):
        for v, x in zip(self.g._va, vals):
            v[k] = x

    def outdegree(self, *a, **k): return [len(self.g.neighbors(i)) for i in range(self.g._n)]
    indegree = degree = outdegree
    @property
    def indices(self): return list(range(self.g._n))


class Edge(object):
    def __init__(self, g, i): self.graph, self.index = g, i
    def __getitem__(self, k): return self.graph._ea[self.index].get(k) if k in self.graph._keys else self._bad(k)
    def _bad(self, k): raise KeyError('Attribute does not exist')
    def __setitem__(self, k, v):
        self.graph._keys.add(k)
        self.graph._ea[self.index][k] = v
    def attributes(self): return {k: self.graph._ea[self.index].get(k) for k in self.graph._keys}
    @property
    def tuple(self): return self.graph._e[self.index]
    @property
    def source(self): return self.tuple[0]
    @property
    def target(self): return self.tuple[1]


class EdgeSeq(object):
    def __init__(self, g): self.g = g
    def __len__(self): return len(self.g._e)
    def __iter__(self): return iter([Edge(self.g, i) for i in range(len(self.g._e))])
    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.g._keys:
                raise KeyError('Attribute does not exist')
            return [e.get(k) for e in self.g._ea]
        k = int(k)
        if not -len(self.g._e) <= k < len(self.g._e):
            raise IndexError('edge index out of range')
        return Edge(self.g, k % len(self.g._e))

    def __setitem__(self, k, vals):
        self.g._keys.add(k)
        vals = list(vals) if isinstance(vals, (list, tuple)) else [vals] * len(self.g._e)
        for e, x in zip(self.g._ea, vals):
            e[k] = x
    @property
    def indices(self): return list(range(len(self.g._e)))
    def attributes(self): return sorted(self.g._keys)


class Graph(object):
    flip = False     # whether an edge is reported with the larger vertex first

    def __init__(self, n=0, edges=None, directed=False, **k):
        self._n, self._e, self._ea, self._va, self._keys = n, [], [], [dict() for _ in range(n)], set()
        if edges:
            self.add_edges(edges)

    vs = property(lambda self: VertexSeq(self))
    es = property(lambda self: EdgeSeq(self))
    def vcount(self): return self._n
    def ecount(self): return len(self._e)
    def add_vertices(self, n):
        self._n += n
        self._va += [dict() for _ in range(n)]

    def add_edges(self, es):
        for a, b in es:
            if not (0 <= a < self._n and 0 <= b < self._n):
                raise InternalError('cannot add edges: invalid vertex id')
            lo, hi = min(a, b), max(a, b)
            self._e.append((hi, lo) if Graph.flip else (lo, hi))
            self._ea.append({})

    def add_edge(self, a, b, **kw):
        self.add_edges([(a, b)])
        e = Edge(self, len(self._e) - 1)
        for k, v in kw.items():
            e[k] = v
        return e

    def get_eid(self, a, b, directed=True, error=True):
        for i, e in enumerate(self._e):
            if set(e) == {a, b}:
                return i
        if error:
            raise InternalError('no such edge')
        return -1

    def are_connected(self, a, b): return self.get_eid(a, b, error=False) >= 0
    are_adjacent = are_connected
    def neighbors(self, v, *a, **k): return sorted([e[0] + e[1] - v for e in self._e if v in e])
    def incident(self, v, *a, **k): return [i for i, e in enumerate(self._e) if v in e]
    def degree(self, v=None, *a, **k):
        return [len(self.neighbors(i)) for i in range(self._n)] if v is None else len(self.neighbors(v))
    outdegree = indegree = degree

    def get_edgelist(self): return list(self._e)

    def is_connected(self, *a, **k):
        seen, todo = set(), [0] if self._n else []
        while todo:
            v = todo.pop()
            if v not in seen:
                seen.add(v)
                todo += self.neighbors(v)
        return self._n > 0 and len(seen) == self._n

    def clusters(self, *a, **k):
        out, seen = [], set()
        for s in range(self._n):
            if s in seen:
                continue
            comp, todo = set(), [s]
            while todo:
                v = todo.pop()
                if v not in comp:
                    comp.add(v)
                    todo += self.neighbors(v)
            seen |= comp
            out.append(sorted(comp))
        return out
    components = connected_components = clusters

    def adhesion(self, *a, **k):
        """Number of edges to remove to disconnect the graph; 0 for a single vertex."""
        if self._n < 2:
            return 0
        import itertools
        best = len(self._e)
        for m in range(1, 2 ** (self._n - 1)):
            side = {i for i in range(self._n - 1) if m >> i & 1}
            best = min(best, sum((e[0] in side) != (e[1] in side) for e in self._e))
        return best
    edge_connectivity = adhesion

    def _paths(self, v, weights):
        if isinstance(weights, str):
            weights = self.es[weights]
        w = weights if weights is not None else [1] * len(self._e)
        dist, prev, q = {v: 0}, {v: None}, [(0, v)]
        while q:
            d, u = heapq.heappop(q)
            if d > dist[u]:
                continue
            for i in self.incident(u):
                x = sum(self._e[i]) - u
                if x not in dist or d + w[i] < dist[x] - 1e-15:
                    dist[x], prev[x] = d + w[i], (u, i)
                    heapq.heappush(q, (dist[x], x))
        return dist, prev

    def get_shortest_paths(self, v, to=None, weights=None, mode=None, output='vpath', **k):
        dist, prev = self._paths(v, weights)
        out = []
        for t in (range(self._n) if to is None else [to] if isinstance(to, int) else to):
            p, ep, x = [], [], t
            if t in prev:
                while True:
                    p.append(x)
                    if prev[x] is None:
                        break
                    ep.append(prev[x][1])
                    x = prev[x][0]
            out.append(p[::-1] if output == 'vpath' else ep[::-1])
        return out

    def get_shortest_path(self, v, to, weights=None, mode=None, output='vpath', **k):
        return self.get_shortest_paths(v, to, weights=weights, output=output)[0]

    def shortest_paths(self, source=None, target=None, weights=None, mode=None, **k):
        f = lambda x: range(self._n) if x is None else [x] if isinstance(x, int) else x
        return [[self._paths(s, weights)[0].get(t, float('inf')) for t in f(target)] for s in f(source)]
    distances = shortest_paths

    def copy(self):
        g = Graph(self._n)
        g._e, g._ea, g._va, g._keys = list(self._e), [dict(x) for x in self._ea], [dict(x) for x in self._va], set(self._keys)
        return g

    def delete_edges(self, es):
        dead = set()
        for e in ([es] if isinstance(es, int) else es):
            dead.add(self.get_eid(*e) if isinstance(e, tuple) else e.index if isinstance(e, Edge) else int(e))
        for e in dead:
            if not 0 <= e < len(self._e):
                raise InternalError('no such edge')
        self._ea = [x for i, x in enumerate(self._ea) if i not in dead]
        self._e = [x for i, x in enumerate(self._e) if i not in dead]

    def subgraph_edges(self, edges, delete_vertices=True):
        g = self.copy()
        g.delete_edges([i for i in range(len(self._e)) if i not in {e if isinstance(e, int) else e.index for e in edges}])
        return g

    def spanning_tree(self, weights=None, return_tree=True):
        raise InternalError('not available in the stand-in')

    def layout(self, *a, **k): return None


def plot(*a, **k):
    return None
