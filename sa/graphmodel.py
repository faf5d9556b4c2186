"""Model of the part of networkx the repository uses: directed graphs whose
nodes are compared with ==."""
from values import Dom, Native, AList, Ext, key_of


class Graph(Dom):
    __slots__ = ('nodes', 'edges')

    def __init__(self):
        self.nodes, self.edges = [], []

    def d_key(self):
        return ('graph', id(self))

    def __repr__(self):
        return '<graph>'

    def d_truth(self, I):
        return bool(self.nodes)

    def d_len(self, I):
        return len(self.nodes)

    def d_iter(self, I):
        return list(self.nodes)

    def d_isinstance(self, I, c):
        return isinstance(c, Ext) and c.name in (
            'networkx.Graph', 'networkx.DiGraph', 'builtins.object')

    def d_contains(self, I, x):
        return any(I.truth(I.compare('==', n, x)) for n in self.nodes)

    def add(self, I, x):
        for n in self.nodes:
            if n is x or I.truth(I.compare('==', n, x)):
                return n
        self.nodes.append(x)
        return x

    def find(self, I, x):
        for n in self.nodes:
            if n is x or I.truth(I.compare('==', n, x)):
                return n
        I.throw('networkx.NetworkXError', 'no such node')

    def d_getattr(self, I, nm):
        def edge(u, v):
            u, v = self.add(I, u), self.add(I, v)
            if not any(a is u and b is v for a, b in self.edges):
                self.edges.append((u, v))

        def add_edge(I, a, k):
            edge(a[0], a[1])

        def add_edges(I, a, k):
            for e in I.iterate(a[0]):
                p = list(I.iterate(e))
                edge(p[0], p[1])

        def add_node(I, a, k):
            self.add(I, a[0])

        def add_nodes(I, a, k):
            for x in I.iterate(a[0]):
                self.add(I, x)

        def succ(I, a, k):
            n = self.find(I, a[0])
            return AList([v for u, v in self.edges if u is n])

        def pred(I, a, k):
            n = self.find(I, a[0])
            return AList([u for u, v in self.edges if v is n])

        def deg(which):
            def f(I, a, k):
                def d(n):
                    return sum(1 for e in self.edges if e[which] is n)
                if a:
                    return d(self.find(I, a[0]))
                return AList([(n, d(n)) for n in self.nodes])
            return Native(f, nm)
        if nm == 'add_edge':
            return Native(add_edge, nm)
        if nm == 'add_edges_from':
            return Native(add_edges, nm)
        if nm == 'add_node':
            return Native(add_node, nm)
        if nm == 'add_nodes_from':
            return Native(add_nodes, nm)
        if nm == 'nodes':
            return View(self, list(self.nodes))
        if nm == 'edges':
            return View(self, list(self.edges))
        if nm in ('successors', 'neighbors'):
            return Native(succ, nm)
        if nm == 'predecessors':
            return Native(pred, nm)
        if nm == 'in_degree':
            return deg(1)
        if nm == 'out_degree':
            return deg(0)
        if nm == 'has_edge':
            return Native(lambda I, a, k: any(
                I.truth(I.compare('==', u, a[0])) and I.truth(I.compare('==', v, a[1]))
                for u, v in self.edges), nm)
        if nm == 'has_node':
            return Native(lambda I, a, k: self.d_contains(I, a[0]), nm)
        if nm == 'number_of_nodes':
            return Native(lambda I, a, k: len(self.nodes), nm)
        if nm == 'number_of_edges':
            return Native(lambda I, a, k: len(self.edges), nm)
        return NotImplemented


class View(Dom):
    """graph.nodes / graph.edges: iterable and callable"""
    __slots__ = ('g', 'items')

    def __init__(self, g, items):
        self.g, self.items = g, items

    def d_truth(self, I):
        return bool(self.items)

    def d_len(self, I):
        return len(self.items)

    def d_iter(self, I):
        return list(self.items)

    def d_contains(self, I, x):
        return any(I.truth(I.compare('==', n, x)) for n in self.items)

    def d_call(self, I, a, k):
        return AList(self.items)


GM = {'networkx.DiGraph': lambda I, a, k: Graph()}
