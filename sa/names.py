"""Static name resolution: dotted names of expressions per module, following
import aliases and package re-exports."""
import ast
import builtins


class Names(object):
    def __init__(self, project):
        self.project = project
        self.tables = {}
        self.defs = {}
        for m, (path, tree) in project.modules.items():
            self.tables[m] = self.table(m, path, tree)

    def table(self, m, path, tree):
        t = {}
        is_pkg = path.endswith('__init__.py')
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        t[a.asname] = a.name
                    else:
                        t.setdefault(a.name.split('.')[0],
                                     a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = m.split('.')
                    if not is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = '.'.join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name != '*':
                        t[a.asname or a.name] = base + '.' + a.name
        for n in tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                t[n.name] = m + '.' + n.name
                self.defs[m + '.' + n.name] = (m, n)
                if isinstance(n, ast.ClassDef):
                    for k in n.body:
                        if isinstance(k, ast.FunctionDef):
                            self.defs[m + '.' + n.name + '.' + k.name] = (
                                m, k)
        return t

    def canon(self, d, depth=0):
        """follow re-exports: nilmtk.datastore.Key -> nilmtk.datastore.key.Key
        """
        if depth > 8 or d in self.defs:
            return d
        head, _, last = d.rpartition('.')
        if head in self.tables and last in self.tables[head]:
            t = self.tables[head][last]
            if t != d:
                return self.canon(t, depth + 1)
        if head and head not in self.tables:
            h2 = self.canon(head, depth + 1)
            if h2 != head:
                return self.canon(h2 + '.' + last, depth + 1)
        return d

    def resolver(self, m, local=()):
        t = self.tables[m]

        def resolve(e):
            if isinstance(e, ast.Name):
                if e.id in local:
                    return None
                if e.id in t:
                    return self.canon(t[e.id])
                if hasattr(builtins, e.id):
                    return e.id
                return None
            if isinstance(e, ast.Attribute):
                b = resolve(e.value)
                if b is None:
                    return None
                return self.canon(b + '.' + e.attr)
            return None
        return resolve

    def functions(self):
        """(module, qualname, node) of every function, nested included"""
        for m, (path, tree) in sorted(self.project.modules.items()):
            if '.tests' in m or m.endswith('.test') or '.test_' in m:
                continue

            def rec(node, prefix):
                for n in ast.iter_child_nodes(node):
                    if isinstance(n, (ast.FunctionDef,
                                      ast.AsyncFunctionDef)):
                        yield m, prefix + n.name, n
                        for x in rec(n, prefix + n.name + '.'):
                            yield x
                    elif isinstance(n, ast.ClassDef):
                        for x in rec(n, prefix + n.name + '.'):
                            yield x
                    elif isinstance(n, (ast.If, ast.Try, ast.With,
                                        ast.For, ast.While,
                                        ast.ExceptHandler)):
                        for x in rec(n, prefix):
                            yield x
            for x in rec(tree, ''):
                yield x


def locals_of(fn):
    out = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip |= {(x.asname or x.name.split('.')[0]) for x in n.names}
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out - skip
