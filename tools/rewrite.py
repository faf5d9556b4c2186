"""Rewrites a whole copy of nilmtk in ways that keep its behaviour, one kind of
rewriting at a time, and runs the checks on the result: they have to stay
quiet and decided.  usage: rewrite.py [KIND...] [-- CHECK...]"""
import ast
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
KINDS = {}


def kind(c):
    KINDS[c.__name__] = c
    return c


def name(id, store=False):
    return ast.Name(id, ast.Store() if store else ast.Load())


def assign(n, v):
    return ast.Assign([name(n, True)], v)


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self, p='tmp'):
        self.n += 1
        return '%s_%d_' % (p, self.n)

    def bodies(self, node):
        """apply self.stmts to every statement list"""
        for x in ast.walk(node):
            for f in ('body', 'orelse', 'finalbody'):
                l = getattr(x, f, None)
                if isinstance(l, list) and l and isinstance(l[0], ast.stmt):
                    setattr(x, f, self.stmts(l, x))
        return node

    def run(self, tree):
        if hasattr(self, 'stmts'):
            return self.bodies(tree)
        return self.visit(tree)


def flat(self, l):
    out = []
    for s in l:
        r = self.stmt(s)
        out += r if isinstance(r, list) else [r]
    return out


class PerStmt(Base):
    def stmts(self, l, parent):
        return flat(self, l)


@kind
class TempReturn(PerStmt):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and \
                not isinstance(s.value, (ast.Name, ast.Constant)):
            t = self.fresh('result')
            return [assign(t, s.value), ast.Return(name(t))]
        return s


@kind
class IfInvert(PerStmt):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            t = s.test
            neg = t.operand if isinstance(t, ast.UnaryOp) and isinstance(
                t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            return ast.If(neg, s.orelse, s.body)
        return s


@kind
class SwapCompare(Base):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
         ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()],
                               [n.left])
        return n


def plain_targets(t):
    return all(isinstance(x, (ast.Name, ast.Tuple, ast.Store, ast.Load))
               for x in ast.walk(t))


def renamed(node, m):
    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.Name(m.get(n.id, n.id), n.ctx)
    return R().visit(node)


@kind
class CompToLoop(PerStmt):
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                v, (ast.ListComp, ast.DictComp)) and all(
                    plain_targets(g.target) for g in v.generators):
            if any(isinstance(x, ast.Lambda) for x in ast.walk(v)):
                return s
            m = {}
            for g in v.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        m[x.id] = self.fresh(x.id)
            acc = self.fresh('acc')
            first = v.generators[0].iter
            v = renamed(v, m)
            v.generators[0].iter = first
            if isinstance(v, ast.ListComp):
                st = ast.Expr(ast.Call(ast.Attribute(
                    name(acc), 'append', ast.Load()), [v.elt], []))
                init = ast.List([], ast.Load())
            else:
                st = ast.Assign([ast.Subscript(name(acc), v.key,
                                               ast.Store())], v.value)
                init = ast.Dict([], [])
            for g in reversed(v.generators):
                for c in reversed(g.ifs):
                    st = ast.If(c, [st], [])
                st = ast.For(g.target, g.iter, [st], [])
            s.value = name(acc)
            return [assign(acc, init), st, s]
        return s


@kind
class LoopToComp(Base):
    """x = []; for t in it: x.append(e)  ->  x = [e for t in it]"""

    def stmts(self, l, parent):
        if isinstance(parent, (ast.Module, ast.ClassDef)):
            return l
        out, i = [], 0
        while i < len(l):
            s = l[i]
            f = l[i + 1] if i + 1 < len(l) else None
            if isinstance(s, ast.Assign) and isinstance(
                    s.value, ast.List) and not s.value.elts and isinstance(
                    s.targets[0], ast.Name) and isinstance(
                    f, ast.For) and len(f.body) == 1 and not f.orelse:
                b, ifs = f.body[0], []
                while isinstance(b, ast.If) and not b.orelse and \
                        len(b.body) == 1:
                    ifs.append(b.test)
                    b = b.body[0]
                x = s.targets[0].id
                used = [n for n in ast.walk(ast.Module(l[i + 2:], []))
                        if isinstance(n, ast.Name) and n.id in {
                            t.id for t in ast.walk(f.target)
                            if isinstance(t, ast.Name)}]
                if isinstance(b, ast.Expr) and isinstance(
                        b.value, ast.Call) and ast.unparse(
                        b.value.func) == x + '.append' and not used and \
                        not any(isinstance(n, ast.Name) and n.id == x
                                for n in ast.walk(b.value.args[0])):
                    out.append(assign(x, ast.ListComp(b.value.args[0], [
                        ast.comprehension(f.target, f.iter, ifs, 0)])))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


@kind
class Enumerate(PerStmt):
    def stmt(self, s):
        if isinstance(s, ast.For):
            return ast.For(ast.Tuple([name(self.fresh('n'), True), s.target],
                                     ast.Store()),
                           ast.Call(name('enumerate'), [s.iter], []),
                           s.body, s.orelse)
        return s


@kind
class ToHelper(Base):
    """every function's body moves to a helper beside it"""

    def stmts(self, l, parent):
        if not isinstance(parent, (ast.Module, ast.ClassDef)):
            return l
        out = []
        cls = isinstance(parent, ast.ClassDef)
        for s in l:
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or \
                    s.name.startswith('__') or any(
                        isinstance(x, (ast.Yield, ast.YieldFrom))
                        for x in ast.walk(s)) or (
                        cls and not s.args.args) or any(
                        isinstance(x, ast.Name) and x.id == 'locals'
                        for x in ast.walk(s)):
                out.append(s)
                continue
            a = s.args
            if any(isinstance(x, ast.Raise) for x in s.body):
                out.append(s)               # abstract
                continue
            nm = '_do_%s%s' % (parent.name + '_' if cls else '',
                               s.name.lstrip('_'))
            pos = [x.arg for x in a.posonlyargs + a.args]
            call = ast.Call(
                ast.Attribute(name(pos[0]), nm, ast.Load()) if cls
                else name(nm),
                [name(p) for p in (pos[1:] if cls else pos)] + (
                    [ast.Starred(name(a.vararg.arg), ast.Load())]
                    if a.vararg else []),
                [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs] + (
                    [ast.keyword(None, name(a.kwarg.arg))]
                    if a.kwarg else []))
            import copy
            b = copy.deepcopy(s)
            b.name = nm
            doc = s.body[:1] if ast.get_docstring(s) else []
            b.args.defaults = []
            b.args.kw_defaults = [None] * len(b.args.kwonlyargs)
            if doc:
                b.body = b.body[1:] or [ast.Pass()]
            s.body = doc + [ast.Return(call)]
            out += [b, s]
        return out


@kind
class RenameLocals(Base):
    def visit_FunctionDef(self, s):
        inner = [x for x in ast.walk(s) if x is not s and isinstance(
            x, FN + (ast.Lambda, ast.ClassDef))]
        bad = {'locals', 'vars', 'eval', 'exec'}
        if 'query_terms' in ast.unparse(s):
            return s            # pandas looks local variables up by name
        if any(isinstance(x, ast.Name) and x.id in bad or isinstance(
                x, (ast.Global, ast.Nonlocal)) for x in ast.walk(s)):
            return s
        params = set()
        for f in [s] + [x for x in inner if not isinstance(x, ast.ClassDef)]:
            a = f.args
            params |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            params |= {x.arg for x in (a.vararg, a.kwarg) if x}
        names = {x.name for x in inner if not isinstance(x, ast.Lambda)}
        imported = {al.asname or al.name.split('.')[0] for x in ast.walk(s)
                    if isinstance(x, (ast.Import, ast.ImportFrom))
                    for al in x.names}
        names |= {x.name for x in ast.walk(s)
                  if isinstance(x, ast.ExceptHandler) and x.name}
        if any(isinstance(x, ast.ClassDef) for x in inner):
            return s
        loc = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and
               isinstance(x.ctx, ast.Store)} - params - names - imported
        s.body = [renamed(b, {n: n + '_v' for n in loc}) for b in s.body]
        return s


@kind
class Fstring(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and \
                isinstance(f.value, ast.Constant) and isinstance(
                f.value.value, str) and not n.keywords and n.args and \
                not any(isinstance(a, ast.Starred) for a in n.args):
            parts = re.split(r'(\{[^{}]*\})', f.value.value)
            if '{{' in f.value.value or '}}' in f.value.value:
                return n
            vals, i = [], 0
            for p in parts:
                m = re.fullmatch(r'\{(?::([^{}]*))?\}', p)
                if m:
                    if i >= len(n.args):
                        return n
                    spec = ast.JoinedStr([ast.Constant(m.group(1))]) \
                        if m.group(1) else None
                    vals.append(ast.FormattedValue(n.args[i], -1, spec))
                    i += 1
                elif p.startswith('{'):
                    return n
                elif p:
                    vals.append(ast.Constant(p))
            if any(isinstance(x, ast.Constant) and isinstance(x.value, str)
                   and ('\\' in x.value or "'" in x.value or
                        '"' in x.value or '\n' in x.value)
                   for v in vals for x in ast.walk(v)):
                return n
            return ast.JoinedStr(vals)
        return n


@kind
class TempArgs(PerStmt):
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(
                v, ast.Call) and v.args and isinstance(
                v.func, (ast.Name, ast.Attribute)) and (
                isinstance(v.func, ast.Name) or isinstance(
                    v.func.value, ast.Name)) and isinstance(
                v.args[0], (ast.Call, ast.Subscript, ast.BinOp)):
            t = self.fresh('arg')
            e, v.args[0] = v.args[0], name(t)
            return [assign(t, e), s]
        return s


@kind
class EarlyToElse(Base):
    def stmts(self, l, parent):
        for i, s in enumerate(l):
            if isinstance(s, ast.If) and not s.orelse and l[i + 1:] and \
                    isinstance(s.body[-1], (ast.Return, ast.Raise,
                                            ast.Continue)):
                s.orelse = self.stmts(l[i + 1:], parent)
                return l[:i + 1]
        return l


@kind
class ElseToEarly(Base):
    def stmts(self, l, parent):
        if l and isinstance(l[-1], ast.If) and l[-1].orelse and isinstance(
                l[-1].body[-1], (ast.Return, ast.Raise, ast.Continue)):
            rest, l[-1].orelse = l[-1].orelse, []
            return l + self.stmts(rest, parent)
        return l


@kind
class ContinueToIf(PerStmt):
    def stmt(self, s):
        if isinstance(s, ast.For):
            for i, b in enumerate(s.body):
                if isinstance(b, ast.If) and not b.orelse and \
                        len(b.body) == 1 and isinstance(
                        b.body[0], ast.Continue) and s.body[i + 1:]:
                    s.body = s.body[:i] + [ast.If(
                        ast.UnaryOp(ast.Not(), b.test), s.body[i + 1:], [])]
                    break
        return s


@kind
class IfExpToIf(PerStmt):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            v = s.value
            return ast.If(v.test, [ast.Assign(s.targets, v.body)],
                          [ast.Assign(s.targets, v.orelse)])
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test, [ast.Return(v.body)], []),
                    ast.Return(v.orelse)]
        return s


@kind
class IfToIfExp(PerStmt):
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and \
                    ast.unparse(a.targets[0]) == ast.unparse(
                        b.targets[0]) and isinstance(a.targets[0], ast.Name):
                return ast.Assign(a.targets, ast.IfExp(s.test, a.value,
                                                       b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and \
                    a.value and b.value:
                return ast.Return(ast.IfExp(s.test, a.value, b.value))
        return s


@kind
class AugAssign(PerStmt):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(
                s.target, ast.Name) and isinstance(
                s.value, ast.Constant):
            return assign(s.target.id, ast.BinOp(name(s.target.id), s.op,
                                                 s.value))
        return s


@kind
class DeMorgan(Base):
    def fix(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp):
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(
                ast.Or() if isinstance(t.op, ast.And) else ast.And(),
                [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return n
    visit_If = visit_While = visit_IfExp = fix


@kind
class NestedIf(PerStmt):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(
                s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            for v in reversed(s.test.values):
                s = ast.If(v, s.body if not isinstance(s, ast.If) or
                           s.test is not None and s.body and isinstance(
                               s.test, ast.BoolOp) else [s], [])
            return s
        return s


@kind
class DictCall(Base):
    def visit_Dict(self, n):
        self.generic_visit(n)
        return n if n.keys else ast.Call(name('dict'), [], [])

    def visit_List(self, n):
        self.generic_visit(n)
        return n if n.elts or isinstance(n.ctx, ast.Store) else ast.Call(
            name('list'), [], [])


@kind
class ChainTemp(PerStmt):
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                isinstance(v.func.value, (ast.Call, ast.Subscript)):
            t = self.fresh('part')
            e, v.func.value = v.func.value, name(t)
            return [assign(t, e), s]
        return s


@kind
class GenToList(Base):
    OK = {'sum', 'any', 'all', 'list', 'set', 'dict', 'tuple', 'sorted',
          'min', 'max', 'join'}

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func.id if isinstance(n.func, ast.Name) else getattr(
            n.func, 'attr', '')
        if f in self.OK and len(n.args) == 1 and isinstance(
                n.args[0], ast.GeneratorExp):
            g = n.args[0]
            n.args = [ast.ListComp(g.elt, g.generators)]
        return n


@kind
class Literals(Base):
    """x in [a, b] -> x in (a, b); d.keys() in loops; not a in b"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(
                n.comparators[0], ast.List):
            n.comparators[0] = ast.Tuple(n.comparators[0].elts, ast.Load())
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        c = n.operand
        if isinstance(n.op, ast.Not) and isinstance(c, ast.Compare) and \
                len(c.ops) == 1:
            o = {ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
                 ast.IsNot: ast.Is}.get(type(c.ops[0]))
            if o:
                return ast.Compare(c.left, [o()], c.comparators)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        i = n.iter
        if isinstance(i, ast.Call) and isinstance(
                i.func, ast.Attribute) and i.func.attr == 'keys' and \
                not i.args:
            n.iter = ast.Call(name('list'), [i], [])
        return n


@kind
class ItemsToKeys(PerStmt):
    """for k, v in d.items() -> for k in d.keys(): v = d[k]"""

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Attribute) and \
                s.iter.func.attr == 'items' and isinstance(
                s.iter.func.value, (ast.Name, ast.Attribute)) and isinstance(
                s.target, ast.Tuple) and isinstance(
                s.target.elts[0], ast.Name):
            d = s.iter.func.value
            k, v = s.target.elts
            s.iter = ast.Call(ast.Attribute(d, 'keys', ast.Load()), [], [])
            s.target = k
            s.body.insert(0, ast.Assign([v], ast.Subscript(
                d, name(k.id), ast.Load())))
        return s


@kind
class TempTest(PerStmt):
    """if <call>: -> flag = <call>; if flag:"""

    def stmts(self, l, parent):
        out = []
        for i, s in enumerate(l):
            if isinstance(s, ast.If) and not (
                    isinstance(parent, ast.If) and l is parent.orelse and
                    False) and isinstance(s.test, (ast.Call, ast.Compare,
                                                   ast.UnaryOp)):
                t = self.fresh('flag')
                out += [assign(t, s.test)]
                s.test = name(t)
            out.append(s)
        return out


@kind
class KeywordsToDict(PerStmt):
    """f(a, k=v) -> opts = dict(k=v); f(a, **opts)"""

    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(
                v, ast.Call) and v.keywords and all(
                k.arg for k in v.keywords) and all(
                isinstance(a, (ast.Name, ast.Constant)) for a in v.args) and \
                isinstance(v.func, (ast.Name, ast.Attribute)) and \
                ast.unparse(v.func).count('(') == 0:
            t = self.fresh('options')
            d = ast.Call(name('dict'), [], v.keywords)
            v.keywords = [ast.keyword(None, name(t))]
            return [assign(t, d), s]
        return s


@kind
class ForToWhile(PerStmt):
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            it = self.fresh('it')
            nxt = ast.Try([ast.Assign([s.target], ast.Call(
                name('next'), [name(it)], []))],
                [ast.ExceptHandler(name('StopIteration'), None,
                                   [ast.Break()])], [], [])
            return [assign(it, ast.Call(name('iter'), [s.iter], [])),
                    ast.While(ast.Constant(True), [nxt] + s.body, [])]
        return s


@kind
class LoopBodyToClosure(Base):
    """for x in it: BODY -> def step(x): nonlocal ...; BODY"""

    def visit_FunctionDef(self, f):
        inner = [x for x in ast.walk(f) if x is not f and isinstance(
            x, FN + (ast.Lambda, ast.ClassDef))]
        if inner or 'query_terms' in ast.unparse(f) or any(
                isinstance(x, (ast.Global, ast.Nonlocal, ast.Del))
                for x in ast.walk(f)):
            return f
        a = f.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        params |= {x.arg for x in (a.vararg, a.kwarg) if x}
        head = []

        def do(l):
            out = []
            for s in l:
                for fld in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, fld, None)
                    if isinstance(b, list) and b and isinstance(
                            b[0], ast.stmt) and not isinstance(s, ast.For):
                        setattr(s, fld, do(b))
                for h in getattr(s, 'handlers', []):
                    h.body = do(h.body)
                if isinstance(s, ast.For) and not s.orelse and not any(
                        isinstance(x, (ast.Break, ast.Continue, ast.Return,
                                       ast.Yield, ast.YieldFrom, ast.Import,
                                       ast.ImportFrom, ast.ExceptHandler))
                        for b in s.body for x in ast.walk(b)) and any(
                        isinstance(b, (ast.For, ast.If, ast.Assign))
                        for b in s.body):
                    nm = self.fresh('step')
                    comp = {y.id for b in s.body for x in ast.walk(b)
                            if isinstance(x, ast.comprehension)
                            for y in ast.walk(x.target)
                            if isinstance(y, ast.Name)}
                    st = {x.id for b in s.body for x in ast.walk(b)
                          if isinstance(x, ast.Name) and isinstance(
                              x.ctx, ast.Store)}
                    st = sorted(st - (comp - st))
                    tn = [x.id for x in ast.walk(s.target)
                          if isinstance(x, ast.Name)]
                    if set(tn) & set(st) or comp & set(st):
                        out.append(s)
                        continue
                    head.extend(x for x in st if x not in params and
                                x not in head)
                    d = ast.FunctionDef(nm, ast.arguments(
                        [], [ast.arg(t) for t in tn], None, [], [], None,
                        []), ([ast.Nonlocal(st)] if st else []) + s.body, [])
                    d.type_params = []
                    s.body = [ast.Expr(ast.Call(name(nm), [
                        name(t) for t in tn], []))]
                    out += [d, s]
                else:
                    out.append(s)
            return out
        doc = f.body[:1] if ast.get_docstring(f) else []
        body = do(f.body[len(doc):])
        if head:
            body = [ast.Assign([name(h, True) for h in head],
                               ast.Constant(None))] + body
        f.body = doc + body
        return f


@kind
class ApiPython(PerStmt):
    """append -> +=, get -> conditional, str() -> f-string, len tests"""

    def run(self, tree):
        tree = Base.run(self, tree)

        class R(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Name) and n.func.id == 'str' and \
                        len(n.args) == 1 and isinstance(n.args[0], (
                            ast.Name, ast.Attribute)):
                    return ast.JoinedStr([ast.FormattedValue(
                        n.args[0], -1, None)])
                if isinstance(n.func, ast.Attribute) and \
                        n.func.attr == 'get' and len(n.args) == 1 and \
                        not n.keywords and isinstance(
                            n.func.value, (ast.Name, ast.Attribute)) and \
                        isinstance(n.args[0], ast.Constant):
                    d = n.func.value
                    return ast.IfExp(
                        ast.Compare(n.args[0], [ast.In()], [d]),
                        ast.Subscript(d, n.args[0], ast.Load()),
                        ast.Constant(None))
                return n

            def visit_Compare(self, n):
                self.generic_visit(n)
                if ast.unparse(n).startswith('len(') and len(n.ops) == 1 \
                        and isinstance(n.left, ast.Call) and isinstance(
                        n.comparators[0], ast.Constant):
                    o, c = n.ops[0], n.comparators[0].value
                    if isinstance(o, ast.Gt) and c == 0:
                        return ast.Compare(n.left, [ast.GtE()],
                                           [ast.Constant(1)])
                    if isinstance(o, ast.Eq) and c == 0:
                        return ast.Compare(n.left, [ast.Lt()],
                                           [ast.Constant(1)])
                return n
        return R().visit(tree)

    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == 'append' and isinstance(
                s.value.func.value, ast.Name) and len(s.value.args) == 1 \
                and not s.value.keywords and s.value.func.value.id not in (
                    'df', 'store', 'data', 'output_datastore', 'datastore'):
            return ast.Expr(ast.Call(ast.Attribute(
                s.value.func.value, 'extend', ast.Load()),
                [ast.List(s.value.args, ast.Load())], []))
        return s


@kind
class ApiPandas(Base):
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == 'empty' and isinstance(n.ctx, ast.Load) and ast.unparse(
                n.value) in ('chunk', 'df', 'data', 'series', 'power'):
            return ast.Compare(n, [ast.Eq()], [ast.Constant(True)])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute):
            ren = {'isnull': 'isna', 'notnull': 'notna'}
            if f.attr in ren:
                f.attr = ren[f.attr]
            if f.attr == 'dropna' and not n.args and not n.keywords:
                n.keywords = [ast.keyword('how', ast.Constant('any'))] if \
                    False else []
            if f.attr == 'drop' and len(n.args) == 2 and isinstance(
                    n.args[1], ast.Constant) and n.args[1].value == 1:
                return ast.Call(f, [], [ast.keyword('columns', n.args[0])])
            if f.attr == 'fillna' and len(n.args) == 1:
                return ast.Call(f, [], [ast.keyword('value', n.args[0])] +
                                n.keywords)
            if f.attr in ('sum', 'mean', 'max', 'min') and isinstance(
                    f.value, ast.Name) and f.value.id == 'np' and \
                    len(n.args) == 1 and not n.keywords and isinstance(
                    n.args[0], ast.Name):
                return n
            if f.attr == 'tz_convert' and len(n.args) == 1:
                return ast.Call(f, [], [ast.keyword('tz', n.args[0])])
            if f.attr == 'tz_localize' and len(n.args) == 1:
                return ast.Call(f, [], [ast.keyword('tz', n.args[0])])
            if f.attr == 'astype' and len(n.args) == 1:
                return ast.Call(f, [], [ast.keyword('dtype', n.args[0])])
            if f.attr == 'concat' and len(n.args) == 1:
                return ast.Call(f, [], [ast.keyword('objs', n.args[0])] +
                                n.keywords)
            if f.attr == 'DataFrame' and len(n.args) == 1:
                return ast.Call(f, [], [ast.keyword('data', n.args[0])] +
                                n.keywords)
        return n


@kind
class ToNumpy(Base):
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == 'values' and isinstance(n.ctx, ast.Load):
            return ast.Call(ast.Attribute(n.value, 'to_numpy', ast.Load()),
                            [], [])
        return n

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'values':
            f.value = self.visit(f.value)       # dict.values()
            return n
        self.generic_visit(n)
        return n


@kind
class Unparse(Base):
    def run(self, tree):
        return tree


def rewrite(repo, k):
    n = 0
    for r, d, fs in os.walk(os.path.join(repo, 'nilmtk')):
        if 'tests' in r.split(os.sep):
            continue
        for f in fs:
            if not f.endswith('.py'):
                continue
            p = os.path.join(r, f)
            src = open(p, newline='').read().replace('\r\n', '\n')
            t = ast.parse(src)
            t = ast.fix_missing_locations(KINDS[k]().run(t))
            new = ast.unparse(t)
            ast.parse(new)
            n += ast.unparse(ast.parse(src)) != new
            open(p, 'w').write(new + '\n')
    return n


def main(argv):
    checks = ['C%02d' % i for i in range(1, 60) if os.path.exists(
        os.path.join(ROOT, 'sa', 'checks', 'c%02d.py' % i))]
    if '--' in argv:
        i = argv.index('--')
        checks, argv = argv[i + 1:], argv[:i]
    bad = 0
    for k in argv or list(KINDS):
        t = tempfile.mkdtemp(prefix='sa-rewrite-')
        try:
            subprocess.check_call(['cp', '-a', '/repo/.', t])
            n = rewrite(t, k)

            def one(c):
                r = subprocess.run(
                    ['timeout', '150', 'python3', '-W', 'ignore', '-c',
                     'import sys; sys.path.insert(0, "sa");'
                     'sys.setrecursionlimit(20000)\n'
                     'import framework as f\n'
                     'rc, x = f.run_check(%r, repo=%r, write=False)\n'
                     'sys.exit(rc)' % (c, t)], cwd=ROOT,
                    capture_output=True, text=True)
                return c, r.returncode, r.stdout + r.stderr[-600:]
            with ThreadPoolExecutor(8) as ex:
                for c, rc, out in ex.map(one, checks):
                    u = re.search(r'undecided=(\d+)', out)
                    if rc or not u or u.group(1) != '0':
                        bad += 1
                        print('%s %s rc=%d undecided=%s %s' % (
                            k, c, rc, u and u.group(1), ' | '.join(
                                re.findall(r'rule=.*', out)[:3])[:500] or
                            out[-300:] if rc else ''))
            print(k, n, 'files rewritten', flush=True)
        finally:
            shutil.rmtree(t)
    print('differences:', bad)
    return bad


if __name__ == '__main__':
    sys.exit(1 if main(sys.argv[1:]) else 0)
