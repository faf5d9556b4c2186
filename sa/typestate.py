"""Intraprocedural typestate analysis of acquired handles (files, stores,
connections) over the syntax tree, with one level of callee summaries.

A state maps each tracked local variable to the set of its resource's possible
conditions; states are joined per program point by set union of *paths*
(path-sensitive up to a cap), loops run to a fixpoint, `try` bodies may jump
to their handlers from any statement."""
import ast

ACQUIRE = {
    'open': 'file', 'io.open': 'file', 'codecs.open': 'file',
    'gzip.open': 'file', 'bz2.open': 'file',
    'zipfile.ZipFile': 'archive', 'tarfile.open': 'archive',
    'pandas.HDFStore': 'store', 'pandas.io.pytables.HDFStore': 'store',
    'nilmtk.utils.get_datastore': 'store',
    'nilmtk.datastore.hdfdatastore.HDFDataStore': 'store',
    'nilmtk.datastore.HDFDataStore': 'store',
    'nilmtk.datastore.TmpDataStore': 'store',
    'tables.open_file': 'store', 'h5py.File': 'store',
    'psycopg2.connect': 'connection', 'sqlite3.connect': 'connection',
    'tempfile.mkstemp': 'descriptor', 'os.open': 'descriptor',
    'os.fdopen': 'file', 'socket.socket': 'socket',
}
RELEASE = {'close', 'terminate', 'shutdown'}
OPEN, CLOSED, ESC = 'open', 'closed', 'escaped'
CAP = 64


class Finding(object):
    def __init__(self, rule, line, var, kind, detail):
        self.rule, self.line, self.var = rule, line, var
        self.kind, self.detail = kind, detail


class State(object):
    """var -> rid ; rid -> (status, kind, line, filename-expr)"""
    __slots__ = ('vars', 'res')

    def __init__(self, vars=(), res=()):
        self.vars = dict(vars)
        self.res = dict(res)

    def key(self):
        return (tuple(sorted(self.vars.items())),
                tuple(sorted(self.res.items())))

    def copy(self):
        return State(self.vars, self.res)


def dedupe(states):
    out = {}
    for s in states:
        out[s.key()] = s
        if len(out) > CAP:
            break
    return list(out.values())


class Analyser(object):
    def __init__(self, resolve, summary):
        self.resolve = resolve      # expr -> dotted name or None
        self.summary = summary      # dotted, argpos/kw -> 'closes'|'uses'|..
        self.findings = []
        self.sites = 0
        self.calls = 0

    # -- entry
    def function(self, fn, seed=None):
        st = State()
        if seed:
            for v in seed:
                st.vars[v] = v
                st.res[v] = (OPEN, 'param', fn.lineno, None)
        self.exits = []
        self.fn = fn
        out = self.block(fn.body, [st])
        for s in out:
            self.exit(s, getattr(fn.body[-1], 'end_lineno', fn.lineno),
                      None)
        return self.exits

    def exit(self, s, line, value):
        s = s.copy()
        if value is not None:
            self.escape_expr(value, s)
        self.exits.append((s, line))
        for rid, (st, kind, ln, fx) in s.res.items():
            if st == OPEN and kind != 'param':
                self.findings.append(Finding(
                    'leak', ln, rid.split('@')[0], kind,
                    'opened at line %d and still open on the exit at line '
                    '%d' % (ln, line)))

    # -- statements
    def block(self, stmts, states):
        for s in stmts:
            if not states:
                return []
            nxt = []
            for st in states:
                nxt.extend(self.stmt(s, st.copy()))
            states = dedupe(nxt)
        return states

    def stmt(self, s, st):
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.expr(s.value, st)
            for f in reversed(self.finallys):
                r = self.block(f, [st])
                st = r[0] if r else st
            self.exit(st, s.lineno, s.value)
            return []
        if isinstance(s, ast.Raise):
            return []
        if isinstance(s, (ast.Break, ast.Continue)):
            self.loopout[-1].append((type(s), st))
            return []
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            a = self.block(s.body, [self.assume(s.test, st.copy(), True)])
            b = self.block(s.orelse, [self.assume(s.test, st, False)])
            return a + b
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.expr(s.iter, st)
            else:
                self.expr(s.test, st)
            forever = isinstance(s, ast.While) and isinstance(
                s.test, ast.Constant) and s.test.value
            outs = [] if forever else [st.copy()]
            front = [st]
            seen = set()
            for _ in range(4):
                self.loopout.append([])
                body = self.block(s.body, [x.copy() for x in front])
                lo = self.loopout.pop()
                outs += [x for t, x in lo if t is ast.Break]
                body += [x for t, x in lo if t is ast.Continue]
                body = [b for b in dedupe(body) if b.key() not in seen]
                if not body:
                    break
                seen |= {b.key() for b in body}
                if not forever:
                    outs += body
                front = body
            return self.block(s.orelse, dedupe(outs))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            managed = []
            for it in s.items:
                rid = self.acquire(it.context_expr, st, None)
                if rid is None and isinstance(it.context_expr, ast.Call) and \
                        self.resolve(it.context_expr.func) == \
                        'contextlib.closing' and it.context_expr.args:
                    rid = self.acquire(it.context_expr.args[0], st, None)
                if rid is None:
                    self.expr(it.context_expr, st)
                    if isinstance(it.context_expr, ast.Name):
                        rid = st.vars.get(it.context_expr.id)
                if rid is not None:
                    managed.append(rid)
                    if isinstance(it.optional_vars, ast.Name):
                        st.vars[it.optional_vars.id] = rid
            # returns inside: resource is released on the way out
            saved = self.exits
            nf = len(self.findings)
            self.exits = []
            out = self.block(s.body, [st])
            inner, self.exits = self.exits, saved
            for x in out:
                for r in managed:
                    self.close(x, r)
            keep = self.findings[:nf]
            for f in self.findings[nf:]:
                if f.rule == 'leak' and any(
                        r.split('@')[0] == f.var for r in managed):
                    continue
                keep.append(f)
            self.findings = keep
            for x, ln in inner:
                for r in managed:
                    self.close(x, r)
                self.exits.append((x, ln))
            return out
        if isinstance(s, ast.Try):
            starts = [st.copy()]
            cur = [st]
            self.finallys.append(s.finalbody)
            for b in s.body:
                nxt = []
                for c in cur:
                    nxt.extend(self.stmt(b, c.copy()))
                cur = dedupe(nxt)
                starts.extend(x.copy() for x in cur)
            if s.orelse:
                cur = self.block(s.orelse, cur)
            outs = list(cur)
            for h in s.handlers:
                outs += self.block(h.body, dedupe([x.copy()
                                                   for x in starts]))
            self.finallys.pop()
            return self.block(s.finalbody, dedupe(outs))
        if isinstance(s, ast.Assign):
            v = s.value
            # tuple from mkstemp: fd, path = ...
            t = s.targets[0]
            if isinstance(v, ast.Call) and isinstance(t, ast.Tuple) and \
                    self.kind(v) == 'descriptor' and t.elts and \
                    isinstance(t.elts[0], ast.Name):
                self.args(v, st)
                self.bind(t.elts[0].id, v, 'descriptor', st)
                return [st]
            rid = self.acquire(v, st, t.id if isinstance(t, ast.Name)
                               else None)
            if rid is not None:
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        st.vars[t.id] = rid
                    else:
                        self.set(st, rid, ESC)
                return [st]
            self.expr(v, st)
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if isinstance(v, ast.Name) and v.id in st.vars:
                        st.vars[t.id] = st.vars[v.id]
                    else:
                        st.vars.pop(t.id, None)
                else:
                    self.escape_expr(v, st)
            return [st]
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            # closures may use the handle; treat captured handles as escaped
            names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
            for v in list(st.vars):
                if v in names and isinstance(s, ast.FunctionDef) and any(
                        isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Attribute) and
                        n.func.attr in RELEASE and isinstance(
                            n.func.value, ast.Name) and
                        n.func.value.id == v for n in ast.walk(s)):
                    self.set(st, st.vars[v], ESC)
            return [st]
        for f in ast.iter_child_nodes(s):
            if isinstance(f, ast.expr):
                self.expr(f, st)
        if isinstance(s, ast.Expr) and isinstance(
                s.value, (ast.Yield, ast.YieldFrom)) and s.value.value:
            self.escape_expr(s.value.value, st)
        return [st]

    finallys = None
    loopout = None

    def assume(self, test, st, truth):
        """`if x is None` / `if x:` on a tracked handle"""
        return st

    # -- expressions
    def kind(self, e):
        if isinstance(e, ast.Call):
            d = self.resolve(e.func)
            return ACQUIRE.get(d)
        return None

    def acquire(self, e, st, var):
        k = self.kind(e)
        if k is None:
            return None
        self.args(e, st)
        return self.bind(var or '<%s>' % k, e, k, st)

    def bind(self, var, e, k, st):
        self.sites += 1
        rid = '%s@%d' % (var, e.lineno)
        fx = ast.dump(e.args[0]) if e.args else None
        st.res[rid] = (OPEN, k, e.lineno, fx)
        st.vars[var] = rid
        return rid

    def set(self, st, rid, status):
        if rid in st.res:
            o = st.res[rid]
            st.res[rid] = (status,) + o[1:]

    def close(self, st, rid):
        if rid in st.res and st.res[rid][0] != ESC:
            self.set(st, rid, CLOSED)

    def args(self, e, st):
        for a in e.args:
            self.expr(a.value if isinstance(a, ast.Starred) else a, st)
        for k in e.keywords:
            self.expr(k.value, st)

    def escape_expr(self, v, st):
        """the value of v is handed to the outside"""
        for n in ast.walk(v):
            if isinstance(n, ast.Name) and n.id in st.vars:
                # only when the handle itself is (part of) the value
                if self.is_part(v, n):
                    self.set(st, st.vars[n.id], ESC)

    def is_part(self, v, n):
        if v is n:
            return True
        if isinstance(v, (ast.Tuple, ast.List)):
            return any(self.is_part(x, n) for x in v.elts)
        if isinstance(v, ast.Dict):
            return any(self.is_part(x, n) for x in v.values)
        if isinstance(v, ast.Call):
            d = self.resolve(v.func)
            for i, x in enumerate(v.args):
                if self.is_part(x, n) and self.summary(d, i, None) not in (
                        'uses', 'closes', 'may-close'):
                    return True
            for x in v.keywords:
                if self.is_part(x.value, n) and self.summary(
                        d, None, x.arg) not in ('uses', 'closes',
                                                'may-close'):
                    return True
            return False
        if isinstance(v, ast.IfExp):
            return self.is_part(v.body, n) or self.is_part(v.orelse, n)
        return False

    def expr(self, e, st):
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute):
                base = f.value
                if isinstance(base, ast.Name) and base.id in st.vars:
                    rid = st.vars[base.id]
                    self.args(e, st)
                    self.calls += 1
                    if f.attr in RELEASE:
                        self.close(st, rid)
                    elif f.attr == 'open':
                        if rid in st.res and st.res[rid][0] == CLOSED:
                            self.set(st, rid, OPEN)
                    elif rid in st.res and st.res[rid][0] == CLOSED:
                        self.findings.append(Finding(
                            'use-after-close', e.lineno, base.id,
                            st.res[rid][1], '%s.%s() after it was closed' % (
                                base.id, f.attr)))
                    return
                self.expr(base, st)
            if self.kind(e):
                # anonymous handle: open(...).read(), f(open(...))
                self.args(e, st)
                self.sites += 1
                return
            self.args(e, st)
            d = self.resolve(f)
            if d and d.rsplit('.', 1)[-1] == 'convert_yaml_to_hdf5' and \
                    len(e.args) > 1:
                fx = ast.dump(e.args[1])
                for r, (s_, k, ln, fx2) in st.res.items():
                    if s_ == OPEN and k == 'store' and fx2 == fx:
                        self.findings.append(Finding(
                            'metadata-into-open-file', e.lineno,
                            r.split('@')[0], k, 'metadata is written to the '
                            'file while the store opened on it at line %d is'
                            ' still open' % ln))
            if d and d in ('os.close', 'contextlib.closing') and e.args and \
                    isinstance(e.args[0], ast.Name) and \
                    e.args[0].id in st.vars:
                self.close(st, st.vars[e.args[0].id])
                return
            for i, a in enumerate(e.args):
                self.passed(e, d, i, None, a, st)
            for k in e.keywords:
                self.passed(e, d, None, k.arg, k.value, st)
            return
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            if e.value is not None:
                self.expr(e.value, st)
                self.escape_expr(e.value, st)
            return
        if isinstance(e, ast.Lambda):
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, st)
            elif isinstance(c, ast.comprehension):
                self.expr(c.iter, st)
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) \
                and e.value.id in st.vars:
            rid = st.vars[e.value.id]
            if rid in st.res and st.res[rid][0] == CLOSED:
                self.findings.append(Finding(
                    'use-after-close', e.lineno, e.value.id,
                    st.res[rid][1], '%s[...] after it was closed' %
                    e.value.id))

    def passed(self, call, dotted, i, kw, a, st):
        if not (isinstance(a, ast.Name) and a.id in st.vars):
            return
        rid = st.vars[a.id]
        # a callee that cannot be resolved may take the handle over
        eff = self.summary(dotted, i, kw) if dotted else 'escapes'
        if eff == 'closes':
            self.close(st, rid)
        elif eff in ('uses', 'may-close', None):
            if rid in st.res and st.res[rid][0] == CLOSED and \
                    eff in ('uses', 'may-close'):
                self.findings.append(Finding(
                    'use-after-close', call.lineno, a.id, st.res[rid][1],
                    'passed to %s() after it was closed' % dotted))
            if eff == 'escapes':
                self.set(st, rid, ESC)
        elif eff == 'escapes':
            self.set(st, rid, ESC)


def analyse(fn, resolve, summary, seed=None):
    a = Analyser(resolve, summary)
    a.finallys = []
    a.loopout = []
    exits = a.function(fn, seed)
    return a, exits
