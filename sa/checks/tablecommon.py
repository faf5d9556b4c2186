"""Helpers for the checks that follow readings through tables: readings are
named atoms, so a result shows which readings it was made of."""
import os
from values import (AObj, AList, ADict, ASet, Dom, Ext, Opq, Native, AGen,
                    AClass, AFunc, short, key_of)
from interp import AbstractRaise, Undecided
from domains import atom, Lin, sign, lift
from tables import (TM, Frame, Series, Idx, Arr, NAN, isnan, bop, cop, same,
                    total)
from .tfcommon import exc_name, Unk

AC = ('active', 'apparent', 'reactive')


def aval(v):
    """python literal -> abstract value"""
    if isinstance(v, dict):
        return ADict([(aval(k), aval(x)) for k, x in v.items()])
    if isinstance(v, list):
        return AList([aval(x) for x in v])
    if isinstance(v, tuple):
        return tuple(aval(x) for x in v)
    if isinstance(v, set):
        return ASet([aval(x) for x in v])
    return v


def pyval(v):
    """abstract value -> python literal (Unk when not literal)"""
    if isinstance(v, ADict):
        return {pyval(k): pyval(x) for k, x in v.pairs}
    if isinstance(v, AList):
        return [pyval(x) for x in v.items]
    if isinstance(v, tuple):
        return tuple(pyval(x) for x in v)
    if isinstance(v, ASet):
        return {pyval(x) for x in v.items}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, Arr) and v.ndim == 1:
        return [pyval(x) for x in v.cells]
    if isinstance(v, Idx):
        return [pyval(x) for x in v.labels]
    raise Unk(short(v))


def times(n, base='t', tz=None):
    return [atom('ts', '%s%d' % (base, i), tz) for i in range(n)]


def mkframe(labels, cols, pre='r', holes=()):
    """frame whose cell (i, j) is the atom '<pre><i>.<j>' (NaN in holes)"""
    data = []
    for j in range(len(cols)):
        data.append([NAN if (i, j) in holes else
                     atom('num', '%s%d.%d' % (pre, i, j))
                     for i in range(len(labels))])
    names = ['physical_quantity', 'type'] if cols and isinstance(
        cols[0], tuple) else None
    return Frame(Idx(labels, dt=bool(labels) and isinstance(labels[0], Lin)),
                 Idx(cols, names=names), data)


def cells_of(fr):
    return [list(d) for d in fr.data]


def snap(fr):
    return fr.d_key()


class Source(Dom):
    """stands for an upstream meter/node: hands out chunks one by one"""
    __slots__ = ('chunks', 'meta', 'dry', 'attrs')

    def __init__(self, chunks, meta, dry=None):
        self.chunks, self.meta = chunks, meta
        self.dry = meta if dry is None else dry
        self.attrs = {}

    def __repr__(self):
        return '<upstream>'

    def d_truth(self, I):
        return True

    def d_deepcopy(self, I, memo):
        return self

    def d_setattr(self, I, name, value):
        I.event('upstream-set', name=name)
        self.attrs[name] = value

    def d_getattr(self, I, name):
        if name == 'process':
            def process(I, a, k):
                def gen():
                    for i, c in enumerate(self.chunks):
                        I.event('pull', i=i, chunk=c)
                        yield c
                I.event('process')
                return AGen(gen())
            return Native(process, name)
        if name == 'get_metadata':
            return Native(lambda I, a, k: self.meta, name)
        if name == 'dry_run_metadata':
            return Native(lambda I, a, k: self.dry, name)
        if name == '__class__':
            return Ext('nilmtk.ElecMeter')
        if name in self.attrs:
            return self.attrs[name]
        return NotImplemented


def environment(v):
    """a fact about the file system, which may be so or not"""
    return isinstance(v, Opq) and v.op == 'call' and isinstance(
        v.args[0], Ext) and v.args[0].name.startswith('os.path.')


def each(ctx, I, C, go, max_paths=400):
    for out, v, tr in I.explore(go, max_paths=max_paths):
        ctx.paths += 1
        if out == 'undecided':
            if v != 'loop bound':
                ctx.undecided(C, v)
            continue
        odd = [x[0] for x in I.truth_log if not environment(x[0])]
        if odd:
            # the path depends on a value outside the modelled fragment
            ctx.undecided(C, 'branch on %s' % short(odd[0]))
            continue
        yield out, v, tr


def guard(ctx, C, fn):
    """run a judgement; values outside the fragment are undecided"""
    try:
        fn()
    except Unk as e:
        ctx.undecided(C, str(e))
    except Undecided as e:
        ctx.undecided(C, str(e))
    except Exception as e:
        # a value of a kind the judgement was not written for: no verdict
        if os.environ.get('SA_DEBUG'):
            raise
        ctx.undecided(C, 'judgement: %s: %s' % (type(e).__name__,
                                                str(e)[:200]))


def equal(I, x, y):
    """same cell?  (missing equals missing)"""
    if isnan(x) or isnan(y):
        return isnan(x) and isnan(y)
    if isinstance(x, (bool, int, float)) and isinstance(
            y, (bool, int, float)):
        return abs(x - y) <= 1e-9 * max(1, abs(x), abs(y))
    lx, ly = lift(x), lift(y)
    if lx is not None and ly is not None and (
            lx.kind == ly.kind or not lx.co or not ly.co):
        d = lx.add(ly, -1)
        if all(abs(c) < 1e-9 for c in d.co.values()) and \
                abs(d.const) < 1e-9:
            return True
        return None if known_sign(I, d) == 0 else False
    if isinstance(x, Opq) or isinstance(y, Opq):
        if key_of(x) == key_of(y):
            return True
        raise Unk('%s vs %s' % (short(x), short(y)))
    return same(I, x, y)


def known_sign(I, d):
    """sign of d if the path already fixes it, else None"""
    from domains import implied
    if not d.co:
        return (d.const > 0) - (d.const < 0)
    lead = sorted(d.co)[0]
    c = d.scale(1 / d.co[lead])
    key = ('sign', tuple(sorted(c.co.items())), c.const)
    s = I.facts.get(key)
    if s is None:
        s = implied(I, c)
    if s is None:
        return None
    return -s if d.co[lead] < 0 else s


def eqv(I, x, y):
    """equal, where an equality assumed on this path also counts"""
    r = equal(I, x, y)
    return True if r is None else r
