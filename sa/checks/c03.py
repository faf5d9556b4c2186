"""C03 - splitting, merging, joining and grouping TimeFrames neither loses nor
invents time.  split/merge/adjacent/union and the TimeFrameGroup operations
are abstractly interpreted with linear time values (bounds, gap and threshold
are symbolic); every reported violation carries a witness valuation."""
import itertools
from fractions import Fraction
from values import AObj, AList, Dom, Opq, Ext, short
from domains import atom, weak_orders, Lin, sign, lift
from interp import drain
from .tfcommon import tf_class, mk, empty_frame, obs, Unk, exc_name, boolean

MIN_OBLIGATIONS = 150
ASSUMPTIONS = ['frames given to merge are sorted and non-overlapping, as its '
               'documentation requires', 'split is followed for up to 5 '
               'pieces (the loop body is the same for all later ones)']


def lin(v, what=''):
    if isinstance(v, Lin):
        return v
    raise Unk('%s %s' % (what, short(v)))


def value(l, val):
    return sum(c * val[a] for a, c in l.co.items()) + l.const


def witnesses(I, atoms, constraint):
    """valuations on a small grid consistent with the path's facts"""
    facts = I.facts.get('__signs__', [])
    for vs in itertools.product(*[range(lo, hi) for lo, hi in
                                  atoms.values()]):
        val = dict(zip(atoms, vs))
        if not constraint(val):
            continue
        try:
            if all(((x := value(c, val)) > 0) - (x < 0) == s
                   for c, s in facts):
                yield val
        except KeyError:
            return


def run(ctx):
    I = ctx.interp()
    cls = tf_class(ctx, I)
    LOC = 'nilmtk/timeframe.py'
    T = lambda n: atom('ts', n)

    def each(rule, go, judge, **kw):
        for out, v, tr in I.explore(go, **kw):
            ctx.paths += 1
            if out == 'undecided':
                if v != 'loop bound':
                    ctx.undecided(rule, v)
            else:
                try:
                    judge(out, v)
                except Unk as e:
                    ctx.undecided(rule, str(e))

    # split -------------------------------------------------------------
    split_fn = I.getattr(cls, 'split')
    multi = ctx.anchor(I, 'nilmtk.timeframe.split_timeframes')
    for via in ('split', 'split_timeframes'):
        name = 'TimeFrame.split' if via == 'split' else 'split_timeframes'
        for inc in (False, True):
            def go():
                I.ranks = {'s': 0, 'e': 1}
                I.positive = {'d'}
                f = mk(I, cls, T('s'), T('e'))
                I.setattr(f, 'include_end', inc)
                d = atom('num', 'd')
                if via == 'split':
                    g = I.call(I.getattr(f, 'split'), [d], {})
                else:
                    g = I.call(multi, [AList([f]), d], {})
                out = []
                for x in I.iterate(g):
                    out.append((obs(I, x, 'start'), obs(I, x, 'end'),
                                obs(I, x, 'empty')))
                    if len(out) > 5:
                        break
                return out

            def judge(out, v):
                if out == 'raise':
                    ctx.violation('split-total', name, 'split of a bounded '
                                  'frame raises ' + exc_name(v), LOC)
                    return
                if len(v) > 5:
                    return
                ps = [(lin(a), lin(b), boolean(c)) for a, b, c in v]
                atoms = {'s': (0, 1), 'e': (1, 14), 'd': (1, 6)}
                n = 0
                for val in witnesses(I, atoms, lambda q: True):
                    n += 1
                    seq = [(value(a, val), value(b, val)) for a, b, _ in ps]
                    bad = None
                    if not seq:
                        bad = 'yields nothing'
                    elif any(c for _, _, c in ps):
                        bad = 'yields an empty frame'
                    elif seq[0][0] != val['s'] or seq[-1][1] != val['e']:
                        bad = 'does not cover the frame'
                    elif any(x[1] != y[0] for x, y in zip(seq, seq[1:])):
                        bad = 'pieces are not adjacent'
                    elif any(y - x > val['d'] for x, y in seq):
                        bad = 'a piece is longer than the threshold'
                    elif any(y <= x for x, y in seq):
                        bad = 'a piece has no duration'
                    if bad:
                        ctx.violation('split-partition', name,
                                      '%s: start=%s end=%s threshold=%s -> '
                                      '%s' % (bad, val['s'], val['e'],
                                              val['d'], [
                                                  tuple(map(float, p))
                                                  for p in seq]), LOC)
                        return
                if n:
                    ctx.ok('split-partition')
            each('split', go, judge, max_paths=300)
    # frames that cannot be split
    for sh in ('unbounded', 'empty', 'startonly', 'endonly'):
        def go():
            I.ranks = {'s': 0, 'e': 1}
            I.positive = {'d'}
            f = empty_frame(I, cls) if sh == 'empty' else mk(
                I, cls, T('s') if sh == 'startonly' else None,
                T('e') if sh == 'endonly' else None)
            g = I.call(I.getattr(f, 'split'), [atom('num', 'd')], {})
            r = []
            for x in I.iterate(g):
                r.append(x)
                if len(r) > 3:
                    break
            return r

        def judge(out, v):
            ctx.expect(out == 'raise', 'split-rejects-unbounded',
                       'TimeFrame.split', 'splitting a %s frame yields %s'
                       % (sh, short(v)), LOC)
        each('split', go, judge)

    # adjacent / union ----------------------------------------------------
    for o in weak_orders(['s1', 'e1', 's2', 'e2']):
        if o['s1'] >= o['e1'] or o['s2'] >= o['e2']:
            continue

        def go():
            I.ranks = dict(o)
            I.positive = set()
            a, b = mk(I, cls, T('s1'), T('e1')), mk(I, cls, T('s2'), T('e2'))
            u = I.call(I.getattr(a, 'union'), [b], {})
            return (I.truth(I.call(I.getattr(a, 'adjacent'), [b], {})),
                    I.truth(I.call(I.getattr(b, 'adjacent'), [a], {})),
                    obs(I, u, 'start'), obs(I, u, 'end'))

        def judge(out, v):
            if out == 'raise':
                ctx.violation('adjacent-union', 'TimeFrame.adjacent/union',
                              'raises ' + exc_name(v), LOC)
                return
            exp = o['e1'] == o['s2'] or o['e2'] == o['s1']
            ctx.expect(v[0] == exp and v[1] == exp, 'adjacent-exact',
                       'TimeFrame.adjacent', 'order %s: adjacent gives %s / '
                       '%s, expected %s' % (o, v[0], v[1], exp), LOC)
            rk = lambda l: o[list(lin(l).co)[0]] if len(lin(l).co) == 1 \
                and not l.const else None
            ctx.expect(rk(v[2]) == min(o['s1'], o['s2']) and
                       rk(v[3]) == max(o['e1'], o['e2']), 'union-is-hull',
                       'TimeFrame.union', 'order %s: union is (%s, %s)'
                       % (o, v[2], v[3]), LOC)
        each('adjacent', go, judge)

    def go():
        I.ranks = {'s1': 0, 'e1': 1, 's2': 1, 'e2': 2}
        I.ranks.clear()
        I.ranks.update({'s1': 0, 'e1': 1})
        I.positive = {'g'}
        a, b = mk(I, cls, T('s1'), T('e1')), mk(I, cls, T('s2'), T('e2'))
        # bound order of b: chosen by the constructor's own comparison
        r = I.call(I.getattr(a, 'adjacent'), [b, atom('num', 'g')], {})
        return I.truth(r)

    def judge(out, v):
        if out == 'raise':
            return
        atoms = {'s1': (0, 1), 'e1': (2, 3), 's2': (-8, 9), 'e2': (-7, 10),
                 'g': (1, 4)}
        n = 0
        for val in witnesses(I, atoms, lambda q: q['s2'] < q['e2']):
            n += 1
            exp = 0 <= val['s2'] - val['e1'] <= val['g'] or \
                0 <= val['s1'] - val['e2'] <= val['g']
            if exp != v:
                ctx.violation('adjacent-gap', 'TimeFrame.adjacent',
                              'gap=%(g)s [%(s1)s,%(e1)s] [%(s2)s,%(e2)s]'
                              % val + ' -> %s' % v, LOC)
                return
        if n:
            ctx.ok('adjacent-gap')
    each('adjacent', go, judge, max_paths=2000)

    for which in (0, 1):
        def go():
            I.ranks = {'s1': 0, 'e1': 1}
            I.positive = set()
            a, b = mk(I, cls, T('s1'), T('e1')), empty_frame(I, cls)
            if which:
                a, b = b, a
            return I.truth(I.call(I.getattr(a, 'adjacent'), [b], {}))

        def judge(out, v):
            ctx.expect(out == 'return' and v is False, 'adjacent-empty',
                       'TimeFrame.adjacent', 'an empty frame is adjacent to '
                       'nothing, got %s %s' % (out, short(v)), LOC)
        each('adjacent', go, judge)

    # merge ---------------------------------------------------------------
    mf = ctx.anchor(I, 'nilmtk.timeframe.merge_timeframes')
    for n in (0, 1, 2, 3):
        for withgap in (False, True):
            names = [x for i in range(n) for x in ('s%d' % i, 'e%d' % i)]

            def go():
                I.positive = {'g'}
                I.ranks = {}
                # s_i < e_i : rank within frame only; e_i <= s_{i+1} assumed
                for i in range(n):
                    I.ranks['s%d' % i] = 2 * i
                    I.ranks['e%d' % i] = 2 * i + 1
                touching = [I.choose(2, 'touch%d' % i) for i in range(n - 1)]
                for i, t in enumerate(touching):
                    if t:
                        # frame i+1 starts exactly where frame i ends
                        d = I.ranks['s%d' % (i + 1)] - I.ranks['e%d' % i]
                        for j in range(i + 1, n):
                            I.ranks['s%d' % j] -= d
                            I.ranks['e%d' % j] -= d
                fs = []
                for i in range(n):
                    s = T('s%d' % i)
                    fs.append(mk(I, cls, s, T('e%d' % i)))
                lst = AList(fs)
                args = [lst] + ([atom('num', 'g')] if withgap else [])
                r = I.call(mf, args, {})
                items = drain(r)
                if items is None:
                    raise Unk('merge result')
                same = len(lst.items) == n and all(
                    x is y for x, y in zip(lst.items, fs)) and all(
                    repr(obs(I, f, 'start')) == 's%d' % i and
                    repr(obs(I, f, 'end')) == 'e%d' % i
                    for i, f in enumerate(fs))
                exp = []
                for i in range(n):
                    s, e = T('s%d' % i), T('e%d' % i)
                    if exp:
                        sep = s.add(exp[-1][1], -1)
                        if withgap:
                            j = sign(I, atom('num', 'g').add(sep, -1)) >= 0
                        else:
                            j = sign(I, sep) <= 0
                        if j:
                            exp[-1] = (exp[-1][0], e)
                            continue
                    exp.append((s, e))
                return [(obs(I, x, 'start'), obs(I, x, 'end'))
                        for x in items], exp, same, touching

            def judge(out, v):
                if out == 'raise':
                    ctx.violation('merge-total', 'merge_timeframes',
                                  '%d sorted frames: raises %s' % (
                                      n, exc_name(v)), LOC)
                    return
                got, exp, same, touching = v

                def eqp(p, q):
                    p = lin(p)
                    d = p.add(q, -1)
                    return sign(I, d) == 0 if d.co or d.const else True
                ok = len(got) == len(exp) and all(
                    eqp(a, c) and eqp(b, d)
                    for (a, b), (c, d) in zip(got, exp))
                ctx.expect(ok, 'merge-joins-adjacent-only',
                           'merge_timeframes',
                           '%d frames%s, path %s: got %s expected %s' % (
                               n, ' with gap' if withgap else '',
                               I.path_str(), got, exp), LOC)
                ctx.expect(same, 'merge-leaves-input', 'merge_timeframes',
                           'the list or frames passed in are modified', LOC)
            each('merge', go, judge, max_paths=3000)

    # TimeFrameGroup --------------------------------------------------------
    G = ctx.anchor(I, 'nilmtk.timeframegroup.TimeFrameGroup')
    GL = 'nilmtk/timeframegroup.py'
    orders = [o for o in weak_orders(['s1', 'e1', 's2', 'e2'])
              if o['s1'] < o['e1'] and o['s2'] < o['e2']]
    for o in orders:
        for n1, n2 in ((1, 1), (2, 1), (1, 2)):
            def go():
                I.positive = set()
                I.ranks = dict(o)
                # second frame of the longer group lies after everything
                I.ranks.update({'s9': 20, 'e9': 30})
                a = [mk(I, cls, T('s1'), T('e1'))]
                b = [mk(I, cls, T('s2'), T('e2'))]
                if n1 == 2:
                    a.append(mk(I, cls, T('s9'), T('e9')))
                if n2 == 2:
                    b.append(mk(I, cls, T('s9'), T('e9')))
                g = I.call(G, [AList(a)], {})
                h = I.call(G, [AList(b)], {})
                r = I.call(I.getattr(g, 'intersection'), [h], {})
                return [(obs(I, x, 'start'), obs(I, x, 'end'),
                         obs(I, x, 'empty')) for x in I.iterate(r)]

            def judge(out, v):
                if out == 'raise':
                    ctx.violation('group-intersection',
                                  'TimeFrameGroup.intersection',
                                  'raises ' + exc_name(v), GL)
                    return
                s, e = max(o['s1'], o['s2']), min(o['e1'], o['e2'])
                exp = [(s, e)] if s < e else []
                rk = lambda l: I.ranks.get(list(lin(l).co)[0])
                got = [(rk(a), rk(b)) for a, b, c in v if not boolean(c)]
                ctx.expect(got == exp and len(v) == len(got),
                           'group-intersection',
                           'TimeFrameGroup.intersection',
                           'order %s sizes %d x %d: %s, expected %s' % (
                               o, n1, n2, v, exp), GL)
            each('group', go, judge)
    for n in (0, 1, 2, 3):
        def go():
            I.ranks = {}
            I.positive = {'th'}
            for i in range(n):
                I.ranks['s%d' % i] = 2 * i
                I.ranks['e%d' % i] = 2 * i + 1
            fs = [mk(I, cls, T('s%d' % i), T('e%d' % i)) for i in range(n)]
            g = I.call(G, [AList(fs)], {})
            up = I.call(I.getattr(g, 'uptime'), [], {})
            k = I.call(I.getattr(g, 'remove_shorter_than'),
                       [atom('num', 'th')], {})
            kept = list(I.iterate(k))
            exp = [f for i, f in enumerate(fs) if sign(
                I, T('e%d' % i).add(T('s%d' % i), -1)
                .add(atom('num', 'th'), -1)) >= 0]
            return up, kept, exp, len(g.items) == n

        def judge(out, v):
            if out == 'raise':
                ctx.violation('group-uptime', 'TimeFrameGroup.uptime/'
                              'remove_shorter_than', 'raises '
                              + exc_name(v), GL)
                return
            up, kept, exp, unch = v
            tot = {}
            for i in range(n):
                tot['e%d' % i], tot['s%d' % i] = 1, -1
            u = lin(up)
            ctx.expect(u.co == tot and u.const == 0, 'group-uptime',
                       'TimeFrameGroup.uptime', '%d frames: uptime is %s'
                       % (n, u), GL)

            def iv(f):
                return repr(obs(I, f, 'start')), repr(obs(I, f, 'end'))
            ctx.expect([iv(f) for f in kept] == [iv(f) for f in exp] and
                       unch, 'group-remove-short',
                       'TimeFrameGroup.remove_shorter_than',
                       'kept %s expected %s' % (kept, exp), GL)
        each('group', go, judge)
    # a group made of calendar periods ------------------------------------
    for n in (0, 1, 3):
        def go():
            I.ranks = {}
            for i in range(n):
                I.ranks['s%d' % i] = 2 * i
                I.ranks['e%d' % i] = 2 * i + 1
            g = I.call(G, [Periods([Period(i) for i in range(n)])], {})
            return [(obs(I, f, 'start'), obs(I, f, 'end'))
                    for f in I.iterate(g)]

        def judge(out, v):
            if out == 'raise':
                ctx.violation('group-of-periods', 'TimeFrameGroup.__init__',
                              'raises ' + exc_name(v), GL)
                return
            ctx.expect([(repr(a), repr(b)) for a, b in v] == [
                (repr(T('s%d' % i)), repr(T('e%d' % i))) for i in range(n)],
                'group-of-periods', 'TimeFrameGroup.__init__',
                '%d periods: %s' % (n, v), GL)
        each('group', go, judge)
    ctx.absorb(I)


class Period(Dom):
    """pandas.Period number `i`"""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def d_truth(self, I):
        return True

    def d_getattr(self, I, n):
        if n in ('start_time', 'end_time'):
            return atom('ts', '%s%d' % (n[0], self.i))
        return NotImplemented


class Periods(Dom):
    """pandas.PeriodIndex"""
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l

    def d_isinstance(self, I, c):
        n = c.name if isinstance(c, Ext) else ''
        return n.rsplit('.', 1)[-1] in ('PeriodIndex', 'Index', 'object')

    def d_truth(self, I):
        I.throw('ValueError', 'The truth value of a PeriodIndex is ambiguous')

    def d_iter(self, I):
        return list(self.l)

    def d_getattr(self, I, n):
        if n in ('start_time', 'end_time'):
            return AList([I.getattr(p, n) for p in self.l])
        return NotImplemented

    def d_len(self, I):
        return len(self.l)
