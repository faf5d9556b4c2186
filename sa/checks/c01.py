"""C01 - TimeFrame intersection and overlap detection are exact interval
algebra.  The method bodies (with every helper inlined) are abstractly
interpreted over the finite domain of orderings of the four bounds: each bound
is None or a rank, so all weak orderings x open/closed/empty/disabled operands
are covered exhaustively; the result is compared with the set-theoretic
intersection."""
import itertools
from values import AObj, AList, short
from domains import atom, weak_orders
from .tfcommon import tf_class, mk, empty_frame, obs, pt, boolean, Unk, \
    exc_name

MIN_OBLIGATIONS = 800
ASSUMPTIONS = ['time stamps are totally ordered and touched only through '
               'comparison, copying and min/max (anything else the '
               'interpreter meets makes the case undecided, not passed)']


def operand_shapes():
    """(start?, end?, mode)"""
    for s in (0, 1):
        for e in (0, 1):
            yield (s, e, 'plain')
    yield (1, 1, 'disabled')
    yield (1, 1, 'empty')


def cases():
    orders = weak_orders(['s1', 'e1', 's2', 'e2'])
    for sh1 in operand_shapes():
        for sh2 in operand_shapes():
            seen = set()
            for o in orders:
                if not (o['s1'] < o['e1'] and o['s2'] < o['e2']):
                    continue
                used = [n for n, u in (('s1', sh1[0]), ('e1', sh1[1]),
                                       ('s2', sh2[0]), ('e2', sh2[1])) if u]
                sig = tuple(tuple((o[a] > o[b]) - (o[a] < o[b])
                                  for b in used) for a in used)
                if sig in seen:
                    continue
                seen.add(sig)
                for i1 in (False, True):
                    for i2 in (False, True):
                        yield sh1, sh2, o, i1, i2


def expected(sh1, sh2, o, i1, i2):
    if 'empty' in (sh1[2], sh2[2]):
        return (None, None, True, None)
    b = []
    for sh, s, e, inc in ((sh1, 's1', 'e1', i1), (sh2, 's2', 'e2', i2)):
        dis = sh[2] == 'disabled'
        b.append((s if sh[0] and not dis else None,
                  e if sh[1] and not dis else None, inc))
    starts = [x[0] for x in b if x[0]]
    ends = [x[1] for x in b if x[1]]
    st = max(starts, key=lambda a: o[a]) if starts else None
    en = min(ends, key=lambda a: o[a]) if ends else None
    if st and en and o[st] >= o[en]:
        return (None, None, True, None)
    inc = None
    if en:
        lim = {x[2] for x in b if x[1] and o[x[1]] == o[en]}
        if len(lim) == 1:
            inc = lim.pop()
    return (st, en, False, inc)


def build(I, cls, shape, s, e, inc):
    if shape[2] == 'empty':
        f = empty_frame(I, cls)
    else:
        f = mk(I, cls, atom('ts', s) if shape[0] else None,
               atom('ts', e) if shape[1] else None)
        if shape[2] == 'disabled':
            I.setattr(f, 'enabled', False)
    I.setattr(f, 'include_end', inc)
    return f


def snapshot(I, f):
    return tuple(obs(I, f, n) for n in ('start', 'end', 'empty',
                                        'include_end', 'enabled'))


def run(ctx):
    I = ctx.interp()
    cls = tf_class(ctx, I)
    C = 'TimeFrame.intersection'
    for sh1, sh2, o, i1, i2 in cases():
        I.ranks = dict(o)
        exp = expected(sh1, sh2, o, i1, i2)
        desc = 'self=%s%s other=%s%s order=%s' % (
            sh1, '+include_end' if i1 else '', sh2,
            '+include_end' if i2 else '',
            '<='.join(sorted(o, key=lambda a: o[a])) + str(o))

        def go():
            I.ranks = dict(o)
            a = build(I, cls, sh1, 's1', 'e1', i1)
            b = build(I, cls, sh2, 's2', 'e2', i2)
            before = snapshot(I, a), snapshot(I, b)
            r = I.call(I.getattr(a, 'intersection'), [b], {})
            after = snapshot(I, a), snapshot(I, b)
            return r, a, b, before == after or \
                list(map(repr, before)) == list(map(repr, after))
        for out, v, tr in I.explore(go):
            ctx.paths += 1
            if out == 'undecided':
                ctx.undecided('intersection', v)
                continue
            if out == 'raise':
                ctx.violation('intersection-total', C, desc + ' raises ' +
                              exc_name(v), '')
                continue
            r, a, b, same = v
            try:
                if not isinstance(r, AObj):
                    raise Unk(short(r))
                got = (pt(obs(I, r, 'start')), pt(obs(I, r, 'end')),
                       boolean(obs(I, r, 'empty')),
                       boolean(obs(I, r, 'include_end')))
            except Unk as e:
                ctx.undecided('intersection', str(e))
                continue
            eq = lambda p, q: (p is None) == (q is None) and (
                p is None or o.get(p) == o.get(q))
            good = eq(got[0], exp[0]) and eq(got[1], exp[1]) and \
                got[2] == exp[2] and (exp[3] is None or got[3] == exp[3])
            ctx.expect(good, 'intersection-exact', C,
                       '%s: got (start=%s,end=%s,empty=%s,include_end=%s), '
                       'expected %s' % ((desc,) + got + (exp,)),
                       'nilmtk/timeframe.py TimeFrame.intersection')
            ctx.expect(same and r is not a and r is not b,
                       'intersection-pure', C,
                       desc + ': operands modified or returned', '')
            ctx.sample('%s -> %s' % (desc, got)) if i1 else None
    # intersection with None: an equal but distinct frame
    for sh1 in operand_shapes():
        for i1 in (False, True):
            def go():
                I.ranks = {'s1': 0, 'e1': 1}
                a = build(I, cls, sh1, 's1', 'e1', i1)
                r = I.call(I.getattr(a, 'intersection'), [None], {})
                return a, r
            for out, v, tr in I.explore(go):
                ctx.paths += 1
                if out == 'undecided':
                    ctx.undecided('intersection-none', v)
                elif out == 'raise':
                    ctx.violation('intersection-none', C,
                                  'intersection(None) raises ' + exc_name(v))
                else:
                    a, r = v
                    s1 = snapshot(I, a)
                    s2 = snapshot(I, r) if isinstance(r, AObj) else None
                    ctx.expect(s2 is not None and
                               list(map(repr, s1)) == list(map(repr, s2))
                               and r is not a,
                               'intersection-none', C,
                               'intersection(None) must be an equal, '
                               'independent frame: %s vs %s' % (s1, s2))
    # overlap check
    C2 = 'TimeFrame.check_for_overlap'
    for sh1, sh2, o, i1, i2 in cases():
        if i1 or i2:
            continue
        exp = expected(sh1, sh2, o, i1, i2)

        def go():
            I.ranks = dict(o)
            a = build(I, cls, sh1, 's1', 'e1', i1)
            b = build(I, cls, sh2, 's2', 'e2', i2)
            I.facts['ready'] = True
            return I.call(I.getattr(a, 'check_for_overlap'), [b], {})
        for out, v, tr in I.explore(go):
            ctx.paths += 1
            if out == 'undecided':
                ctx.undecided('overlap', v)
                continue
            want = not exp[2]
            got = out == 'raise'
            ok = got == want and (not got or exc_name(v) == 'ValueError')
            ctx.expect(ok, 'overlap-iff-intersect', C2,
                       'self=%s other=%s order=%s: %s but frames %s' % (
                           sh1, sh2, o,
                           'raised ' + exc_name(v) if got else 'no error',
                           'overlap' if want else 'do not overlap'))
    groups(ctx, I, cls)
    ctx.absorb(I)


# ------------------------------------------------------------------- groups
#   (start, end, how, include_end) over the ranks 0..9
FRAMES = [(0, 4, 'plain', False), (2, 6, 'plain', True),
          (6, 9, 'plain', False), (None, 3, 'plain', True),
          (7, None, 'plain', False), (None, None, 'plain', False),
          (3, 5, 'disabled', False), (1, 8, 'empty', False)]
SMALL = [(1, 2, 'plain', False), (3, 5, 'plain', True),
         (5, 8, 'plain', False), (2, 7, 'plain', False)]
HUGE = 99


def pairs():
    one = [[f] for f in FRAMES]
    two = [list(x) for x in itertools.permutations(FRAMES, 2)]
    three = [list(x) for x in itertools.permutations(SMALL, 3)]
    for a in [[]] + one + two[::3]:
        for b in [[]] + one + two[::5] + [[FRAMES[1]] * 2]:
            yield a, b
    for a in one + two[::5]:
        for b in three:
            yield a, b
            yield b, a


def span(f):
    if f[2] == 'disabled':
        return (-HUGE, HUGE)
    return (-HUGE if f[0] is None else f[0], HUGE if f[1] is None else f[1])


def cells(frs):
    """the gaps between ranks which are covered"""
    at = [-HUGE] + list(range(10))
    out = set()
    for s, e in frs:
        out |= {i for i in at if s <= i < e}
    return out


def groups(ctx, I, cls):
    G = ctx.anchor(I, 'nilmtk.timeframegroup.TimeFrameGroup')
    C = 'TimeFrameGroup.intersection'
    LOC = 'nilmtk/timeframegroup.py'
    ranks = {'r%d' % i: i for i in range(10)}
    T = lambda i: None if i is None else atom('ts', 'r%d' % i)

    def frame(f):
        if f[2] == 'empty':
            x = empty_frame(I, cls)
        else:
            x = mk(I, cls, T(f[0]), T(f[1]))
            if f[2] == 'disabled':
                I.setattr(x, 'enabled', False)
        I.setattr(x, 'include_end', f[3])
        return x
    for n, (a, b) in enumerate(pairs()):
        def go():
            I.ranks = dict(ranks)
            fa, fb = [frame(f) for f in a], [frame(f) for f in b]
            g = I.call(G, [AList(list(fa))], {})
            h = AList(list(fb))
            if n % 3:
                h = I.call(G, [h], {})
            before = [list(map(repr, snapshot(I, x))) for x in fa + fb]
            r = I.call(I.getattr(g, 'intersection'), [h], {})
            same = before == [list(map(repr, snapshot(I, x)))
                              for x in fa + fb]
            same = same and [x for x in I.iterate(g)] == fa and \
                [x for x in I.iterate(h)] == fb
            return [snapshot(I, x) for x in I.iterate(r)], same
        d = '%s & %s' % (a, b)
        for out, v, tr in I.explore(go):
            ctx.paths += 1
            if out == 'undecided':
                ctx.undecided(C, v)
                continue
            if out == 'raise':
                ctx.violation('group-total', C, d + ' raises ' + exc_name(v),
                              LOC)
                continue
            try:
                got = []
                for s, e, empty, inc, en in v[0]:
                    if boolean(empty):
                        continue
                    s, e = pt(s), pt(e)
                    got.append((-HUGE if s is None else ranks[s],
                                HUGE if e is None else ranks[e],
                                boolean(inc)))
            except Unk as x:
                ctx.undecided(C, str(x))
                continue
            want = cells([span(f) for f in a if f[2] != 'empty']) & \
                cells([span(f) for f in b if f[2] != 'empty'])
            have = cells([x[:2] for x in got])
            ctx.expect(want == have, 'group-exact', C,
                       '%s covers %s, not %s' % (d, sorted(have),
                                                 sorted(want)), LOC)
            for s, e, inc in got:
                marks = {f[3] for f in a + b if f[2] != 'empty' and
                         span(f)[1] == e}
                if len(marks) == 1 and e != HUGE:
                    ctx.expect(inc in marks, 'group-include-end', C,
                               '%s: the end %s is %sincluded' % (
                                   d, e, '' if inc else 'not '), LOC)
            ctx.expect(v[1], 'group-pure', C, d + ': operands modified', LOC)
