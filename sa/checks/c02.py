"""C02 - a TimeFrame is always a well-formed interval and its value semantics
are coherent: construction, setters, disabling, truth value, equality, hash,
ordering, duration, dict round trip and copying.  Abstract interpretation of
the class over all orderings of the bounds involved."""
from values import AObj, Ext, Opq, AList, short, key_of
from domains import atom, weak_orders, Lin
from interp import AbstractRaise
from .tfcommon import tf_class, mk, empty_frame, obs, pt, boolean, Unk, \
    exc_name

MIN_OBLIGATIONS = 300
ASSUMPTIONS = ['time stamps are totally ordered; pandas.Timestamp is the '
               'identity on time stamps and inverts isoformat/str']
NAT = Ext('pandas.NaT')


def bound(kind, name):
    if kind == 'text':
        return Opq('iso', (atom('ts', name),), types={'str'})
    return {'none': None, 'nat': NAT, 'ts': atom('ts', name)}[kind]


def attempt(I, fn):
    try:
        return ('return', fn())
    except AbstractRaise as e:
        return ('raise', exc_name(e.exc))


def run(ctx):
    I = ctx.interp()
    cls = tf_class(ctx, I)
    LOC = 'nilmtk/timeframe.py TimeFrame'

    def each(rule, go, judge):
        for out, v, tr in I.explore(go):
            ctx.paths += 1
            if out == 'undecided':
                ctx.undecided(rule, v)
            else:
                try:
                    judge(out, v)
                except Unk as e:
                    ctx.undecided(rule, str(e))

    orders2 = weak_orders(['s', 'e'])
    # a. construction -----------------------------------------------------
    for ks in ('none', 'nat', 'ts'):
        for ke in ('none', 'nat', 'ts'):
            for o in orders2:
                def go():
                    I.ranks = dict(o)
                    f = mk(I, cls, bound(ks, 's'), bound(ke, 'e'))
                    return [obs(I, f, n) for n in (
                        'start', 'end', 'empty', 'include_end', 'enabled')]

                def judge(out, v):
                    bad = ks == ke == 'ts' and o['s'] >= o['e']
                    d = 'TimeFrame(%s, %s) order %s' % (ks, ke, o)
                    if bad:
                        ctx.expect(out == 'raise' and
                                   exc_name(v) == 'ValueError',
                                   'construct-rejects-inverted',
                                   'TimeFrame.__init__',
                                   d + ' -> %s' % short(v), LOC)
                    elif out == 'raise':
                        ctx.violation('construct-accepts-valid',
                                      'TimeFrame.__init__',
                                      d + ' raises ' + exc_name(v), LOC)
                    else:
                        w = (pt(v[0]), pt(v[1]), boolean(v[2]),
                             boolean(v[3]), boolean(v[4]))
                        ctx.expect(w == ('s' if ks == 'ts' else None,
                                         'e' if ke == 'ts' else None,
                                         False, False, True),
                                   'construct-stores-bounds',
                                   'TimeFrame.__init__',
                                   d + ' -> %s' % (w,), LOC)
                each('construct', go, judge)
    # a'. bounds given as text ----------------------------------------------
    for ks, ke in (('text', 'none'), ('none', 'text'), ('text', 'ts'),
                   ('ts', 'text'), ('text', 'text')):
        for how in ('construct', 'set'):
            def go():
                I.ranks = {'s': 0, 'e': 1}
                s, e = bound(ks, 's'), bound(ke, 'e')
                if how == 'construct':
                    f = mk(I, cls, s, e)
                else:
                    f = mk(I, cls, None, None)
                    if s is not None:
                        I.setattr(f, 'start', s)
                    if e is not None:
                        I.setattr(f, 'end', e)
                return obs(I, f, 'start'), obs(I, f, 'end')

            def judge(out, v):
                d = '%s TimeFrame(%s, %s)' % (how, ks, ke)
                if out == 'raise':
                    ctx.violation('text-bounds', 'TimeFrame.__init__',
                                  d + ' raises ' + exc_name(v), LOC)
                    return
                want = [None if k == 'none' else atom('ts', n)
                        for k, n in ((ks, 's'), (ke, 'e'))]
                ctx.expect(all(
                    (x is None) == (w is None) and (
                        w is None or isinstance(x, Lin) and x.co == w.co and
                        x.const == w.const) for x, w in zip(v, want)),
                    'text-bounds', 'TimeFrame.start/end', '%s has bounds %s: '
                    'not time stamps' % (d, short(v)), LOC)
            each('text bounds', go, judge)
    # b. setters ------------------------------------------------------------
    for which in ('start', 'end'):
        for ks in ('none', 'ts'):
            for ke in ('none', 'ts'):
                for kx in ('none', 'nat', 'ts'):
                    for o in weak_orders(['s', 'e', 'x']):
                        if o['s'] >= o['e']:
                            continue

                        def go():
                            I.ranks = dict(o)
                            f = mk(I, cls, bound(ks, 's'), bound(ke, 'e'))
                            r = attempt(I, lambda: I.setattr(
                                f, which, bound(kx, 'x')))
                            return r, obs(I, f, 'start'), obs(I, f, 'end')

                        def judge(out, v):
                            if out == 'raise':
                                raise Unk('build')
                            r, s, e = v
                            s, e = pt(s), pt(e)
                            s0 = 's' if ks == 'ts' else None
                            e0 = 'e' if ke == 'ts' else None
                            other = e0 if which == 'start' else s0
                            bad = kx == 'ts' and other is not None and (
                                o['x'] >= o['e'] if which == 'start'
                                else o['x'] <= o['s'])
                            new = 'x' if kx == 'ts' else None
                            exp = (s0, e0) if bad else (
                                (new, e0) if which == 'start'
                                else (s0, new))
                            ok = (r[0] == 'raise') == bad and (
                                not bad or r[1] == 'ValueError') and \
                                (s, e) == exp
                            ctx.expect(ok, 'setter-keeps-start-before-end',
                                       'TimeFrame.%s' % which,
                                       'frame(%s,%s) set %s=%s order %s: %s '
                                       '-> (%s,%s), expected %s%s' % (
                                           s0, e0, which, new, o, r, s, e,
                                           exp, ' with ValueError'
                                           if bad else ''), LOC)
                        each('setter', go, judge)
    I.ranks = {'s': 0, 'e': 1}

    # c. disabled ----------------------------------------------------------
    def go():
        f = mk(I, cls, atom('ts', 's'), atom('ts', 'e'))
        I.setattr(f, 'enabled', False)
        a = (obs(I, f, 'start'), obs(I, f, 'end'))
        I.setattr(f, 'enabled', True)
        return a, (obs(I, f, 'start'), obs(I, f, 'end'))

    def judge(out, v):
        if out == 'raise':
            ctx.violation('disabled-is-unbounded', 'TimeFrame.enabled',
                          'raises ' + exc_name(v), LOC)
            return
        a, b = v
        ctx.expect((pt(a[0]), pt(a[1])) == (None, None),
                   'disabled-is-unbounded', 'TimeFrame.enabled',
                   'a disabled frame reports %s' % (a,), LOC)
        ctx.expect((pt(b[0]), pt(b[1])) == ('s', 'e'),
                   're-enable-restores', 'TimeFrame.enabled',
                   're-enabled frame reports %s' % (b,), LOC)
    each('disabled', go, judge)

    # d. truth value, duration ---------------------------------------------
    shapes = [(0, 0, 'p'), (0, 1, 'p'), (1, 0, 'p'), (1, 1, 'p'),
              (1, 1, 'empty'), (1, 1, 'disabled')]

    def build(sh, s='s', e='e'):
        if sh[2] == 'empty':
            return empty_frame(I, cls)
        f = mk(I, cls, atom('ts', s) if sh[0] else None,
               atom('ts', e) if sh[1] else None)
        if sh[2] == 'disabled':
            I.setattr(f, 'enabled', False)
        return f
    for sh in shapes:
        def go():
            I.ranks = {'s': 0, 'e': 1}
            f = build(sh)
            t = I.truth(f)
            return t, obs(I, f, 'timedelta')

        def judge(out, v):
            bounded = (sh[0] or sh[1]) and sh[2] == 'p'
            if out == 'raise':
                ctx.violation('truth-value', 'TimeFrame.__bool__',
                              '%s raises %s' % (sh, exc_name(v)), LOC)
                return
            t, td = v
            ctx.expect(t == bool(bounded), 'truth-value',
                       'TimeFrame.__bool__',
                       'bool(frame %s) is %s; a frame is true iff it is not '
                       'empty and has a bound' % (sh, t), LOC)
            if sh == (1, 1, 'p'):
                ok = isinstance(td, Lin) and td.co == {'e': 1, 's': -1} \
                    and td.const == 0
                if isinstance(td, Opq):
                    raise Unk(short(td))
            elif sh[2] == 'empty':
                ok = isinstance(td, Lin) and not td.co and td.const == 0
            else:
                ok = td is None
            ctx.expect(ok, 'duration', 'TimeFrame.timedelta',
                       'timedelta of frame %s is %s' % (sh, short(td)), LOC)
        each('truth', go, judge)

    # e. equality, hash, order ------------------------------------------------
    for sh1 in shapes:
        for sh2 in shapes:
            seen = set()
            for o in weak_orders(['s', 'e', 's2', 'e2']):
                if o['s'] >= o['e'] or o['s2'] >= o['e2']:
                    continue
                used = [n for n, u in (('s', sh1[0]), ('e', sh1[1]),
                                       ('s2', sh2[0]), ('e2', sh2[1])) if u]
                sig = tuple(o[a] - o[b] > 0 or (o[a] == o[b]) * 2
                            for a in used for b in used)
                if sig in seen:
                    continue
                seen.add(sig)

                def go():
                    I.ranks = dict(o)
                    a, b = build(sh1), build(sh2, 's2', 'e2')
                    I.ranks.update(o)
                    r = {}
                    for op in ('==', '!=', '<', '<=', '>', '>='):
                        r[op] = attempt(I, lambda: I.truth(
                            I.compare(op, a, b)))
                    ha = attempt(I, lambda: I.call(
                        Ext('builtins.hash'), [a], {}))
                    hb = attempt(I, lambda: I.call(
                        Ext('builtins.hash'), [b], {}))
                    return r, ha, hb

                def norm(k):
                    """hash term with atoms replaced by ranks"""
                    if isinstance(k, Opq):
                        return (k.op,) + tuple(norm(x) for x in k.args)
                    if isinstance(k, Lin):
                        return ('t',) + tuple(sorted(
                            (o.get(n, n), str(c))
                            for n, c in k.co.items()))
                    if isinstance(k, tuple):
                        return tuple(norm(x) for x in k)
                    return repr(k)

                def judge(out, v):
                    if out == 'raise':
                        raise Unk('build')
                    r, ha, hb = v
                    lim = lambda sh, n: None if (not sh[n] or
                                                 sh[2] != 'p') else 1
                    A = tuple(o[n] if lim(sh1, i) else None
                              for i, n in enumerate(('s', 'e'))) + \
                        (sh1[2] == 'empty',)
                    B = tuple(o[n] if lim(sh2, i) else None
                              for i, n in enumerate(('s2', 'e2'))) + \
                        (sh2[2] == 'empty',)
                    eq = A == B
                    d = '%s vs %s order %s' % (sh1, sh2, o)
                    ctx.expect(r['=='] == ('return', eq) and
                               r['!='] == ('return', not eq),
                               'equality', 'TimeFrame.__eq__',
                               '%s: == gives %s, != gives %s, expected eq=%s'
                               % (d, r['=='], r['!='], eq), LOC)
                    lt = (A[0] is None and B[0] is not None) or (
                        A[0] is not None and B[0] is not None and
                        A[0] < B[0])
                    ctx.expect(r['<'] == ('return', lt), 'order',
                               'TimeFrame.__lt__', '%s: < gives %s, '
                               'expected %s' % (d, r['<'], lt), LOC)
                    gt = (B[0] is None and A[0] is not None) or (
                        A[0] is not None and B[0] is not None and
                        B[0] < A[0])
                    if lt or gt:
                        ctx.expect(r['>'] == ('return', gt) and
                                   r['<='] == ('return', lt) and
                                   r['>='] == ('return', gt), 'order',
                                   'TimeFrame ordering',
                                   '%s: %s' % (d, r), LOC)
                    if eq:
                        ctx.expect(ha[0] == hb[0] == 'return' and
                                   norm(ha[1]) == norm(hb[1]),
                                   'equal-implies-same-hash',
                                   'TimeFrame.__hash__',
                                   '%s: %s vs %s' % (d, ha, hb), LOC)
                each('equality', go, judge)

    # f. dict round trip --------------------------------------------------
    conv = [('TimeFrame.to_dict/from_dict',
             lambda f: I.call(I.getattr(cls, 'from_dict'),
                              [I.call(I.getattr(f, 'to_dict'), [], {})],
                              {}))]
    ft = ctx.anchor(I, 'nilmtk.timeframe.list_of_timeframe_dicts')
    fb = ctx.anchor(I, 'nilmtk.timeframe.'
                       'list_of_timeframes_from_list_of_dicts')
    conv.append(('list_of_timeframe_dicts round trip',
                 lambda f: I.getitem(I.call(fb, [I.call(
                     ft, [AList([f])], {})], {}), 0)))
    for name, fn in conv:
        for sh in shapes[:4]:
            def go():
                I.ranks = {'s': 0, 'e': 1}
                g = fn(build(sh))
                return obs(I, g, 'start'), obs(I, g, 'end')

            def judge(out, v):
                if out == 'raise':
                    ctx.violation('dict-round-trip', name, '%s raises %s'
                                  % (sh, exc_name(v)), LOC)
                    return
                got = pt(v[0]), pt(v[1])
                ctx.expect(got == ('s' if sh[0] else None,
                                   'e' if sh[1] else None),
                           'dict-round-trip', name,
                           '%s -> %s' % (sh, got), LOC)
            each('dict', go, judge)

    # g. copy construction ----------------------------------------------------
    for sh in shapes:
        for inc in (False, True):
            def go():
                I.ranks = {'s': 0, 'e': 1, 'x': -1}
                f = build(sh)
                I.setattr(f, 'include_end', inc)
                g = I.call(cls, [f], {})
                a = [repr(obs(I, h, n)) for h in (f, g) for n in (
                    'start', 'end', 'empty', 'include_end', 'enabled')]
                if sh == (1, 1, 'p'):
                    I.setattr(g, 'start', atom('ts', 'x'))
                    return a, pt(obs(I, f, 'start')), g is f
                return a, 's', g is f

            def judge(out, v):
                if out == 'raise':
                    ctx.violation('copy-constructor', 'TimeFrame.__init__',
                                  '%s raises %s' % (sh, exc_name(v)), LOC)
                    return
                a, s, same = v
                ctx.expect(a[:5] == a[5:] and s == 's' and not same,
                           'copy-constructor', 'TimeFrame.__init__',
                           'copy of %s differs: %s vs %s (or shares state)'
                           % (sh, a[:5], a[5:]), LOC)
            each('copy', go, judge)

    # h. time zone ------------------------------------------------------------
    for sh in shapes[:4]:
        def go():
            I.ranks = {'s': 0, 'e': 1}
            tz = 'Europe/London'
            f = I.call(cls, [atom('ts', 's') if sh[0] else None,
                             atom('ts', 'e') if sh[1] else None], {'tz': tz})
            return obs(I, f, 'start'), obs(I, f, 'end')

        def judge(out, v):
            if out == 'raise':
                ctx.violation('tz-localises', 'TimeFrame.__init__',
                              '%s raises %s' % (sh, exc_name(v)), LOC)
                return
            for b, u, n in zip(v, sh, 'se'):
                if not u:
                    ctx.expect(b is None, 'tz-localises',
                               'TimeFrame.__init__', 'bound appeared', LOC)
                else:
                    pt(b)
                    ctx.expect(b.tz == 'Europe/London' and pt(b) == n,
                               'tz-localises', 'TimeFrame.__init__',
                               'bound %s has tz %r' % (b, b.tz), LOC)
        each('tz', go, judge)
    ctx.absorb(I)
