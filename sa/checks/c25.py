"""C25  The helpers the package is written with keep their meaning."""
import itertools
import math
from .tablecommon import *
from .c10 import T, offset
from .c12 import name
import models as M
from graphmodel import GM, Graph
from values import Dom, Ext
from domains import atom, lift

EXPLANATION = (
    'The helpers of nilmtk.utils are interpreted on enumerated lists, '
    'containers, trees, times and dicts, and what they return compared with '
    'an independent definition.')
ASSUMPTIONS = ['the models of pandas, networkx and the standard library in '
               'sa/ describe the installed versions']
LIMITS = ('Time zones are symbols: which instant a local time is, is left to '
          'pandas.')
MIN_OBLIGATIONS = 300
LOC = 'nilmtk/utils.py'
U = 'nilmtk.utils.'
A, B = 'a', 'b'


def run(ctx):
    I = ctx.interp(models=dict(TM, **GM))
    for n in ('flatten_2d_list', 'simplest_type_for', 'append_or_extend_list',
              'convert_to_list', 'container_to_string', 'most_common',
              'capitalise_first_letter', 'index_of_column_name', 'get_index',
              'tree_root', 'nodes_adjacent_to_root', 'convert_to_timestamp',
              'timestamp_is_naive', 'tz_localize_naive', 'get_tz',
              'normalise_timestamp', 'offset_alias_to_seconds',
              'timedelta64_to_secs', 'dict_to_html',
              'check_directory_exists', 'find_nearest'):
        ctx.anchor(I, U + n)
    lists(ctx, I)
    trees(ctx, I)
    columns(ctx, I)
    times_(ctx, I)
    spans(ctx, I)
    folder(ctx, I)
    html(ctx, I)
    nearest(ctx, I)
    ctx.absorb(I)


def agree(x, y):
    """same type and value, all the way down"""
    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(
            agree(a, b) for a, b in zip(x, y))
    if isinstance(x, float) and x != x:
        return isinstance(y, float) and y != y
    return type(x) is type(y) and x == y


def check(ctx, I, fn, args, want, err=None, view=None):
    """want: the value; err: names of the exceptions due instead"""
    what = '%s(%s)' % (fn, ', '.join(short(x) for x in args))

    def go():
        a = [aval(x) for x in args]
        r = I.call(I.get(U + fn), a, {})
        return (r, a)
    for o, v, tr in each(ctx, I, fn, go):
        if o != 'return':
            ctx.expect(err is not None and name(v)[7:] in err, 'helper', fn,
                       '%s %s, expected %s' % (
                           what, name(v), err or short(want)), LOC)
            continue
        if err is not None:
            ctx.violation('helper', fn, '%s returns %s, expected %s' % (
                what, short(v[0]), ' or '.join(err)), LOC)
            continue

        def look():
            got = pyval((view or (lambda I, r, a: r))(I, *v))
            ctx.expect(agree(got, want), 'helper', fn, '%s gives %s, '
                       'expected %s' % (what, short(got), short(want)), LOC)
        guard(ctx, fn, look)


# ---------------------------------------------------------------- containers
def lists(ctx, I):
    items = [1, 'ab', '', None, [], [1, 2], (3,), ['xy', 'z'], [[4]], (5, 'q')]
    for n in (0, 1, 2, 3):
        for c in itertools.product(items, repeat=n):
            if n == 3 and ctx.tier != 'thorough' and (
                    items.index(c[0]) + 3 * items.index(c[1]) +
                    7 * items.index(c[2])) % 11:
                continue
            flat = []
            for x in c:
                flat.extend(x) if isinstance(x, (list, tuple)) else \
                    flat.append(x)
            check(ctx, I, 'flatten_2d_list', [list(c)], flat)
    for c in ([], [1], [1, 2], ['a'], ['a', 'b', 'c'], [None], [[1]],
              [[1], [2]]):
        want = None if not c else c[0] if len(c) == 1 else tuple(c)
        check(ctx, I, 'simplest_type_for', [c], want)
        check(ctx, I, 'simplest_type_for', [tuple(c)], want)
    check(ctx, I, 'simplest_type_for', ['k'], 'k')
    for c in ([], [1], [1, 'x']):
        for x, w in ((None, []), ([], []), ([4], [4]), ([4, 5], [4, 5]),
                     (0, [0]), ('', ['']), ('ab', ['ab']), ((1, 2), [(1, 2)]),
                     ([None], [None]), (False, [False])):
            check(ctx, I, 'append_or_extend_list', [c, x], c + w,
                  view=lambda I, r, a: a[0])
    for x, w in ((None, []), ([], []), ([1, 2], [1, 2]), ((3, 'a'), [3, 'a']),
                 ('ab', ['a', 'b'])):
        check(ctx, I, 'convert_to_list', [x], w)
    for x, w in (('abc', 'abc'), ('', ''), (['a', 'b'], 'a_b'), ([], ''),
                 ((1, 'x', 2), '1_x_2'), (5, '5'), (None, 'None'),
                 (('q',), 'q')):
        check(ctx, I, 'container_to_string', [x], w)
        if not isinstance(x, str) and isinstance(x, (list, tuple)):
            check(ctx, I, 'container_to_string', [x, '-'],
                  w.replace('_', '-'))
    check(ctx, I, 'container_to_string', ['a_b', '-'], 'a_b')
    for c in itertools.product('abc', repeat=5):
        n = sorted(((c.count(x), x) for x in set(c)), reverse=True)
        if len(n) > 1 and n[0][0] == n[1][0]:
            continue
        if ctx.tier == 'thorough' or hash5(c) % 5 == 0:
            check(ctx, I, 'most_common', [list(c)], n[0][1])
    check(ctx, I, 'most_common', [(7, 7, 9)], 7)
    check(ctx, I, 'most_common', [[4]], 4)
    for x, w in (('fridge', 'Fridge'), ('Kettle', 'Kettle'), ('x', 'X'),
                 ('washer dryer', 'Washer dryer'), ('hTPC', 'HTPC'),
                 ('LED lamp', 'LED lamp'), ('2 pin', '2 pin')):
        check(ctx, I, 'capitalise_first_letter', [x], w)
    check(ctx, I, 'capitalise_index', [['fridge', 'air pump', 'HTPC']],
          ['Fridge', 'Air pump', 'HTPC'])


def hash5(c):
    return sum((i + 1) * ord(x) for i, x in enumerate(c))


# -------------------------------------------------------------------- graphs
def trees(ctx, I):
    """all directed graphs of up to four nodes made of parent choices"""
    for n in (1, 2, 3, 4):
        for par in itertools.product([None] + list(range(n)), repeat=n):
            if any(p == i for i, p in enumerate(par)):
                continue
            roots = [i for i, p in enumerate(par) if p is None]

            def graph():
                g = Graph()
                for i in range(n):
                    g.add(I, 'n%d' % i)
                e = I.getattr(g, 'add_edge')
                for i, p in enumerate(par):
                    if p is not None:
                        I.call(e, ['n%d' % p, 'n%d' % i], {})
                return g
            kids = sorted('n%d' % i for i, p in enumerate(par)
                          if roots and p == roots[0])
            for fn, want in (('tree_root', roots and 'n%d' % roots[0]),
                             ('nodes_adjacent_to_root', kids)):
                def go():
                    r = I.call(I.get(U + fn), [graph()], {})
                    if fn != 'tree_root':
                        r = AList(list(I.iterate(r)))
                    return r
                what = '%s of parents %s' % (fn, par)
                for o, v, tr in each(ctx, I, fn, go):
                    if o != 'return':
                        ctx.expect(len(roots) != 1 and
                                   name(v) == 'raises RuntimeError', 'tree', fn,
                                   '%s %s' % (what, name(v)), LOC)
                        continue

                    def look():
                        got = pyval(v)
                        if isinstance(got, list):
                            got = sorted(got)
                        ctx.expect(len(roots) == 1 and got == want, 'tree',
                                   fn, '%s gives %s, expected %s' % (
                                       what, got, want if len(roots) == 1
                                       else 'RuntimeError'), LOC)
                    guard(ctx, fn, look)


# ------------------------------------------------------------------- columns
def columns(ctx, I):
    POW, EN = ('power', 'active'), ('energy', 'apparent')
    for cols in ([POW], [EN, POW], [POW, EN, ('power', 'reactive')]):
        def frame():
            return mkframe([T(0), T(6)], cols)
        for c in [POW, EN, ('power', 'reactive'), 'power']:
            fn = 'index_of_column_name'

            def go():
                return I.call(I.get(U + fn), [frame(), aval(c)], {})
            for o, v, tr in each(ctx, I, fn, go):
                what = '%s of %s in %s' % (fn, c, cols)
                if o != 'return':
                    ctx.expect(c not in cols and name(v) == 'raises KeyError',
                               'column', fn, '%s %s' % (
                                   what, name(v)), LOC)
                else:
                    guard(ctx, fn, lambda: ctx.expect(
                        c in cols and pyval(v) == cols.index(c), 'column', fn,
                        '%s is %s' % (what, short(v)), LOC))

        fn = 'get_index'
        for kind in ('frame', 'series', 'index', 'list', None):
            def go():
                f = frame()
                x = f if kind == 'frame' else \
                    I.getattr(f, 'index') if kind == 'index' else \
                    AList([T(0)]) if kind == 'list' else \
                    None if kind is None else f.column(0) \
                    if hasattr(f, 'column') else I.getitem(f, cols[0])
                r = I.call(I.get(U + fn), [x], {})
                return AList(list(I.iterate(r)))
            for o, v, tr in each(ctx, I, fn, go):
                what = '%s of a %s' % (fn, kind)
                if o != 'return':
                    ctx.expect(kind in ('list', None) and
                               name(v) == 'raises TypeError', 'column', fn,
                               '%s %s' % (what, name(v)), LOC)
                else:
                    guard(ctx, fn, lambda: ctx.expect(
                        [offset(x) for x in v.items] == [0, 6] and
                        kind not in ('list', None), 'column', fn,
                        '%s is %s' % (what, short(v)), LOC))


# --------------------------------------------------------------------- times
class Zoned(Dom):
    """a datetime of the standard library; zone: None, 'none' (a zone which
    gives no offset) or a zone"""
    __slots__ = ('zone',)

    def __init__(self, zone):
        self.zone = zone

    def d_getattr(self, I, nm):
        if nm == 'tzinfo':
            return None if self.zone is None else Zone(self.zone)
        if nm == 'utcoffset':
            return Zone(self.zone).d_getattr(I, 'utcoffset')
        return NotImplemented


class Zone(Dom):
    __slots__ = ('zone',)

    def __init__(self, zone):
        self.zone = zone

    def d_key(self):
        return ('zone', self.zone)

    def d_truth(self, I):
        return True

    def d_getattr(self, I, nm):
        if nm == 'utcoffset':
            # zones have no offset apart from a time
            return Native(lambda I, a, k: None if self.zone in (None, 'none')
                          or a and a[0] is None else lift(0), nm)
        return NotImplemented


class Stamp(Dom):
    """the local time t: read in the zone `at`, shown in the zone tz"""
    __slots__ = ('at', 'tz')

    def __init__(self, at=None, tz=None):
        self.at, self.tz = at, tz

    def __repr__(self):
        return 't' if self.at is None else 't(%s) in %s' % (self.at, self.tz)

    def d_key(self):
        return ('stamp', self.at, self.tz)

    def d_truth(self, I):
        return True

    def d_isinstance(self, I, c):
        return isinstance(c, Ext) and c.name in (
            'pandas.Timestamp', 'datetime.datetime', 'builtins.object')

    def d_getattr(self, I, nm):
        if nm in ('tz', 'tzinfo'):
            return None if self.at is None else Zone(self.tz)
        if nm == 'utcoffset':
            return Zone(self.at).d_getattr(I, nm)
        if nm in ('tz_localize', 'tz_convert'):
            def go(I, a, k):
                tz = a[0] if a else k.get('tz')
                if isinstance(tz, Zone):
                    tz = tz.zone
                if tz is not None and not isinstance(tz, str):
                    raise Undecided('zone %s' % short(tz))
                if (nm == 'tz_localize') == (self.at is not None) and not (
                        nm == 'tz_localize' and tz is None):
                    I.throw('TypeError', nm)
                if tz is None:
                    raise Undecided(nm + ' to None')
                return Stamp(tz, tz) if nm == 'tz_localize' else \
                    Stamp(self.at, tz)
            return Native(go, nm)
        return NotImplemented


def times_(ctx, I):
    stamp, null = I.models.get('pandas.Timestamp'), \
        I.models.get('pandas.isnull')

    def timestamp(I, a, k):
        if a and isinstance(a[0], Stamp):
            tz = a[1] if len(a) > 1 else k.get('tz')
            if tz is None:
                return a[0]
            return I.call(I.getattr(a[0], 'tz_localize' if a[0].at is None
                                    else 'tz_convert'), [tz], {})
        if a and isinstance(a[0], Zoned):
            return Stamp(a[0].zone, a[0].zone)
        return (stamp or M.MODELS['pandas.Timestamp'])(I, a, k)

    def isnull(I, a, k):
        return False if isinstance(a[0], (Stamp, Zoned)) else \
            (null or M.MODELS['pandas.isnull'])(I, a, k)
    I.models.update({'pandas.Timestamp': timestamp,
                     'pandas.to_datetime': timestamp,
                     'pandas.isnull': isnull, 'pandas.isna': isnull})
    fn = 'timestamp_is_naive'
    for z in (None, 'none', 'zone'):
        for o, v, tr in each(ctx, I, fn, lambda: I.call(
                I.get(U + fn), [Zoned(z)], {})):
            ctx.expect(o == 'return' and v is (z != 'zone'), 'time', fn,
                       'a time with time zone %s: %s' % (z, short(v)), LOC)
    for z in (None, 'UTC', 'Europe/London'):
        for o, v, tr in each(ctx, I, fn, lambda: I.call(
                I.get(U + fn), [Stamp(z, z)], {})):
            ctx.expect(o == 'return' and v is (z is None), 'time', fn,
                       'a timestamp in %s: %s' % (z, short(v)), LOC)
    NAT = Ext('pandas.NaT')
    fn = 'tz_localize_naive'
    for z in (None, 'UTC', 'Europe/London'):
        for tz in (None, 'UTC', 'America/New_York'):
            for t in ('t', None, NAT):
                x = Stamp(z, z) if t == 't' else t
                for o, v, tr in each(ctx, I, fn, lambda: I.call(
                        I.get(U + fn), [x, tz], {})):
                    what = '%s for %s' % (short(x), tz)
                    if o != 'return':
                        ctx.violation('time', fn, '%s %s' % (
                            what, name(v)), LOC)
                    elif tz is None:
                        ctx.expect(v is x or isinstance(v, Stamp) and
                                   v.d_key() == x.d_key() or nat(v) and
                                   nat(x), 'time', fn, '%s: %s' % (
                                       what, short(v)), LOC)
                    elif t != 't':
                        ctx.expect(nat(v), 'time', fn, '%s: %s' % (
                            what, short(v)), LOC)
                    else:
                        ctx.expect(isinstance(v, Stamp) and
                                   (v.at, v.tz) == (z or 'UTC', tz), 'time',
                                   fn, '%s: %s' % (what, short(v)), LOC)
    # a datetime of the standard library
    for z in (None, 'UTC', 'Europe/London'):
        for o, v, tr in each(ctx, I, fn, lambda: I.call(
                I.get(U + fn), [Zoned(z), 'America/New_York'], {})):
            ctx.expect(o == 'return' and isinstance(v, Stamp) and
                       (v.at, v.tz) == (z or 'UTC', 'America/New_York'),
                       'time', fn, 'a datetime in %s: %s' % (z, short(v)),
                       LOC)
    fn = 'convert_to_timestamp'
    for t in (None, '2012-01-01', Stamp(), Stamp('UTC', 'UTC')):
        for o, v, tr in each(ctx, I, fn, lambda: I.call(
                I.get(U + fn), [t], {})):
            ok = o == 'return' and (
                v is None if t is None else same(v, atom(
                    'ts', "'%s'" % t), None) if isinstance(t, str)
                else isinstance(v, Stamp) and v.d_key() == t.d_key())
            ctx.expect(ok, 'time', fn, '%s: %s' % (short(t), short(v)), LOC)
    fn = 'get_tz'
    for z in (None, 'UTC', 'Europe/London'):
        def go():
            return I.call(I.get(U + fn), [mkframe(
                times(2, tz=z), [('power', 'active')])], {})
        for o, v, tr in each(ctx, I, fn, go):
            ctx.expect(o == 'return' and str(v) == str(z),
                       'time', fn, 'of rows in %s: %s' % (z, short(v)), LOC)


def spans(ctx, I):
    import re
    from csvmodel import regex
    I.models.update({'re.' + n: regex(n) for n in
                     ('sub', 'search', 'match', 'fullmatch', 'findall')})
    fn = 'offset_alias_to_seconds'
    for n, f in itertools.product(('', '1', '2', '5', '30'),
                                  ('D', 'h', 'H', 'min', 'T', 's', 'S')):
        w = int(n or 1) * {'D': 86400, 'h': 3600, 'm': 60, 't': 60,
                           's': 1}[f if f == 'D' else f[0].lower()]

        def alike(I, r, a):
            l = lift(r)
            if l is None or l.co or l.kind == 'ts':
                raise Unk(short(r))
            return float(l.const) if l.kind != 'td' else 'timedelta'
        check(ctx, I, fn, [n + f], float(w), view=alike)
    fn = 'normalise_timestamp'
    for f, w in (('60s', 60), ('10min', 600), ('D', 86400), ('h', 3600)):
        for at in (0, 1, w // 2, w - 1, w, w + 7, 90000):
            for o, v, tr in each(ctx, I, fn, lambda: I.call(
                    I.get(U + fn), [T(at), f], {})):
                what = '%s s at %s' % (at, f)
                if o != 'return':
                    ctx.violation('time', fn, '%s %s' % (what, name(v)), LOC)
                else:
                    guard(ctx, fn, lambda: ctx.expect(
                        offset(v) == at // w * w, 'time', fn, '%s: %s' % (
                            what, short(v)), LOC))
    fn = 'timedelta64_to_secs'
    for xs in ([], [0], [1], [60, 90, 86400], [0.5, 7]):
        def go():
            return AList(list(I.iterate(I.call(I.get(U + fn), [Arr(
                [Lin('td', {}, x) for x in xs], dtype='timedelta64[ns]')],
                {}))))
        for o, v, tr in each(ctx, I, fn, go):
            if o != 'return':
                ctx.violation('time', fn, '%s s: %s' % (xs, name(v)), LOC)
                continue

            def look():
                got = [lift(x) for x in v.items]
                if any(g is None or g.co for g in got):
                    raise Unk(short(v))
                ctx.expect(not any(g.kind == 'td' for g in got) and
                           [float(g.const) for g in got] == xs, 'time', fn,
                           '%s s: %s' % (xs, short(v)), LOC)
            guard(ctx, fn, look)


def nat(v):
    return isinstance(v, Ext) and v.name == 'pandas.NaT'


def same(v, x, tz):
    if not isinstance(v, Lin) or not isinstance(x, Lin):
        return v is x or (isinstance(v, Ext) and isinstance(x, Ext) and
                          v.name == x.name)
    return v.kind == 'ts' and v.co == x.co and v.const == x.const and \
        str(v.tz) == str(tz)


def folder(ctx, I):
    fn = 'check_directory_exists'
    for there in (True, False):
        I.models['os.path.isdir'] = lambda I, a, k: there and a[0] == '/d'
        for o, v, tr in each(ctx, I, fn, lambda: I.call(
                I.get(U + fn), ['/d'], {})):
            ctx.expect(o == 'return' if there else o != 'return' and name(v)
                       in ('raises OSError', 'raises IOError',
                           'raises FileNotFoundError',
                           'raises NotADirectoryError'), 'folder', fn,
                       'of a directory which is %sthere: %s' % (
                           '' if there else 'not ', o), LOC)


# ---------------------------------------------------------------------- html
def html(ctx, I):
    def val(v):
        if isinstance(v, str) and 'http' in v:
            import re
            return re.sub(r'(http[^\s\)]+)', r'<a href="\1">\1</a>', v)
        return str(v)

    def want(d):
        s = '<ul>'
        for k, v in d.items():
            s += '<li><strong>%s</strong>: ' % k
            if isinstance(v, list):
                s += '<ul>' + ''.join('<li>%s</li>' % val(x)
                                      for x in v) + '</ul>'
            elif isinstance(v, dict):
                s += want(v)
            else:
                s += val(v)
            s += '</li>'
        return s + '</ul>'
    for d in ({}, {'a': 1}, {'a': None, 'b': 'text'}, {'a': [1, 'x']},
              {'a': []}, {'a': {'b': {'c': 2}}, 'd': [3]},
              {'url': 'see http://x.org/a?b (http://y.org) end'},
              {'urls': ['http://a.b', 'none', 'https://c.d/e f']},
              {'a': {}, 'b': {'http': 'plain'}}):
        check(ctx, I, 'dict_to_html', [d], want(d))


# ------------------------------------------------------------------- nearest
def nearest(ctx, I):
    fn = 'find_nearest'
    for known in ([5], [1, 9], [9, 1], [4, 4, 8], [10, 0, 6, 3]):
        for test in ([], [5], [-3, 20], [0, 1, 2, 3], [6.5, 7.4, 100]):
            def go():
                r = I.call(I.get(U + fn), [Arr(list(known)), Arr(list(test))],
                           {})
                a, b = list(I.iterate(r))
                return (list(I.iterate(a)), list(I.iterate(b)))
            for o, v, tr in each(ctx, I, fn, go):
                what = 'of %s in %s' % (test, known)
                if o != 'return':
                    ctx.violation('nearest', fn, '%s %s' % (
                        what, name(v)), LOC)
                    continue

                def look():
                    idx = [int(pyval(x)) for x in v[0]]
                    res = [float(pyval(x)) for x in v[1]]
                    ok = len(idx) == len(res) == len(test)
                    for i, r, t in zip(idx, res, test):
                        ok = ok and 0 <= i < len(known) and abs(
                            known[i] - t) == min(abs(x - t) for x in known) \
                            and r == t - known[i]
                    ctx.expect(ok, 'nearest', fn, '%s: %s, %s' % (
                        what, idx, res), LOC)
                guard(ctx, fn, look)
