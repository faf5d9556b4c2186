"""C05 - loading in chunks loses and invents no reading.  HDFDataStore.load is
abstractly interpreted over a table whose selected section starts at a
symbolic row number and holds L rows, for every small L and chunk size: the
row ranges it asks the store for, the time frames it attaches and the look-
ahead rows are compared with the section."""
from values import AObj, AList, Ext, Opq, short
from domains import atom, Lin, lift, plain
from storemodel import HStore, RowRange, Coords, EmptyFrame, parse_terms, \
    fs_models
from .tfcommon import tf_class, mk, obs, Unk, exc_name
from . import csvtext

MIN_OBLIGATIONS = 400
ASSUMPTIONS = ['HDFStore.select(start, stop) returns exactly the table rows '
               'start <= i < stop; select_as_coordinates returns the sorted '
               'row numbers of the section', 'time stamps increase with the '
               'row number']
T = lambda n: atom('ts', n)
KEY = '/building1/elec/meter1'
LOC = 'nilmtk/datastore/hdfdatastore.py'
C = 'HDFDataStore.load'


def num(v):
    if isinstance(v, bool):
        raise Unk(short(v))
    if isinstance(v, (int, float)):
        return int(v)
    raise Unk('row number %s' % short(v))


class Table(object):
    """sections: list of (offset atom or 0, L); rows are identified by
    (section index, i)"""

    def __init__(self, I, specs, extra=3):
        self.I = I
        self.specs = specs          # [(start name or None, L)]
        self.cur = -1
        self.queries = []

    def locate(self, n):
        """row number -> (section, offset) ; Lin in one atom or int"""
        if isinstance(n, Lin):
            if len(n.co) == 1 and list(n.co.values()) == [1]:
                a = list(n.co)[0]
                return a, int(n.const)
            raise Unk('row number %r' % n)
        return None, num(n)


def row_name(a, i):
    return 'row[%s%+d]' % (a or '', i)


def build(I, specs, bounded, nrows=None):
    """returns (HStore, log)"""
    log = {'selects': [], 'coords': 0}

    def row_ts(I, n):
        if isinstance(n, Lin):
            a, i = list(n.co)[0], int(n.const)
        else:
            a, i = None, int(n)
        name = row_name(a, i)
        if name not in I.ranks:
            raise Unk('row %s outside the table' % name)
        return T(name)

    def coords(I, a, k):
        j = log['coords']
        where = k.get('where', a[1] if len(a) > 1 else None)
        conds = parse_terms(I, where)
        # which section is asked for? identify by the bounds used
        names = set()
        for op, b in conds:
            if isinstance(b, Lin):
                names |= set(b.co)
        cand = [x for x in specs if names & {'ss' + x[0], 'se' + x[0]}]
        if len(cand) != 1:
            raise Unk('coordinates of no particular section: %s' % names)
        log['coords'] = j + 1
        nm, L = cand[0]
        st = Lin('num', {nm: 1})
        return Coords(L, st, plain(st.add(lift(L - 1))) if L else None,
                      conds)

    def select(I, a, k):
        a = list(a)
        key = k.get('key', a[0] if a else None)
        where = k.get('where', a[1] if len(a) > 1 else None)
        if where is not None:
            from interp import Undecided
            raise Undecided('select with where')
        start = k.get('start', a[2] if len(a) > 2 else None)
        stop = k.get('stop', a[3] if len(a) > 3 else None)
        r = RowRange(start, stop, k.get('columns'), row_ts)
        if isinstance(stop, (int, float)) and nrows is not None and \
                stop > nrows:
            r.stop = nrows
        if isinstance(start, (int, float)) and nrows is not None and \
                start > nrows:
            r.start = nrows
        if isinstance(stop, Lin):
            # the table ends EXTRA rows after each section
            nm = list(stop.co)[0]
            L = dict(specs)[nm]
            lim = L + EXTRA
            if stop.const > lim:
                r.stop = Lin('num', {nm: 1}, lim)
            if isinstance(start, Lin) and start.const > lim:
                r.start = Lin('num', {nm: 1}, lim)
        log['selects'].append((key, start, stop, k.get('columns')))
        return r

    hs = HStore({'select_as_coordinates': coords, 'select': select,
                 'get_storer': lambda I, a, k: AObj(
                     Ext('storer'), {'nrows': nrows}),
                 'keys': lambda I, a, k: AList([KEY])})
    return hs, log


EXTRA = 2


def cases(thorough):
    Lmax, Cmax = (9, 5) if thorough else (6, 3)
    for cs in list(range(1, Cmax + 1)) + [100]:
        for la in (0, 1, 3):
            for L in range(0, Lmax + 1):
                yield ('whole', [(None, L)], cs, la, None)
                for b in (('both',) if la else ('both', 'start', 'end')):
                    if L == 1 and (b != 'both' or la):
                        continue
                    yield ('one', [('a', L)], cs, la, b)
    for cs in (1, 2, 3):
        for l1 in (0, 2, 3, 4):
            for l2 in (0, 2, 3):
                yield ('two', [('a', l1), ('b', l2)], cs, 0, 'both')
    # the section asked for first is the later one
    for cs in (1, 3):
        for l1, l2 in ((3, 2), (2, 3), (0, 2), (3, 0)):
            yield ('two swapped', [('a', l1), ('b', l2)], cs, 0, 'both')


def run(ctx):
    csvtext.chunks(ctx)
    I = ctx.interp(models=fs_models())
    cls = tf_class(ctx, I)
    sc = ctx.anchor(I, 'nilmtk.datastore.hdfdatastore.HDFDataStore')
    for kind, specs, cs, la, bounds in cases(ctx.tier == 'thorough'):
        d = '%s section(s) of %s rows, bounds=%s, chunksize=%d, ' \
            'look-ahead=%d' % (kind, [L for _, L in specs], bounds, cs, la)

        def go():
            I.ranks = {}
            base = 0
            for nm, L in (specs[::-1] if 'swapped' in kind else specs):
                lim = L + (EXTRA if nm else 0)
                if nm:
                    I.ranks['ss' + nm] = base
                    I.ranks['se' + nm] = base + L + 0.5
                for i in range(lim):
                    I.ranks[row_name(nm, i)] = base + 1 + i - (
                        1 if nm and i == 0 else 0)
                base += 100
            hs, log = build(I, specs, bounds, None if specs[0][0]
                            else specs[0][1])
            I.models['pandas.HDFStore'] = lambda I, a, k: hs
            st = I.call(sc, ['f.h5'], {'mode': 'r'})
            kw = {'chunksize': cs, 'n_look_ahead_rows': la,
                  'columns': AList([('power', 'active'), ('power', None)])}
            if not la:
                del kw['n_look_ahead_rows']
            if kind != 'whole':
                secs = []
                for nm, L in specs:
                    secs.append(mk(I, cls,
                                   T('ss' + nm) if bounds != 'end' else None,
                                   T('se' + nm) if bounds != 'start'
                                   else None))
                kw['sections'] = AList(secs)
            g = I.call(I.getattr(st, 'load'), [KEY[1:] + '/'], kw)
            out = []
            for f in I.iterate(g):
                if isinstance(f, (EmptyFrame, RowRange)) and \
                        'timeframe' not in f.attrs:
                    I.throw('AttributeError', 'timeframe')
                tf = I.getattr(f, 'timeframe')
                o = [obs(I, tf, n) for n in ('start', 'end')]
                lk = None
                if isinstance(f, RowRange):
                    lk = I.getattr(f, 'look_ahead') if la else f.attrs.get(
                        'look_ahead')
                out.append((f, o, lk))
            flag = I.getattr(st, 'all_sections_smaller_than_chunksize')
            return out, log, flag
        for out, v, tr in I.explore(go, max_paths=30):
            ctx.paths += 1
            if out == 'undecided':
                ctx.undecided(C, v)
                continue
            if out == 'raise':
                ctx.violation('load-total', C, d + ' raises ' + exc_name(v),
                              LOC)
                continue
            try:
                if specs[0][1] == 1 and len(specs) == 1:
                    single(ctx, d, v[0])
                    continue
                judge(ctx, I, d, kind, specs, cs, la, bounds, *v)
            except Unk as x:
                if 'outside the table' in str(x):
                    ctx.violation('rows-in-section', C, d + ': ' + str(x),
                                  LOC)
                else:
                    ctx.undecided(C, str(x))
    ctx.absorb(I)


def off(v):
    if isinstance(v, Lin):
        return list(v.co)[0], int(v.const)
    if v is None:
        raise Unk('open range')
    return None, num(v)


def single(ctx, d, out):
    """a section (or a whole table) of one reading"""
    ok = len(out) == 1 and isinstance(out[0][0], RowRange)
    if ok:
        a, i = off(out[0][0].start)
        ok = (i, off(out[0][0].stop)) == (0, (a, 1))
    ctx.expect(ok, 'single-reading', C, '%s: the reading is not delivered' %
               d, LOC)


def judge(ctx, I, d, kind, specs, cs, la, bounds, out, log, flag):
    for key, start, stop, cols in log['selects']:
        ctx.expect(key == KEY, 'key-normalised', C,
                   '%s: reads key %s instead of %s' % (d, key, KEY), LOC)
        want = [('power', 'active'), ('power', '')]
        got = list(cols.items) if isinstance(cols, AList) else cols
        if got is not None and not isinstance(got, list):
            raise Unk('columns %s' % short(cols))
        ctx.expect(got == want, 'columns-requested', C,
                   '%s: reads columns %s instead of %s' % (d, got, want),
                   LOC)
    # split the frames per section
    per = {nm: [] for nm, _ in specs}
    order = []
    empties = 0
    for f, o, lk in out:
        if isinstance(f, EmptyFrame):
            empties += 1
            order.append('empty')
            continue
        if not isinstance(f, RowRange):
            raise Unk('frame %s' % short(f))
        a, i = off(f.start)
        a2, j = off(f.stop)
        if a != a2 or a not in per:
            raise Unk('range %s' % f)
        per[a].append((i, j, o, lk, f))
        if not order or order[-1] != a:
            order.append(a)
    want_order = []
    for nm, L in specs:
        want_order.append(nm if L > 1 else 'empty')
    ctx.expect(order == want_order, 'sections-in-order', C,
               '%s: sections come out as %s, expected %s' % (
                   d, order, want_order), LOC)
    many = False
    for nm, L in specs:
        fr = per[nm]
        if L <= 1:
            continue
        rows = set()
        pos = None
        for n, (i, j, o, lk, f) in enumerate(fr):
            ctx.expect(j > i, 'chunk-not-empty', C, '%s: chunk %d is empty'
                       % (d, n), LOC)
            ctx.expect(0 <= i and j <= L, 'rows-in-section', C,
                       '%s: chunk %d holds rows %d..%d of a section of %d '
                       'rows' % (d, n, i, j - 1, L), LOC)
            if pos is not None:
                ctx.expect(pos - 1 <= i <= pos, 'chunks-contiguous', C,
                           '%s: chunk %d starts at row %d after row %d' % (
                               d, n, i, pos - 1), LOC)
            pos = j
            rows |= set(range(i, j))
            ctx.expect(j - i <= cs + 1, 'chunk-bounded', C,
                       '%s: chunk %d holds %d rows' % (d, n, j - i), LOC)
            # time frame
            s, e = o
            rk = lambda v: I.ranks.get(repr(v)) if isinstance(v, Lin) else \
                None
            if s is None or e is None or rk(s) is None or rk(e) is None:
                if isinstance(s, Lin) and isinstance(e, Lin):
                    raise Unk('time frame %s %s' % (s, e))
                ctx.violation('chunk-timeframe', C, '%s: chunk %d has time '
                              'frame (%s, %s)' % (d, n, s, e), LOC)
                continue
            r0 = I.ranks[row_name(nm, i)]
            r1 = I.ranks[row_name(nm, min(j, L) - 1)]
            lo = I.ranks.get('ss%s' % nm) if bounds in ('both', 'start') \
                else None
            hi = I.ranks.get('se%s' % nm) if bounds in ('both', 'end') \
                else None
            ok = rk(s) <= r0 and rk(e) >= r1
            ok = ok and (lo is None or rk(s) >= lo) and \
                (hi is None or rk(e) <= hi)
            if n == 0 and lo is not None:
                ok = ok and rk(s) == lo
            if n > 0:
                ok = ok and rk(s) == r0
            if n == len(fr) - 1 and hi is not None:
                ok = ok and rk(e) == hi
            if n < len(fr) - 1:
                ok = ok and rk(e) == r1
            ctx.expect(ok, 'chunk-timeframe', C,
                       '%s: chunk %d (rows %d..%d) has time frame (%s, %s)'
                       % (d, n, i, j - 1, s, e), LOC)
            if la or lk is not None:
                lim = L + (EXTRA if nm else 0)
                want = (j, min(j + la, lim))
                if isinstance(lk, EmptyFrame):
                    got = (j, j)
                elif isinstance(lk, RowRange):
                    got = (off(lk.start)[1], off(lk.stop)[1])
                else:
                    raise Unk('look ahead %s' % short(lk))
                same = got == want or (want[0] >= want[1] and
                                       got[0] >= got[1])
                ctx.expect(same, 'look-ahead', C,
                           '%s: chunk %d ends at row %d but its look-ahead '
                           'is rows %d..%d' % (d, n, j - 1, got[0],
                                               got[1] - 1), LOC)
        ctx.expect(rows == set(range(L)), 'every-row-loaded', C,
                   '%s: rows %s are never returned' % (
                       d, sorted(set(range(L)) - rows)), LOC)
        many = many or len(fr) > 1
    if not isinstance(flag, bool):
        raise Unk('flag')
    ctx.expect(flag == (not many), 'single-chunk-flag', C,
               '%s: all_sections_smaller_than_chunksize is %s' % (d, flag),
               LOC)
    ctx.sample('%s -> %s' % (d, {k: [(i, j - 1) for i, j, *_ in v]
                                 for k, v in per.items()}))
