"""The CSV store over a disk of text: what is written by DataFrame.to_csv and
read by pandas.read_csv, character by character.  Used by C05 (loading in
chunks) and C08 (what is read is what was written)."""
from fractions import Fraction
from values import AList, Ext, short
from domains import Lin, atom
from interp import AbstractRaise, Undecided
from csvmodel import Disk, T, install, to_csv, FRM
from tables import TM, Frame, Idx, NAN, isnan, same
from .tfcommon import tf_class, mk, obs, exc_name

CSV = 'nilmtk.datastore.csvdatastore.CSVDataStore'
KEY = '/building1/elec/meter1'
LOC = 'nilmtk/datastore/csvdatastore.py'
NAMES = ['physical_quantity', 'type']
ROWS = (list(range(5)), [Fraction(2 * i + 1, 2) for i in range(5)],
        [0, 1] + [Fraction(2 * i + 1, 2) for i in range(2, 5)],
        [Fraction(1, 2), Fraction(3, 4), 2, 3, 4])
ZONES = (None, 'UTC', 'Europe/London')
COLS = {'typed': [('power', 'active'), ('power', 'reactive')],
        'untyped': [('power', 'active'), ('voltage', '')],
        'one': [('voltage', '')]}


def table(cols, rows, tz, tag='v'):
    return Frame(Idx([T(i, tz) for i in rows], tz=tz, dt=True),
                 Idx(list(cols), names=list(NAMES)),
                 [[NAN if (n, j) == (1, 0) and len(cols) > 1
                   else atom('num', '%s%d_%d' % (tag, n, j))
                   for n, i in enumerate(rows)]
                  for j in range(len(cols))])


def interp(ctx):
    I = ctx.interp(models=dict(TM))
    install()
    return I


def world(I, sc):
    disk = Disk()
    disk.mkdirs('dir')
    I.models.update(disk.models())
    FRM['to_csv'] = to_csv(disk)
    return disk, I.call(sc, ['dir'], {})


def shape(I, f):
    """(column labels, column names, instants, aware, cells)"""
    if not isinstance(f, Frame):
        raise Undecided('table %s' % short(f))
    l = f.idx.labels
    if not all(isinstance(x, Lin) and set(x.co) == {'T'} for x in l):
        return None
    aware = {x.tz is not None for x in l}
    return ([tuple(c) if isinstance(c, tuple) else c for c in f.cols.labels],
            list(f.cols.names or []), [x.const for x in l],
            aware, f.idx.is_dt() if l else True,
            [['nan' if isnan(c) else repr(c) for c in d] for d in f.data])


def same_table(I, got, want, columns=None):
    g, w = shape(I, got), shape(I, want)
    if g is None:
        return False
    if columns is not None:
        keep = [w[0].index(c) for c in columns]
        w = ([w[0][j] for j in keep],) + w[1:5] + ([w[5][j] for j in keep],)
    return g == w and (not g[2] or len({x.tz for x in got.idx.labels}) == 1)


def cut(t, i, j):
    return Frame(t.idx.like(t.idx.labels[i:j]), t.cols,
                 [d[i:j] for d in t.data])


def each(ctx, I, C, go, d, rule):
    for out, v, tr in I.explore(go, max_paths=40):
        ctx.paths += 1
        if out == 'undecided':
            ctx.undecided(C, v)
        elif out == 'raise':
            ctx.violation(rule, C, '%s raises %s' % (d, exc_name(v)), LOC)
        else:
            yield v


# ------------------------------------------------------- C08: what was written
def roundtrip(ctx):
    I = interp(ctx)
    sc = ctx.anchor(I, CSV)
    for cn, cols in sorted(COLS.items()):
        for tz in ZONES:
            for how, rows in [
                    (h, r) for r in ROWS for h in (
                        'put', 'append', 'append twice', 'put over')]:
                d = 'columns %s, time zone %s, seconds %s, written by %s' % (
                    cols, tz, ', '.join(map(str, rows)), how)

                def go():
                    disk, st = world(I, sc)
                    t = table(cols, rows, tz)
                    if how == 'put over':
                        I.call(I.getattr(st, 'put'), [KEY, table(
                            cols, range(3), tz, 'old')], {})
                    if how == 'append twice':
                        for x in (cut(t, 0, 2), cut(t, 2, 5)):
                            I.call(I.getattr(st, 'append'), [KEY, x], {})
                    else:
                        I.call(I.getattr(st, how.split()[0]), [KEY, t], {})
                    return t, I.getitem(st, KEY), list(I.iterate(I.call(
                        I.getattr(st, 'load'), [KEY], {})))
                for t, got, loaded in each(ctx, I, 'CSVDataStore', go, d,
                                           'reads-back'):
                    try:
                        ok = same_table(I, got, t)
                        ok2 = len(loaded) == 1 and same_table(
                            I, loaded[0], t)
                    except Undecided as x:
                        ctx.undecided('CSVDataStore', str(x))
                        continue
                    ctx.expect(ok, 'reads-back', 'CSVDataStore.__getitem__',
                               '%s: read back as %s' % (d, short(got)), LOC)
                    ctx.expect(ok2, 'reads-back', 'CSVDataStore.load',
                               '%s: loaded as %s' % (d, short(loaded)), LOC)
    ctx.absorb(I)


# ------------------------------------------------------- C05: in chunks
def chunks(ctx):
    I = interp(ctx)
    cls = tf_class(ctx, I)
    sc = ctx.anchor(I, CSV)
    C = 'CSVDataStore.load'
    cols = COLS['untyped']
    N = 6
    secs = [None, [(0, 6)], [(1, 4)], [(3, 9)], [(0, 2), (3, 6)], [(7, 9)],
            [(2, 4), (2, 4)]]
    for tz in ZONES:
        for cs in (1, 2, 3, 4, 6, 100):
            for la in (0, 1, 3):
                for sec in secs:
                    for want in (None, [cols[0]], [cols[1]]):
                        if (want or la == 1) and tz != ZONES[-1] or \
                                want and la != 3:
                            continue
                        case(ctx, I, cls, sc, C, cols, N, tz, cs, la, sec,
                             want)
    ctx.absorb(I)


def case(ctx, I, cls, sc, C, cols, N, tz, cs, la, sec, want):
    spans = sec or [(0, N)]
    expected = []
    for a, b in spans:
        got = [list(range(max(a, i), min(b, i + cs, N)))
               for i in range(0, N, cs)]
        expected.append([g for g in got if g])
    if any(len(g) == 1 for s in expected for g in s):
        return          # one reading in a chunk: see known_findings.jsonl
    d = 'time zone %s, chunksize %d, look-ahead %d, sections %s, columns ' \
        '%s' % (tz, cs, la, sec, want)

    def go():
        disk, st = world(I, sc)
        t = table(cols, range(N), tz)
        I.call(I.getattr(st, 'put'), [KEY, t], {})
        kw = {'chunksize': cs, 'n_look_ahead_rows': la}
        if want:
            kw['columns'] = AList(list(want))
        if sec:
            kw['sections'] = AList([mk(I, cls, T(a, tz), T(b, tz))
                                    for a, b in sec])
        out = []
        for f in I.iterate(I.call(I.getattr(st, 'load'), [KEY], kw)):
            tf = I.getattr(f, 'timeframe')
            out.append((f, [obs(I, tf, n) for n in ('start', 'end')],
                        I.getattr(f, 'look_ahead') if la else None))
        return t, out, I.getattr(st, 'all_sections_smaller_than_chunksize')
    for t, out, flag in each(ctx, I, C, go, d, 'csv-load'):
        try:
            pos, ok, ok2, ok3 = [], True, True, True
            for f, o, look in out:
                if not isinstance(f, Frame):
                    raise Undecided('chunk %s' % short(f))
                if not f.idx.labels:
                    continue
                x = shape(I, f)
                if x is None:
                    ok = False
                    continue
                i = int(x[2][0])
                j = i + len(x[2])
                pos.append(list(range(i, j)))
                ok = ok and same_table(I, f, cut(t, i, j), want)
                ok3 = ok3 and all(isinstance(y, Lin) for y in o) and [
                    y.const for y in o] == [i, j - 1]
                if la and j < N:
                    ok2 = ok2 and same_table(I, look, cut(
                        t, j, min(N, j + la)), want)
                elif la:
                    ok2 = ok2 and isinstance(look, Frame) and \
                        not look.idx.labels
        except Undecided as x:
            ctx.undecided(C, str(x))
            continue
        flat = [i for s in expected for g in s for i in g]
        ctx.expect([i for g in pos for i in g] == flat and ok,
                   'csv-every-row', C, '%s: gives rows %s, expected %s%s' % (
                       d, pos, expected, '' if ok else ', with other '
                       'contents'), LOC)
        ctx.expect(ok3, 'csv-chunk-timeframe', C, d, LOC)
        ctx.expect(all(len(g) <= cs + 1 for g in pos), 'csv-chunk-bounded', C,
                   '%s: chunks %s' % (d, pos), LOC)
        ctx.expect(ok2, 'csv-look-ahead', C, '%s: look-ahead %s' % (
            d, [(g, short(l)) for g, (f, o, l) in zip(pos, out)]), LOC)
        ctx.expect(flag is (not any(len(s) > 1 for s in expected)),
                   'csv-single-chunk-flag', C, '%s: the flag is %s' % (
                       d, short(flag)), LOC)
