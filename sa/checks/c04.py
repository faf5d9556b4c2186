"""C04 - row selection follows one boundary convention everywhere (start
inclusive, end exclusive unless the frame includes its end) and no read
escapes the store's window.  TimeFrame.slice, TimeFrame.query_terms,
HDFDataStore.load/get_timeframe, CSVDataStore.load/get_timeframe and
DataSet.set_window are abstractly interpreted for one generic row with time
stamp t under every ordering of t and the bounds of window and section."""
from values import AObj, AList, Ext, Opq, Native, AGen, short
from domains import atom, weak_orders, Lin, Rows
from interp import AbstractRaise, Undecided, drain
from storemodel import (HStore, RowRange, Coords, EmptyFrame, CsvRows, CsvIndex,
                        parse_terms, fs_models)
from .tfcommon import tf_class, mk, empty_frame, obs, pt, boolean, Unk, \
    exc_name

MIN_OBLIGATIONS = 1000
ASSUMPTIONS = ['pandas.HDFStore.select_as_coordinates returns exactly the '
               'rows satisfying the where terms, whose variables are resolved '
               'in the calling function; pandas.read_csv yields every row; '
               'boolean indexing keeps exactly the rows whose mask is true']
T = lambda n: atom('ts', n)


def in_frame(o, t, s, e, inc):
    if s is not None and o[t] < o[s]:
        return False
    if e is not None and (o[t] > o[e] or (o[t] == o[e] and not inc)):
        return False
    return True


def dedupe(names, cond):
    seen = set()
    for o in weak_orders(names):
        if not cond(o):
            continue
        k = tuple(sorted(o.items()))
        if k in seen:
            continue
        seen.add(k)
        yield o


def run(ctx):
    single_frame(ctx)
    stores(ctx)
    single_reading(ctx)
    timeframes(ctx)
    set_window(ctx)


def frame_cases():
    for s in (0, 1):
        for e in (0, 1):
            for inc in (False, True):
                names = ['t'] + (['s'] if s else []) + (['e'] if e else [])
                for o in dedupe(names, lambda o: not (s and e) or
                                o['s'] < o['e']):
                    yield s, e, inc, o


def single_frame(ctx):
    I = ctx.interp()
    cls = tf_class(ctx, I)
    LOC = 'nilmtk/timeframe.py'
    for s, e, inc, o in frame_cases():
        exp = in_frame(o, 't', 's' if s else None, 'e' if e else None, inc)
        d = 'start=%s end=%s include_end=%s order=%s' % (
            bool(s), bool(e), inc, o)

        def make():
            I.ranks = dict(o)
            f = mk(I, cls, T('s') if s else None, T('e') if e else None)
            I.setattr(f, 'include_end', inc)
            return f

        def go():
            f = make()
            r = I.call(I.getattr(f, 'slice'), [CsvRows(T('t'))], {})
            return r, f
        for out, v, tr in I.explore(go):
            ctx.paths += 1
            if out == 'undecided':
                ctx.undecided('slice', v)
            elif out == 'raise':
                ctx.violation('slice-total', 'TimeFrame.slice',
                              d + ' raises ' + exc_name(v), LOC)
            else:
                r, f = v
                if not isinstance(r, Rows):
                    ctx.undecided('slice', short(r))
                    continue
                ctx.expect(r.present == exp, 'slice-boundary',
                           'TimeFrame.slice', '%s: row is %s, expected %s' % (
                               d, 'kept' if r.present else 'dropped',
                               'kept' if exp else 'dropped'), LOC)
                ctx.expect(r.attrs.get('timeframe') is f, 'slice-timeframe',
                           'TimeFrame.slice', 'result does not carry the '
                           'frame it was cut with', LOC)

        def go():
            f = make()
            fr = I.call(I.getattr(f, 'query_terms'), ['tf'], {})
            return fr, f
        for out, v, tr in I.explore(go):
            ctx.paths += 1
            if out == 'undecided':
                ctx.undecided('query', v)
                continue
            if out == 'raise':
                ctx.violation('query-total', 'TimeFrame.query_terms',
                              d + ' raises ' + exc_name(v), LOC)
                continue
            terms, f = v
            try:
                kept = eval_terms(I, terms, {'tf': f}, o)
            except Undecided as x:
                ctx.undecided('query', str(x))
                continue
            ctx.expect(kept == exp, 'query-boundary',
                       'TimeFrame.query_terms', '%s: terms %s select the row:'
                       ' %s, expected %s' % (d, short(terms), kept, exp),
                       LOC)
    # empty frame

    def go():
        I.ranks = {'t': 0}
        f = empty_frame(I, cls)
        return I.call(I.getattr(f, 'slice'), [CsvRows(T('t'))], {})
    for out, v, tr in I.explore(go):
        if out == 'return' and isinstance(v, Rows):
            ctx.expect(not v.present, 'slice-empty', 'TimeFrame.slice',
                       'an empty frame keeps rows', LOC)
        elif out == 'raise':
            ctx.violation('slice-empty', 'TimeFrame.slice',
                          'raises ' + exc_name(v), LOC)
        else:
            ctx.undecided('slice', short(v))
    ctx.absorb(I)


class _Env(object):
    pass


def eval_terms(I, terms, scope, o):
    """meaning of query terms for the row t"""
    import ast
    if terms is None:
        return True
    from interp import CMPOP, FLIP, Env
    env = Env(None)
    env.vars.update(scope)
    res = True
    items = [terms] if isinstance(terms, str) else list(I.iterate(terms))
    for t in items:
        if not isinstance(t, str):
            raise Undecided('term %s' % short(t))
        try:
            e = ast.parse(t.strip(), mode='eval').body
        except SyntaxError:
            raise Undecided('term %r' % t)
        if not isinstance(e, ast.Compare):
            raise Undecided('term %r' % t)
        env.vars['index'] = T('t')
        fr_push(I)
        try:
            ok = I.truth(I.eval(e, env))
        finally:
            I.stack.pop()
        res = res and ok
    return res


def fr_push(I):
    from interp import Frame
    I.stack.append(Frame(None, None, I.mods['nilmtk.timeframe']))


# ---------------------------------------------------------------- stores
def store_cases():
    for wmode in ('unbounded', 'bounded', 'startonly', 'endonly',
                  'disabled'):
        for smode in ('none', 'unbounded', 'bounded', 'startonly', 'endonly'):
            ws = wmode in ('bounded', 'startonly', 'disabled')
            we = wmode in ('bounded', 'endonly', 'disabled')
            ss = smode in ('bounded', 'startonly')
            se = smode in ('bounded', 'endonly')
            names = ['t'] + [n for n, u in (('ws', ws), ('we', we),
                                            ('ss', ss), ('se', se)) if u]
            for o in dedupe(names, lambda o: (not (ws and we) or
                                              o['ws'] < o['we']) and
                            (not (ss and se) or o['ss'] < o['se'])):
                for inc in ((False, True) if se else (False,)):
                    yield wmode, smode, ws, we, ss, se, inc, o


def build_window(I, cls, wmode, ws, we):
    w = mk(I, cls, T('ws') if ws else None, T('we') if we else None)
    if wmode == 'disabled':
        I.setattr(w, 'enabled', False)
    return w


def expected_row(wmode, smode, ws, we, ss, se, inc, o):
    """True/False/None(unspecified tie)"""
    if wmode == 'disabled':
        ws = we = False
    a = in_frame(o, 't', 'ws' if ws else None, 'we' if we else None, False)
    b = in_frame(o, 't', 'ss' if ss else None, 'se' if se else None, inc)
    # two frames that only touch have an empty intersection
    st = max([o[n] for n, u in (('ws', ws), ('ss', ss)) if u] or [-99])
    en = min([o[n] for n, u in (('we', we), ('se', se)) if u] or [99])
    if st >= en:
        return False
    if we and se and o['we'] == o['se'] == o['t'] and inc:
        return None
    return a and b


def hdf_store(I, ctx, rows=3):
    rec = {}
    row_ts = lambda I, n: atom('ts', 'row%s' % n)

    def coords(I, a, k):
        where = k.get('where', a[1] if len(a) > 1 else None)
        conds = parse_terms(I, where)
        rec['conds'] = conds
        return Coords(rows, 0, rows - 1, conds)

    def select(I, a, k):
        where = k.get('where', a[1] if len(a) > 1 else None)
        start = k.get('start')
        stop = k.get('stop')
        if isinstance(where, AList) and all(isinstance(x, str)
                                            for x in where.items):
            rec['conds'] = parse_terms(I, where)
        rec['selected'] = True
        return RowRange(0 if start is None else start,
                        rows if stop is None else stop,
                        k.get('columns'), row_ts)

    def storer(I, a, k):
        o = AObj(Ext('storer'), {'nrows': rows})
        return o
    return HStore({'select_as_coordinates': coords, 'select': select,
                   'get_storer': storer,
                   'keys': lambda I, a, k: AList(['/building1/elec/meter1'])}
                  ), rec


def row_ranks(I, o, rows=3):
    # the rows of a selection lie strictly inside its bounds, in order
    lo = max([o[n] for n in ('ws', 'ss') if n in o] or [None],
             key=lambda x: -99 if x is None else x)
    hi = min([o[n] for n in ('we', 'se') if n in o] or [None],
             key=lambda x: 99 if x is None else x)
    if lo is None:
        lo = 0 if hi is None else hi - 1
    if hi is None:
        hi = lo + 1
    for i in range(-1, rows + 3):
        I.ranks['row%d' % i] = lo + (hi - lo) * (i + 1.0) / (rows + 1)


def stores(ctx):
    KEY = '/building1/elec/meter1'
    for kind in ('hdf', 'csv'):
        I = ctx.interp(models=fs_models())
        cls = tf_class(ctx, I)
        sc = ctx.anchor(I, 'nilmtk.datastore.hdfdatastore.HDFDataStore'
                        if kind == 'hdf' else
                        'nilmtk.datastore.csvdatastore.CSVDataStore')
        C = sc.name + '.load'
        LOC = 'nilmtk/datastore/%sdatastore.py' % kind
        for case in store_cases():
            wmode, smode, ws, we, ss, se, inc, o = case
            exp = expected_row(*case)
            d = 'window=%s section=%s%s order=%s' % (
                wmode, smode, '+include_end' if inc else '', o)

            def go():
                I.ranks = dict(o)
                row_ranks(I, {} if wmode == 'disabled' and
                          smode == 'none' else dict(
                              (n, r) for n, r in o.items() if not (
                                  wmode == 'disabled' and n in ('ws', 'we'))))
                rec = {}
                if kind == 'hdf':
                    hs, rec = hdf_store(I, ctx)
                    I.models['pandas.HDFStore'] = lambda I, a, k: hs
                    st = I.call(sc, ['f.h5'], {'mode': 'r'})
                else:
                    chunk = CsvRows(T('t'))

                    def read_csv(I, a, k):
                        if k.get('chunksize') is not None or \
                                k.get('iterator'):
                            return AGen(iter([chunk]), 'reader')
                        if 'nrows' in k or 'skiprows' in k:
                            return Opq('fresh', ('lookahead',))
                        return chunk
                    I.models['pandas.read_csv'] = read_csv
                    st = I.call(sc, ['dir'], {})
                I.setattr(st, 'window', build_window(I, cls, wmode, ws, we))
                kw = {}
                if smode != 'none':
                    sec = mk(I, cls, T('ss') if ss else None,
                             T('se') if se else None)
                    I.setattr(sec, 'include_end', inc)
                    kw['sections'] = AList([sec])
                g = I.call(I.getattr(st, 'load'), [KEY], kw)
                frames = list(I.iterate(g))
                for f in frames:
                    if isinstance(f, (EmptyFrame, Rows, RowRange)) and \
                            'timeframe' not in f.attrs:
                        I.throw('AttributeError', 'timeframe')
                return frames, rec
            for out, v, tr in I.explore(go, max_paths=60):
                ctx.paths += 1
                if out == 'undecided':
                    ctx.undecided(C, v)
                    continue
                if out == 'raise':
                    ctx.violation('load-total', C, d + ' raises ' +
                                  exc_name(v), LOC)
                    continue
                frames, rec = v
                try:
                    if kind == 'hdf':
                        got = any(isinstance(f, RowRange) for f in frames)
                        if any(isinstance(f, Opq) for f in frames):
                            raise Unk('frame')
                        for op, b in rec.get('conds', []) if got else []:
                            got = got and I.truth(
                                I.compare(op, T('t'), b))
                    else:
                        if not all(isinstance(f, (Rows, EmptyFrame))
                                   for f in frames):
                            raise Unk('frame %s' % short(frames))
                        got = any(isinstance(f, Rows) and f.present
                                  for f in frames)
                except Unk as x:
                    ctx.undecided(C, str(x))
                    continue
                if exp is None:
                    continue
                ctx.expect(got == exp, 'load-boundary', C,
                           '%s: row %s, expected %s' % (
                               d, 'returned' if got else 'not returned',
                               'returned' if exp else 'not returned'), LOC)
                ctx.sample(d + ' -> ' + str(got)) if inc else None
        ctx.absorb(I)


class OneIndex(CsvIndex):
    __slots__ = ()

    def d_getitem(self, I, key):
        if key in (0, -1):
            return self.rows.t
        return CsvIndex.d_getitem(self, I, key)


class OneRow(CsvRows):
    """a chunk in which the generic row is the only one"""
    __slots__ = ()

    def derive(self, present):
        return OneRow(self.t, self.present and present, self, self.name)

    def d_getattr(self, I, name):
        if name == 'index':
            return self.attrs.get('index') or OneIndex(self)
        return CsvRows.d_getattr(self, I, name)


def single_reading(ctx):
    """a chunk of which one reading lies in the section"""
    I = ctx.interp(models=fs_models())
    cls = tf_class(ctx, I)
    sc = ctx.anchor(I, 'nilmtk.datastore.csvdatastore.CSVDataStore')
    C = 'CSVDataStore.load'

    def go():
        I.ranks = {'ss': 0, 't': 1, 'se': 2}
        chunk = OneRow(T('t'))

        def read_csv(I, a, k):
            if k.get('chunksize') is not None or k.get('iterator'):
                return AGen(iter([chunk]), 'reader')
            return chunk
        I.models['pandas.read_csv'] = read_csv
        st = I.call(sc, ['dir'], {})
        sec = mk(I, cls, T('ss'), T('se'))
        return list(I.iterate(I.call(
            I.getattr(st, 'load'), ['/building1/elec/meter1'],
            {'sections': AList([sec])})))
    for out, v, tr in I.explore(go, max_paths=60):
        ctx.paths += 1
        if out == 'undecided':
            ctx.undecided(C, v)
            continue
        ctx.expect(out == 'return' and any(
            isinstance(f, Rows) and f.present for f in v),
            'single-reading', C, 'a section with one single reading in a '
            'chunk: %s' % (exc_name(v) if out == 'raise' else 'not returned'),
            'nilmtk/datastore/csvdatastore.py')
    ctx.absorb(I)


# ------------------------------------------------------------ get_timeframe
def timeframes(ctx):
    KEY = '/building1/elec/meter1'
    for kind in ('hdf', 'csv'):
        I = ctx.interp(models=fs_models())
        cls = tf_class(ctx, I)
        sc = ctx.anchor(I, 'nilmtk.datastore.hdfdatastore.HDFDataStore'
                        if kind == 'hdf' else
                        'nilmtk.datastore.csvdatastore.CSVDataStore')
        C = sc.name + '.get_timeframe'
        LOC = 'nilmtk/datastore/%sdatastore.py' % kind
        for wmode in ('unbounded', 'bounded', 'startonly', 'endonly'):
            ws = wmode in ('bounded', 'startonly')
            we = wmode in ('bounded', 'endonly')
            names = ['first', 'last'] + [n for n, u in (
                ('ws', ws), ('we', we)) if u]
            for o in dedupe(names, lambda o: o['first'] < o['last'] and not (
                    ws and we and o['ws'] >= o['we'])):
                def go():
                    I.ranks = dict(o)
                    if kind == 'hdf':
                        rows = {0: 'first', -1: 'last', 2: 'last'}

                        def row_ts(I, n):
                            if not isinstance(n, int) or n not in rows:
                                return Opq('fresh', ('row %s' % n,))
                            return T(rows[n])

                        def select(I, a, k):
                            a = list(a)
                            where = k.get('where', a[1] if len(a) > 1
                                          else None)
                            start = k.get('start', a[2] if len(a) > 2
                                          else None)
                            stop = k.get('stop', a[3] if len(a) > 3
                                         else None)
                            n = 3
                            if isinstance(where, AList) and all(
                                    isinstance(x, int)
                                    for x in where.items):
                                i = where.items[0] % n
                                return RowRange(i, i + 1, None, row_ts)
                            if where is not None:
                                return NotImplemented
                            start = 0 if start is None else start
                            stop = n if stop is None else stop
                            if isinstance(start, int) and start < 0:
                                start += n
                            if isinstance(stop, int) and stop < 0:
                                stop += n
                            if isinstance(stop, int):
                                stop = min(stop, n)
                            return RowRange(start, stop, None, row_ts)
                        hs = HStore({
                            'select': select,
                            'get_storer': lambda I, a, k: AObj(
                                Ext('storer'), {'nrows': 3})})
                        I.models['pandas.HDFStore'] = lambda I, a, k: hs
                        st = I.call(sc, ['f.h5'], {'mode': 'r'})
                    else:
                        def row_ts2(names):
                            return lambda I, n: T(names[n])
                        # two chunks of 2 rows each
                        c1 = RowRange(0, 2, None, lambda I, n: T(
                            'first') if n == 0 else T('mid1'))
                        c2 = RowRange(2, 4, None, lambda I, n: T(
                            'last') if n == 3 else T('mid2'))
                        I.ranks['mid1'] = o['first'] + 0.25
                        I.ranks['mid2'] = o['first'] + 0.5
                        I.models['pandas.read_csv'] = \
                            lambda I, a, k: AGen(
                                iter([c1, c2]), 'reader')
                        st = I.call(sc, ['dir'], {})
                    I.setattr(st, 'window',
                              build_window(I, cls, wmode, ws, we))
                    r = I.call(I.getattr(st, 'get_timeframe'), [KEY], {})
                    return [obs(I, r, n) for n in ('start', 'end', 'empty')]
                for out, v, tr in I.explore(go, max_paths=60):
                    ctx.paths += 1
                    if out == 'undecided':
                        ctx.undecided(C, v)
                        continue
                    d = 'window=%s order=%s' % (wmode, o)
                    if out == 'raise':
                        ctx.violation('timeframe-in-window', C,
                                      d + ' raises ' + exc_name(v), LOC)
                        continue
                    try:
                        s, e, emp = pt(v[0]), pt(v[1]), boolean(v[2])
                    except Unk as x:
                        ctx.undecided(C, str(x))
                        continue
                    es = max([o['first']] + ([o['ws']] if ws else []))
                    ee = min([o['last']] + ([o['we']] if we else []))
                    if es >= ee:
                        ok = emp
                    else:
                        ok = not emp and s is not None and e is not None \
                            and I.ranks.get(s) == es and \
                            I.ranks.get(e) == ee
                    ctx.expect(ok, 'timeframe-in-window', C,
                               '%s: got (%s, %s, empty=%s)' % (d, s, e, emp),
                               LOC)
        ctx.absorb(I)


# ------------------------------------------------------------ set_window
def set_window(ctx):
    I = ctx.interp(models=fs_models())
    dsc = ctx.anchor(I, 'nilmtk.dataset.DataSet')
    C = 'DataSet.set_window'
    LOC = 'nilmtk/dataset.py'
    for store in (False, True):
        for tz in (None, 'Europe/London'):
            for ss in (0, 1):
                for se in (0, 1):
                    def go():
                        I.ranks = {'s': 0, 'e': 1}
                        from values import ADict
                        ds = I.call(dsc, [], {})
                        hs = HStore({})
                        I.models['pandas.HDFStore'] = lambda I, a, k: hs
                        st = None
                        if store:
                            st = I.call(I.get(
                                'nilmtk.datastore.hdfdatastore.'
                                'HDFDataStore'), ['f'], {})
                            I.setattr(ds, 'store', st)
                        if tz:
                            I.setattr(ds, 'metadata', ADict(
                                [('timezone', tz)]))
                        I.call(I.getattr(ds, 'set_window'),
                               [T('s') if ss else None,
                                T('e') if se else None], {})
                        w = I.getattr(st, 'window')
                        return obs(I, w, 'start'), obs(I, w, 'end')
                    for out, v, tr in I.explore(go):
                        ctx.paths += 1
                        if out == 'undecided':
                            ctx.undecided(C, v)
                            continue
                        d = 'store=%s timezone=%s start=%s end=%s' % (
                            store, tz, ss, se)
                        if not (store and tz):
                            ctx.expect(out == 'raise' and exc_name(v) ==
                                       'RuntimeError', 'set-window-guards',
                                       C, d + ' -> %s' % short(v), LOC)
                            continue
                        if out == 'raise':
                            ctx.violation('set-window', C, d + ' raises ' +
                                          exc_name(v), LOC)
                            continue
                        ok = True
                        for b, u, n in zip(v, (ss, se), 'se'):
                            if not u:
                                ok = ok and b is None
                            else:
                                ok = ok and isinstance(b, Lin) and \
                                    b.co == {n: 1} and b.tz == tz
                        ctx.expect(ok, 'set-window', C,
                                   '%s: window is %s with tz %s' % (
                                       d, v, [getattr(b, 'tz', None)
                                              for b in v]), LOC)
    ctx.absorb(I)
