"""C23  Converting a data set stores each reading once, where it belongs."""
import itertools
import yaml
from fractions import Fraction
from .tablecommon import *
from .c12 import name
from csvmodel import (Disk, Store, T, BASE, iso, install, DAY_ROWS, GRID,
                      zone, tz_of)
from tables import toarr

EXPLANATION = (
    'Every converter of nilmtk.dataset_converters that reads files (and '
    'DEDDIAG, which asks a data base) is interpreted over disks with the '
    'layout its data set is published in: several buildings, channels and '
    'days, unsorted and repeated times, missing readings, files that do not '
    'belong, both listing orders. Readings are named, so what the store '
    'holds in the end shows which reading went where; it is compared with '
    'the definition: key, measurement, unit, instant, time zone, order. The '
    'metadata which are written are those of the converter, after the data.')
ASSUMPTIONS = [
    'pandas reads and converts as documented (the models are compared with '
    'the library by tools/modeldiff.py)',
    'the raw files have the layout the publishers describe']
LIMITS = ('HES values are judged up to the factor the converter documents; '
          'the converters that download are not claimed; COMBED '
          'meters of which a file is missing are left unspecified.')
MIN_OBLIGATIONS = 150
DC = 'nilmtk/dataset_converters/'
PKG = 'nilmtk.dataset_converters.'
ROOT = '/nilmtk'
LEVELS = ['physical_quantity', 'type']
ACT = ('power', 'active')
APP = ('power', 'apparent')


class World:
    """one conversion: the raw files, what was stored and described"""

    def __init__(self, ctx, conv, files, reverse, hdf=False):
        self.ctx, self.conv, self.hdf = ctx, conv, hdf
        self.loc = DC + conv
        d = conv.split('/')[0]
        self.meta = '%s/dataset_converters/%s/metadata' % (ROOT, d)
        base = {self.meta + '/dataset.yaml': 'name: x\n',
                self.meta + '/meter_devices.yaml': 'm: {}\n'}
        base.update(files)
        self.disk = Disk(base, reverse)
        self.shipped = self.disk.below(self.meta)
        self.stores, self.described, self.modes = [], [], []

    def models(self):
        def hdf5(I, a, k):
            p = self.disk.path(a[0])
            self.described.append(('file', p, a[1], self.disk.below(p),
                                   [s.open_ for s in self.stores]))
            if a[1].startswith('/'):
                self.disk.write(self.disk.path(a[1]), 'metadata only')

        def store(I, a, k):
            p = self.disk.path(a[0])
            if a[1] in self.stores:
                a[1].check(I)
            self.described.append(('store', p, a[1], self.disk.below(p),
                                   [s.open_ for s in self.stores]))

        def hdfstore(I, a, k):
            m = a[1] if len(a) > 1 else k.get('mode', 'a')
            return self.new(a[0], m, True)
        m = dict(TM)
        m.update(self.disk.models())
        m['nilm_metadata.convert_yaml_to_hdf5'] = hdf5
        m['nilm_metadata.save_yaml_to_datastore'] = store
        m['pandas.HDFStore'] = hdfstore
        m['pandas.io.pytables.HDFStore'] = hdfstore
        return m

    def new(self, path, mode, hdf):
        s = Store(hdf)
        self.stores.append(s)
        self.modes.append((path, mode))
        return s

    def overrides(self):
        def opener(I, a, k):
            f = a[1] if len(a) > 1 else k.get('format', 'HDF')
            m = a[2] if len(a) > 2 else k.get('mode', 'a')
            if f not in ('HDF', 'CSV'):
                I.throw('ValueError', 'format not recognised')
            return self.new(a[0], m, False)
        return {'nilmtk.utils.get_datastore': opener,
                'nilmtk.utils.get_module_directory':
                    lambda I, a, k: ROOT}


def interp(ctx, w, more=None, over=None):
    m = w.models()
    m.update(more or {})
    I = ctx.interp(models=m)
    I.overrides.update(w.overrides())
    I.overrides.update(over or {})
    return I


def conversions(ctx, conv, fn, files, args, hdf=False, more=None, over=None,
                prepare=None, orders=(False, True), chunk=None):
    """runs of a converter -> (world, what it stored)"""
    mod = PKG + conv[:-3].replace('/', '.')
    for rev in orders:
        w = World(ctx, conv, files, rev, hdf)
        w.disk.chunk = chunk
        I = interp(ctx, w, more, over)
        C = fn
        f = ctx.anchor(I, mod + '.' + fn)
        if prepare:
            prepare(I, mod)
        first = [dict(w.disk.files), set(w.disk.dirs)]

        def go():
            w.disk.files, w.disk.dirs = dict(first[0]), set(first[1])
            w.disk.moved[:] = []
            w.disk.ranges[:] = []
            del w.stores[:], w.described[:], w.modes[:]
            return I.call(f, [aval(x) if isinstance(x, (list, dict)) else x
                              for x in args], {})
        for o, v, tr in each(ctx, I, C, go):
            if o != 'return':
                ctx.violation('converts', C, '%s: %s' % (
                    what(w), name(v)), w.loc)
                continue
            yield w, I
        ctx.absorb(I)


def what(w):
    return '%s, listing %s' % (w.conv.split('/')[0], 'reversed'
                               if w.disk.reverse else 'sorted')


def labels(fr):
    return [pyval(c) for c in fr.cols.labels]


def rows(frs):
    """{instant: rows in order}, the rows as they are kept"""
    out = {}
    seq = []
    for f in frs:
        for i, l in enumerate(f.idx.labels):
            if not isinstance(l, Lin) or l.kind != 'ts':
                raise Unk('instant %s' % short(l))
            key = l.const if l.co == {'T': 1} else (text_of(l),)
            out.setdefault(key, []).append([d[i] for d in f.data])
            seq.append(key)
    return out, seq


def text_of(l):
    return 'not the instant: %s' % short(l)


def near(I, x, y):
    if isnan(x) or isnan(y):
        return isnan(x) and isnan(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return abs(x - y) <= 1e-5 * max(1.0, abs(y))
    if isinstance(x, Opq) or isinstance(y, Opq):
        raise Unk(short(x))
    return same(I, x, y)


def fits(I, got, want):
    """the rows of one instant, in any order"""
    if len(got) != len(want):
        return False
    left = list(want)
    for g in got:
        for w in left:
            if len(g) == len(w) and all(near(I, x, y)
                                        for x, y in zip(g, w)):
                left.remove(w)
                break
        else:
            return False
    return True


def judge(w, I, want, tz, ordered=True, path='out.h5', C=None, extra=False,
          meta='last'):
    """want: {(building, meter): (columns, [(instant, row)])}"""
    ctx, C = w.ctx, C or w.conv
    t = what(w)
    ctx.expect(w.stores and all(p == path for p, m in w.modes) and
               isinstance(w.modes[0][1], str) and
               w.modes[0][1].startswith('w'), 'output', C,
               '%s: opened %s' % (t, w.modes), w.loc)
    ctx.expect(not w.disk.moved, 'working-directory', C,
               '%s: changes to %s' % (t, w.disk.moved), w.loc)
    keys = {}
    for s in w.stores:
        keys.update(s.keys)
    exp = {'/building%d/elec/meter%d' % k: v for k, v in want.items()}
    ctx.expect(set(keys) == set(exp), 'meters', C,
               '%s: stored %s, expected %s' % (t, sorted(keys), sorted(exp)),
               w.loc)
    for key in sorted(set(keys) & set(exp)):
        cols, rs = exp[key]

        def look():
            frs = keys[key]
            ctx.expect(all(sorted(labels(f)) == sorted(cols) for f in frs),
                       'measurement', C, '%s: %s holds %s, expected %s' % (
                           t, key, [labels(f) for f in frs], cols), w.loc)
            ctx.expect(all(f.cols.names is not None and
                           [pyval(x) for x in (f.cols.names.items
                            if isinstance(f.cols.names, AList)
                            else f.cols.names)] == LEVELS for f in frs),
                       'levels', C, '%s: %s has column levels %s' % (
                           t, key, [f.cols.names for f in frs]), w.loc)
            if not all(sorted(labels(f)) == sorted(cols) for f in frs):
                return
            frs = [f.pick(None, [labels(f).index(c) for c in cols])
                   for f in frs]
            got, seq = rows(frs)
            need = {}
            for x, r in rs:
                need.setdefault(Fraction(x), []).append(r)
            ok = set(got) == set(need) and all(
                fits(I, got[x], need[x]) for x in got)
            ctx.expect(ok, 'readings', C,
                       '%s: %s holds %s, expected %s' % (
                           t, key, show(got), show(need)), w.loc)
            if ok and ordered:
                ctx.expect(all(a <= b for a, b in zip(seq, seq[1:])),
                           'order', C, '%s: %s is not in time order' % (
                               t, key), w.loc)
            zs = {tz_of(f.idx) for f in frs if f.idx.labels}
            ctx.expect(zs <= {tz}, 'time-zone', C,
                       '%s: %s is in %s, expected %s' % (t, key, zs, tz),
                       w.loc)
        guard(ctx, C, look)
    ctx.expect(not any(s.open_ for s in w.stores), 'closed', C,
               '%s: the store is left open' % t, w.loc)
    if w.hdf:
        ctx.expect(not any(s.plain for s in w.stores), 'table-format', C,
                   '%s: not tables: %s' % (t, [
                       sorted(s.plain) for s in w.stores]), w.loc)


def described(w, C, path='out.h5', meta=None, closed=True):
    """the converter's own metadata, into what holds the data"""
    ctx, t = w.ctx, what(w)
    ok = len(w.described) == 1
    if ok:
        how, p, dest, files, op = w.described[0]
        ok = p == (meta or w.meta)
        if how == 'file':
            ok = ok and dest == path and not any(op)
        else:
            ok = ok and dest is w.stores[0]
    ctx.expect(ok, 'metadata', C, '%s: metadata %s' % (
        t, [(d[0], d[1], short(d[2]), 'store open' if any(d[4]) else
             'store closed') for d in w.described]), w.loc)


def show(d):
    return {(float(x) if not isinstance(x, tuple) else x[0]):
            [[short(y) for y in r] for r in v] for x, v in sorted(
                d.items(), key=str)[:6]}


def at(x):
    return atom('num', x)


# ----------------------------------------------------------------- REDD
def redd(ctx):
    conv = 'redd/convert_redd.py'
    f = {}
    want = {}
    shape = {1: [1, 2, 3, 10, 20], 2: [1, 5], 6: [4]}
    for h, chans in shape.items():
        for c in chans:
            n = 'h%dc%d' % (h, c)
            ts = [(5, 'a'), (3, 'b'), (4, 'c')] if c != 5 else [
                (7, 'a'), (7, 'b'), (6, 'c')]
            f['/raw/house_%d/channel_%d.dat' % (h, c)] = ''.join(
                '%d @%s%s\n' % (BASE + x, n, y) for x, y in ts)
            want[h, c] = ([APP if c <= 2 else ACT],
                          [(x, [at(n + y)]) for x, y in ts])
        f['/raw/house_%d/labels.dat' % h] = '1 mains\n'
        f['/raw/house_%d/channel_1.dat.bak' % h] = '9 1\n'
    f['/raw/house_list.txt'] = 'x'
    f['/raw/old_house_3/channel_1.dat'] = '%d 1\n' % BASE
    f['/raw/house_2_old/channel_1.dat'] = '%d 1\n' % BASE
    f['/raw/house_5_old/channel_1.dat'] = '%d 1\n' % BASE
    for w, I in conversions(ctx, conv, 'convert_redd', f,
                            ['/raw', 'out.h5']):
        judge(w, I, want, 'US/Eastern')
        described(w, conv)
    loader(ctx)


def num(y):
    """a reading in kW, for files whose values are computed with"""
    return (ord(y) - 99) / 4.


# converter, columns, time zone, the text of a file, the arguments, the row
LOADERS = [
    ('redd.convert_redd', [ACT, APP], 'Asia/Tokyo',
     lambda l: ''.join('%d @%s1 @%s2\n' % (BASE + x, y, y) for x, y in l),
     lambda: ['/raw/a.dat', AList([ACT, APP]), 'Asia/Tokyo'],
     lambda y: [at(y + '1'), at(y + '2')]),
    ('ideal.convert_ideal', [APP], 'Asia/Tokyo',
     lambda l: ''.join('%s,@%s\n' % (iso(x), y) for x, y in l),
     lambda: ['/raw/a.dat', AList([APP]), 'Asia/Tokyo'],
     lambda y: [at(y)]),
    ('hipe.convert_hipe', [APP], 'Europe/Berlin',
     lambda l: 'Machine,SensorDateTime,P_kW\n' + ''.join(
         'm,%s+02:00,%r\n' % (iso(x + 7200, 'T'), num(y)) for x, y in l),
     lambda: ['/raw/a.dat', 'apparent'],
     lambda y: [abs(num(y)) * 1000])]


def loader(ctx):
    """the loaders of single files: REDD's (which UK-DALE shares), IDEAL's
    and HIPE's"""
    rs = [(5, 'a'), (3, 'b'), (5, 'c'), (4, 'd'), (3, 'e')]
    flat = [(1, 'a'), (2, 'b'), (2, 'c'), (3, 'd')]
    for mod, cols, tz, text, args, row in LOADERS:
        for data in (rs, flat, flat[:1], [(1, 'a'), (1, 'b'), (1, 'c')]):
            for dup, srt in itertools.product((False, True), repeat=2):
                if dup and srt and data is rs:
                    continue        # which of the two is first is not said
                load_one(ctx, mod, cols, tz, text, args, row, data, dup, srt)


def load_one(ctx, mod, cols, tz, text, args, row, data, dup, srt):
    C = '%s._load_csv' % mod.split('.')[1]
    w = World(ctx, mod.replace('.', '/') + '.py',
              {'/raw/a.dat': text(data)}, False)
    I = interp(ctx, w)
    fn = ctx.anchor(I, PKG + mod + '._load_csv')

    def go():
        return I.call(fn, args(), {'drop_duplicates': dup,
                                   'sort_index': srt})
    for o, v, tr in each(ctx, I, C, go):
        t = 'rows %s, drop_duplicates=%s, sort_index=%s' % (data, dup, srt)
        if o != 'return':
            ctx.violation('converts', C, '%s: %s' % (t, name(v)), w.loc)
            continue

        def look():
            keep, seen = [], set()
            for x, y in data:
                if dup and x in seen:
                    continue
                seen.add(x)
                keep.append((x, y))
            if srt:
                keep.sort(key=lambda r: r[0])
            if not isinstance(v, Frame):
                raise Unk(short(v))
            got, seq = rows([v])
            need = {}
            for x, y in keep:
                need.setdefault(Fraction(x), []).append(row(y))
            ctx.expect(set(got) == set(need) and all(
                fits(I, got[x], need[x]) for x in got) and
                seq == [x for x, y in keep] and labels(v) == cols and
                tz_of(v.idx) == tz, 'loads', C, '%s: %s in %s under %s' % (
                    t, show(got), tz_of(v.idx), labels(v)), w.loc)
        guard(ctx, C, look)
    ctx.absorb(I)


# -------------------------------------------------------------- UK-DALE
class UK(Dom):
    """the data set as its metadata describe it"""
    __slots__ = ('types', 'log')

    def __init__(self, types, log):
        self.types, self.log = types, log

    def d_truth(self, I):
        return True

    def d_getattr(self, I, n):
        if n == 'buildings':
            bs = sorted({b for b, m in self.types})
            return ADict([(b, Obj({'elec': Obj({
                'meters': AList([self.meter(k) for k in sorted(self.types)
                                 if k[0] == b and not self.types[k][1]]),
                'disabled_meters': AList([
                    self.meter(k) for k in sorted(self.types)
                    if k[0] == b and self.types[k][1]])})}))
                for b in bs])
        if n == 'store':
            return Obj({'close': Native(lambda I, a, k: self.log.append(
                'close'), n)})
        return NotImplemented

    def meter(self, k):
        def ac(I, a, kw):
            q = a[0] if a else kw.get('physical_quantity')
            return AList(self.types[k][0] if q == 'power' else [])
        return Obj({'instance': Native(lambda I, a, kw: k[1], 'instance'),
                    'available_ac_types': Native(ac, 'available_ac_types')})


class Obj(Dom):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def d_truth(self, I):
        return True

    def d_getattr(self, I, n):
        return self.a.get(n, NotImplemented)


def ukdale(ctx):
    conv = 'ukdale/convert_ukdale.py'
    types = {(1, 1): (['apparent'], False), (1, 2): (['active'], False),
             (1, 12): (['apparent'], True),
             (1, 54): (['active', 'apparent'], False),
             (2, 1): (['apparent'], True), (2, 3): (['active'], False),
             (5, 26): (['active', 'apparent'], True)}
    meta = '/raw/metadata'
    for one in (True, False):
        for dup in (True, False):
            tt = {k: v for k, v in types.items()
                  if one or v[0] != ['active', 'apparent']}
            f, want = {meta + '/dataset.yaml': 'x'}, {}
            for (b, m), (ac, dis) in tt.items():
                n = 'u%dm%d' % (b, m)
                rs = [(1, n + 'a'), (2, n + 'b'), (2, n + 'c'),
                      (7, n + 'd')]
                keep = [r for r in rs if not dup or not r[1].endswith('c')]
                if len(ac) == 2:
                    f['/raw/house_%d/mains.dat' % b] = ''.join(
                        '%d.25 @%s1 @%s2 @%s3\n' % (BASE + x, y, y, y)
                        for x, y in rs)
                    want[b, m] = ([ACT, APP, ('voltage', '')], [
                        (Fraction(4 * x + 1, 4), [at(y + '1'), at(y + '2'),
                                                  at(y + '3')])
                        for x, y in keep])
                else:
                    f['/raw/house_%d/channel_%d.dat' % (b, m)] = ''.join(
                        '%d @%s\n' % (BASE + x, y) for x, y in rs)
                    want[b, m] = ([('power', ac[0])], [
                        (x, [at(y)]) for x, y in keep])
            f['/raw/house_1/labels.dat'] = 'x'
            log = []

            def ds(I, a, k, log=log, tt=tt):
                log.append(a[0])
                return UK(tt, log)

            def prepare(I, mod, log=log):
                I.overrides['nilmtk.dataset.DataSet'] = ds
                del log[:]
            args = ['/raw', 'out.h5', 'HDF', dup]
            for w, I in conversions(ctx, conv, 'convert_ukdale', f, args,
                                    more=None, prepare=prepare,
                                    over={'nilmtk.dataset.DataSet': ds}):
                judge(w, I, want, 'Europe/London', ordered=False)
                d = [x for x in w.described if x[2] == 'out.h5']
                ctx.expect(len(d) == 1 and d[0][1] == meta and
                           not any(d[0][4]), 'metadata', conv,
                           '%s: metadata %s' % (what(w), [
                               x[:3] for x in w.described]), w.loc)
                ctx.expect(set(w.disk.files) == set(f) | set(
                    p for p in w.disk.files if p.startswith(ROOT)),
                    'leftovers', conv, '%s: leaves %s behind' % (
                        what(w), sorted(set(w.disk.files) - set(f))), w.loc)


# ----------------------------------------------------- one table, many meters
HOUSES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20,
          21]


def refit(ctx):
    conv = 'refit/convert_refit.py'
    cols = ['Aggregate'] + ['Appliance%d' % i for i in range(1, 10)]
    for clean in (False, True):
        f, want = {}, {}
        for i, h in enumerate(HOUSES):
            ts = [4, 2, 3] if i % 2 else [1, 2]
            head = ['Time', 'Unix'] + cols + ['Issues']
            if i % 3 == 1:      # the order of the columns is the file's
                head = ['Unix', 'Time'] + cols
            out = [','.join(head)]
            for t in ts:
                d = {'Time': '2013-10-09 13:06:%02d' % t,
                     'Unix': str(BASE + t), 'Issues': '0'}
                for c in cols:
                    d[c] = '@r%d.%s.%d' % (h, c, t)
                out.append(','.join(d[c] for c in head))
            f['/raw/' + ('CLEAN_House%d.csv' if clean else 'House_%d.csv')
              % h] = '\n'.join(out) + '\n'
            for j, c in enumerate(cols):
                want[i + 1, j + 1] = ([ACT], [
                    (t, [at('r%d.%s.%d' % (h, c, t))]) for t in ts])
        for w, I in conversions(ctx, conv, 'convert_refit', f,
                                ['/raw', 'out.h5'], orders=(clean,)):
            judge(w, I, want, 'Europe/London')
            described(w, conv)
    f = dict(f)
    del f['/raw/CLEAN_House15.csv']
    incomplete(ctx, conv, 'convert_refit', f, ['/raw', 'out.h5'])


def incomplete(ctx, conv, fn, f, args, **kw):
    """a file is missing: the conversion does not pretend"""
    w = World(ctx, conv, f, False, kw.pop('hdf', False))
    I = interp(ctx, w, **kw)
    g = ctx.anchor(I, PKG + conv[:-3].replace('/', '.') + '.' + fn)
    for o, v, tr in each(ctx, I, conv, lambda: I.call(g, [
            aval(x) if isinstance(x, (list, dict)) else x for x in args],
            {})):
        ctx.expect(o == 'raise', 'missing-file', conv,
                   '%s: a data set with a file missing is converted without '
                   'an error' % what(w), w.loc)


def dred(ctx):
    conv = 'dred/convert_dred.py'
    ts = [3, 1, 2]
    out = ['House,1', 'x', ','.join(['t'] + ['m%d' % i for i in range(13)])]
    for t in ts:
        out.append(','.join([iso(t + 7200) + '+02:00'] + [
            '@d%d.%d' % (i, t) for i in range(13)]))
    f = {'/raw/All_data.csv': '\n'.join(out) + '\n'}
    want = {(1, i + 1): ([APP], [(t, [at('d%d.%d' % (i, t))]) for t in ts])
            for i in range(13)}
    for w, I in conversions(ctx, conv, 'convert_dred', f,
                            ['/raw/All_data.csv', 'out.h5'],
                            orders=(False,)):
        judge(w, I, want, 'Europe/Amsterdam')
        described(w, conv)


# ------------------------------------------------------------------- iAWE
IAWE0 = 1373673600 - BASE       # 2013-07-13 00:00:00 UTC
IAWE = {'W': ACT, 'VAR': ('power', 'reactive'), 'VA': APP,
        'f': ('frequency', ''), 'VLN': ('voltage', ''),
        'PF': ('power factor', ''), 'A': ('current', ''),
        'V': ('voltage', '')}


def iawe(ctx):
    conv = 'iawe/convert_iawe.py'
    f, want = {}, {}
    for ch in range(1, 12):
        head = ['W', 'VAR', 'VA', 'f', 'VLN', 'PF', 'A'] if ch < 3 else \
            ['W', 'VAR', 'f', 'V', 'A'] if ch % 2 else ['VA', 'W', 'A']
        n = len(head)
        rs = [(-30, [500.] * n), (65, [9.] * n), (10, [1. + i + ch
                                                   for i in range(n)]),
              (10, [70.] * n), (50, [3. + 2 * i + ch for i in range(n)]),
              (70, [None] + [11.] * (n - 1)),
              (195, [-4. + 3 * i + ch for i in range(n)]),
              (330, [12. + i for i in range(n)])]
        if ch == 7:
            rs = rs[2:]
        out = [','.join(['timestamp'] + head)]
        for t, r in rs:
            out.append(','.join([str(BASE + IAWE0 + t)] + [
                '\\N' if x is None else repr(x) for x in r]))
        f['/raw/electricity/%d.csv' % ch] = '\n'.join(out) + '\n'
        kept, seen = [], set()
        for t, r in rs:
            if t not in seen and None not in r:
                kept.append((t, r))
            seen.add(t)
        minutes = {}
        for t, r in kept:
            minutes.setdefault(t // 60, []).append(r)
        means = {m: [sum(c) / len(c) for c in zip(*rr)]
                 for m, rr in minutes.items()}
        lo, hi = min(minutes), max(minutes)
        med = []
        for j in range(n):
            c = sorted(v[j] for v in means.values())
            k = len(c)
            med.append(c[k // 2] if k % 2 else (c[k // 2 - 1] + c[k // 2])
                       / 2)
        res = []
        for m in range(GRID):
            res.append((IAWE0 + 60 * m, means.get(m) or [
                0. if IAWE[c][0] == 'power' else med[j]
                for j, c in enumerate(head)]))
        want[1, ch] = ([IAWE[c] for c in head], res)
    f['/raw/electricity/labels.dat'] = 'x'
    for w, I in conversions(ctx, conv, 'convert_iawe', f,
                            ['/raw', 'out.h5'], orders=(False,)):
        judge(w, I, want, 'Asia/Kolkata')
        described(w, conv)
        r = [(x[0].const, x[1], x[2]) for x in w.disk.ranges]
        ctx.expect((IAWE0, 22 * 1440 + 1, 60) in r, 'period', conv,
                   '%s: the minutes kept are %s' % (what(w), r), w.loc)


# ---------------------------------------------------------------------- CAXE
CAXE = [('power', 'reactive'), APP, ('current', ''), ('frequency', ''),
        ('voltage', ''), ACT]


def caxe(ctx):
    """one file without a header, the measures of each minute averaged"""
    conv = 'caxe/convert_caxe.py'
    for off, sh in (('+05:30', 19800), ('+00:00', 0)):
        for swap in (False, True):
            rs = [(t, [1. + i * i + 10 * n for i in range(6)])
                  for n, t in enumerate([0, 20, 59, 60, 90, 125, 179, 180])]
            lines, minutes = [], {}
            for t, r in rs:
                lines.append(iso(IAWE0 + t + sh)[:19] + off + ',' +
                             ','.join(repr(x) for x in r))
                minutes.setdefault(IAWE0 + t - t % 60, []).append(r)
            lines.append(iso(IAWE0 + 70 + sh)[:19] + off + ',7.0,,7.0,7.0,'
                         '7.0,7.0')
            if swap:
                lines = lines[1::2] + lines[::2]
            want = {(1, 1): (CAXE, [
                (m, [sum(c) / len(c) for c in zip(*rr)])
                for m, rr in sorted(minutes.items())])}
            for w, I in conversions(ctx, conv, 'convert_caxe',
                                    {'/raw/x.csv': '\n'.join(lines) + '\n'},
                                    ['/raw/x.csv'], orders=(False,)):
                judge(w, I, want, 'Asia/Kolkata', path='test.h5')
                described(w, conv, path='test.h5')


# -------------------------------------------------------------------- AMPds
AMP = {'V': ('voltage', ''), 'I': ('current', ''), 'f': ('frequency', ''),
       'DPF': ('power factor', 'real'), 'APF': ('power factor', 'apparent'),
       'P': ACT, 'Pt': ('cumulative energy', 'active'),
       'Q': ('power', 'reactive'), 'Qt': ('cumulative energy', 'reactive'),
       'S': APP, 'St': ('cumulative energy', 'apparent')}


def ampds(ctx):
    conv = 'ampds/convert_ampds.py'
    cols = list(AMP)
    f, want = {}, {}
    for i, n in enumerate(['WHE', 'B1E', 'CDE', 'WOE']):
        ts = [60, 120, 180, 240]
        out = ['TS, ' + ', '.join(cols)]
        for t in ts:
            out.append(','.join([str(BASE + t)] + [
                '' if (t, c) == (120, 'St') else
                '@%s%s%d' % (n, c, t) for c in cols]))
        f['/raw/%s.csv' % n] = '\n'.join(out) + '\n'
        want[1, i + 1] = ([AMP[c] for c in cols], [
            (t, [at('%s%s%d' % (n, c, t)) for c in cols])
            for t in ts if t != 120])
    f['/raw/readme.txt'] = 'x'
    f['/raw/.B2E.csv.swp'] = 'x'
    f['/raw/old.csv/a.csv'] = 'x'
    for w, I in conversions(ctx, conv, 'convert_ampds', f,
                            ['/raw', 'out.h5']):
        judge(w, I, want, 'America/Vancouver')
        described(w, conv)


# ------------------------------------------------------------------- COMBED
COMBED = {1: {'Building Total Mains': {'0': 1}, 'Lifts': {'0': 2},
              'Floor Total': {'1': 3, '2': 4, '3': 5, '4': 6, '5': 7},
              'AHU': {'0': 8, '1': 9, '2': 10, '5': 11}, 'Light': {'3': 12},
              'Power Sockets': {'3': 13}, 'UPS Sockets': {'3': 14}},
          2: {'Building Total Mains': {'0': 1},
              'Floor Total': {'0': 2, '1': 3, '2': 4},
              'AHU': {'1': 5, '2': 6, '3': 7}}}


def combed(ctx):
    conv = 'combed/convert_combed.py'
    Q = [('Power', ACT), ('Energy', ('energy', 'active')),
         ('Current', ('current', ''))]
    for sub, some in (('', False), ('/iiitd', False), ('', True)):
        f, want = {}, {}
        for b, nm in ((1, 'Academic Block'), (2, 'Lecture Block')):
            for load, m in COMBED[b].items():
                for path, no in m.items():
                    if some and (no + b) % 3:
                        continue
                    n = 'b%dm%d' % (b, no)
                    ts = (30.25, 30.75, 60)
                    # not every quantity is read at every instant
                    lacks = {('Energy', 30.75), ('Current', 60),
                             ('Power', 60)} if no % 2 and not some else ()
                    # nor does every meter record every quantity
                    q = [x for x in Q if x[0] != {1: 'Current', 3: 'Power'}
                         .get(no % 4) or some or sub]
                    for a, lab in q:
                        f['/raw%s/%s/%s/%s/%s.csv' % (
                            sub, nm, load, path, a)] = ''.join(
                            '%d,@%s%s%d\n' % ((BASE + t) * 1000, n, a, 4 * t)
                            for t in ts if (a, t) not in lacks)
                    ts = [t for t in ts if any((a, t) not in lacks
                                               for a, l in q)]
                    want[b, no] = ([l for a, l in q], [
                        (Fraction(t), [
                            NAN if (a, t) in lacks else
                            at('%s%s%d' % (n, a, 4 * t)) for a, l in q])
                        for t in ts])
        for w, I in conversions(ctx, conv, 'convert_combed', f,
                                ['/raw', 'out.h5'], orders=(False,)):
            judge(w, I, want, 'Asia/Kolkata')
            described(w, conv)
    incomplete(ctx, conv, 'convert_combed', {'/raw/readme.txt': 'x'},
               ['/raw', 'out.h5'])


# --------------------------------------------------------------------- HIPE
HIPE = ['MainTerminal', 'ChipPress', 'ChipSaw', 'HighTemperatureOven',
        'PickAndPlaceUnit', 'ScreenPrinter', 'SolderingOven', 'VacuumOven',
        'VacuumPump1', 'VacuumPump2', 'WashingMachine']


def hipe(ctx):
    conv = 'hipe/convert_hipe.py'
    f, want = {}, {}
    for i, n in enumerate(HIPE):
        rs = [(6, 1.5 + i), (5, -.25 - i), (9, 0.), (7, 12.5 + i)]
        f['/raw/%s_PhaseCount_3_geq_2017-10-23.csv' % n] = \
            'Machine,SensorDateTime,P_kW,Q_kvar\n' + ''.join(
                '%s,%s+02:00,%r,-7\n' % (n, iso(t + 7200, 'T'), v)
                for t, v in rs)
        want[1, i + 1] = ([ACT if i else APP], [
            (t, [abs(v) * 1000]) for t, v in rs])
    f['/raw/readme.txt'] = 'x'
    for w, I in conversions(ctx, conv, 'convert_hipe', f,
                            ['/raw', 'out.h5']):
        judge(w, I, want, 'Europe/Berlin')
        described(w, conv)
    f = dict(f)
    del f['/raw/VacuumPump1_PhaseCount_3_geq_2017-10-23.csv']
    incomplete(ctx, conv, 'convert_hipe', f, ['/raw', 'out.h5'])


# ------------------------------------------------------------------ DEDDIAG
def deddiag(ctx):
    conv = 'deddiag/convert_deddiag.py'
    chans = [24, 26, 27, 28, 35, 51, 52, 53, 59]
    asked = []

    def request(I, a, k):
        c = a[0]
        asked.append((c,) + tuple(a[1:]) + tuple(
            '%s=%s' % x for x in k.items()))
        def get(I, b, kw):
            asked.append(('connection', b[0]))
            return Frame(Idx([0, 1, 2]), Idx(['item_id', 'time', 'value']), [
                [c] * 3, [T(3, None), T(1, None), T(2, None)],
                [at('c%s.%d' % (c, t)) for t in (3, 1, 2)]])
        return Obj({'request': Native(get, 'request')})
    more = {'deddiag_loader.MeasurementsExpanded': request}
    want = {(8, c): ([ACT], [(t, [at('c%d.%d' % (c, t))])
                             for t in (3, 1, 2)]) for c in chans}
    for extra in ([], ['HDF', 'FROM', 'TO', 'Asia/Tokyo']):
        for w, I in conversions(ctx, conv, 'convert_deddiag', {},
                                ['CONNECTION', 'out.h5'] + extra, more=more,
                                orders=(False,),
                                prepare=lambda I, m: asked.clear()):
            judge(w, I, want, 'Asia/Tokyo' if extra else 'Europe/Berlin')
            described(w, conv)
            if extra:
                ctx.expect(all(x[1:] in (('FROM', 'TO'),) for x in asked
                               if x[0] != 'connection') and all(
                    x[1] == 'CONNECTION' for x in asked
                    if x[0] == 'connection'), 'period', conv,
                    '%s: asked for %s' % (what(w), asked[:4]), w.loc)
            asked.clear()


# ---------------------------------------------------------------------- ECO
def eco(ctx):
    import math
    conv = 'eco/convert_eco.py'
    days = ['2011-04-18', '2011-04-19']
    for nested, unusual in ((False, False), (True, False), (False, True)):
        f, want = {}, {}
        for b in (1, 4):
            sm = {p: [] for p in (1, 2, 3)}
            for d, day in enumerate(days):
                out = []
                for i in range(DAY_ROWS):
                    r = [100. * c + 10 * d + i + b for c in range(1, 17)]
                    for p in (1, 2, 3):
                        r[p + 12] = 15. * p + i     # phase angles
                        if (i + p) % 4 == 1:
                            r[p] = -1.
                        elif i == 2:
                            r[p] = 0.
                        elif i == 3:
                            # fed into the grid
                            r[p] = -2. - p
                    out.append(','.join(map(repr, r)))
                    for p in (1, 2, 3):
                        if r[p] != -1:
                            sm[p].append((86400 * d + i, [
                                r[p], r[p + 4], r[p + 7], r[p + 12],
                                r[p] * math.tan(math.radians(r[p + 12]))]))
                f['/raw/%02d_sm_csv/%02d/%s.csv' % (b, b, day)] = '\n'.join(
                    out) + '\n'
            for p in (1, 2, 3):
                want[b, p] = ([ACT, ('current', ''), ('voltage', ''),
                               ('phase angle', ''), ('power', 'reactive')],
                              sm[p])
            for pl in (1, 2, 5, 12):
                rs = []
                for d, day in enumerate(days):
                    vals = [-1. if (i + pl) % 3 == 0 else
                            1000. * b + 100 * pl + 10 * d + i
                            for i in range(DAY_ROWS)]
                    vals[5] = 0.
                    vals[4] = -3.
                    f['/raw/%02d_plugs_csv/%s%02d/%s.csv' % (
                        b, '%02d/' % b if nested else '', pl, day)] = \
                        ''.join('%r\n' % v for v in vals)
                    rs += [(86400 * d + i, [v]) for i, v in enumerate(vals)
                           if v != -1]
                want[b, pl + 3] = ([ACT], rs)
        f['/raw/readme.txt'] = 'x'
        if unusual:
            f['/raw/.hidden/a'] = 'x'
            f['/raw/old.h5'] = 'x'
            f['/raw/04_occupancy_csv/a.csv'] = 'x'
            f['/raw/01_sm_csv/01/readme.txt'] = 'x'
        for w, I in conversions(ctx, conv, 'convert_eco', f,
                                ['/raw', 'out.h5', 'Europe/Zurich'],
                                hdf=True):
            judge(w, I, want, 'Europe/Zurich')
            described(w, conv)
    part = {p: t for p, t in f.items() if 'plugs' in p}
    incomplete(ctx, conv, 'convert_eco', part,
               ['/raw', 'out.h5', 'Europe/Zurich'], hdf=True)
    part = {p: t for p, t in f.items() if 'plugs' not in p}
    incomplete(ctx, conv, 'convert_eco', part,
               ['/raw', 'out.h5', 'Europe/Zurich'], hdf=True)


# -------------------------------------------------------------------- IDEAL
def ideal(ctx):
    conv = 'ideal/convert_ideal.py'
    ts = [4, 2, 3]
    have = [('household', 62, 'hall563', '2c3', 'electric-mains',
             'electric-combined', True),
            ('rooms_appliance', 62, 'kitchen564', '17', 'electric-appliance',
             'kettle', True),
            ('rooms_appliance', 62, 'kitchen564', '18', 'electric-appliance',
             'toaster', True),
            ('rooms_appliance', 62, 'kitchen564', '19', 'room',
             'temperature', False),
            ('household', 63, 'hall563', '5c6', 'electric-mains',
             'electric-combined', False),
            ('household', 105, 'hall9', '71c2', 'electric-mains',
             'electric-combined', True),
            ('household', 105, 'hall9', '73', 'gas-pulse', 'gas', False),
            ('rooms_appliance', 105, 'utility2', '170', 'electric-appliance',
             'washingmachine', True),
            ('rooms_appliance', 107, 'utility2', '12', 'electric-appliance',
             'dishwasher', False)]
    f, want = {}, {}
    for folder, h, room, sensor, cat, sub, keep in have:
        n = 'i%ds%s' % (h, sensor)
        f['/raw/%s_sensordata/home%d_%s_sensor%s_%s_%s.csv.gz' % (
            folder if folder == 'household' else 'rooms_appliance', h, room,
            sensor, cat, sub)] = ''.join(
            '%s,@%s.%d\n' % (iso(t), n, t) for t in ts)
        if keep:
            m = int(sensor.split('c')[0])
            want[h, m] = ([APP if cat == 'electric-mains' else ACT], [
                (t, [at('%s.%d' % (n, t))]) for t in ts])
    f['/raw/rooms_appliance_sensordata/readme.txt'] = 'x'
    f['/raw/metadata/home.csv'] = 'x'
    for w, I in conversions(ctx, conv, 'convert_ideal', f,
                            ['/raw', 'out.h5']):
        judge(w, I, want, 'Europe/London')
        described(w, conv)


# ------------------------------------------------------------------- GREEND
def greend(ctx):
    conv = 'greend/convert_greend.py'

    def day(h, d, blocks, junk=False):
        out, seen = [], []
        for n, (cols, ts) in enumerate(blocks):
            # the row before a header may be cut off in the middle
            out.append(('%.2f,1.0,NULL,NU' % (BASE + d * 86400 + 1) if
                        junk and n == 3 else '') + 'timestamp,' +
                       ','.join(cols))
            for t in ts:
                again = len([x for x in seen if x == t])
                seen.append(t)
                out.append('%.2f,' % (BASE + d * 86400 + t) + ','.join(
                    'NULL' if (c, int(t)) == ('BB', 3) else
                    '@g%d.%s.%d.%d%s' % (h, c, d, int(100 * t), 'x' * again)
                    for c in cols))
        if junk:
            out[1] = '\0\0' + out[1]
        return '\n'.join(out) + '\n'
    plan = {0: {0: [(['AA', 'BB'], [1.5, 2.5, 3.5]),
                    (['AA', 'BB'], [4.5, 5.5]), (['BB', 'AA'], [5.75]),
                    (['BB', 'CC'], [6.5]), (['AA', 'BB'], [6.75])],
                1: [(['BB', 'AA'], [2.5, 1.5])]},
            1: {0: [(['XX'], [1.25])], 2: [(['XX', 'AA'], [7.25, 7.25])],
                3: [(['AA'], [9.25])]}}
    f, want = {}, {}
    for h, ds in plan.items():
        cols, rs = [], []
        for d, blocks in ds.items():
            f['/raw/building%d/dataset_%s.csv' % (h, iso(d * 86400)[:10])] = \
                day(h, d, blocks, junk=h == 0 and d == 0)
            for cs, ts in blocks:
                cols += [c for c in cs if c not in cols]
                rs += [(d * 86400 + Fraction(t), {
                    c: NAN if (c, int(t)) == ('BB', 3) else
                    at('g%d.%s.%d.%d' % (h, c, d, int(100 * t)))
                    for c in cs}) for t in ts]
        seen, keep = set(), []
        for t, r in rs:
            if t not in seen:
                keep.append((t, r))
            seen.add(t)
        for i, c in enumerate(cols):
            want[h + 1, i + 1] = ([ACT], [(t, [r.get(c, NAN)])
                                          for t, r in keep])
    f['/raw/building0/notes.csv'] = 'x'
    f['/raw/readme.txt'] = 'x'
    for mp in (True, False):
        for w, I in conversions(ctx, conv, 'convert_greend', f,
                                ['/raw', 'out.h5', mp], hdf=True):
            judge(w, I, want, 'CET')
            described(w, conv)


# ---------------------------------------------------------------------- HES
LOOKUP = ('Code,Name,nilmtk_name\n8,fridge 1,fridge\n9,fridge 2,fridge\n'
          '14,kettle,kettle\n100,lamp,light\n')


def hes(ctx):
    conv = 'hes/convert_hes.py'
    A, B, Cc = 201, 202, 350
    plan = [('1a', [(A, 8, 2, 1), (A, 9, 2, 2), (A, 8, 4, 3), (B, 240, 2, 4),
                    (B, 8, 2, 5), (B, 14, 2, 6), (A, 8, 0, 7),
                    (B, 14, 4, 8)]),
            ('1b', [(A, 251, 10, 9), (A, 14, 10, 1), (Cc, 208, 10, 2),
                    (Cc, 100, 10, 3), (Cc, 9, 12, 4), (Cc, 8, 10, 5)]),
            ('3', [(B, 8, 20, 6), (B, 8, 22, 7), (A, 9, 20, 8)])]
    f = {'/raw/anonhes/ipsos-anonymised-corrected_310713.csv':
         'Household,x\n202,1\n201,2\n350,3\n400,4\n',
         ROOT + '/dataset_converters/hes/hes_to_nilmtk_appliance_lookup.csv':
         LOOKUP}
    for chunk in (1000000, 3, 2):
        want, houses, codes = {}, [], {}
        for s, rs in plan:
            f['/raw/agd-%s/appliance_group_data-%s.csv' % (s, s)] = ''.join(
                '%d,%d,%d,%s,@h%d.%d.%d,%s\n' % (
                    1, h, a, iso(60 * t)[:10], h, a, t, iso(60 * t)[11:])
                for h, a, t, v in rs)
            for i in range(0, len(rs), chunk):
                part = rs[i:i + chunk]
                for h in sorted({r[0] for r in part}):
                    if h not in houses:
                        houses.append(h)
                    c = codes.setdefault(h, [])
                    mine = [r for r in part if r[0] == h]
                    c += sorted({r[1] for r in mine} - set(c))
                    for _, a, t, v in mine:
                        want.setdefault((houses.index(h) + 1,
                                         c.index(a) + 1), ([ACT], []))[1] \
                            .append((60 * t, [at('h%d.%d.%d' % (h, a, t))]))
        want = {k: (c, [(t, [lift10(r[0])]) for t, r in v])
                for k, (c, v) in want.items()}

        for w, I in conversions(ctx, conv, 'convert_hes', f,
                                ['/raw', 'out.h5'], orders=(False,),
                                chunk=chunk):
            judge(w, I, want, 'UTC', ordered=False)
            guard(ctx, conv, lambda: sorted_chunks(w, conv))
            guard(ctx, conv, lambda: buildings(w, conv, {
                i + 1: (h, codes[h]) for i, h in enumerate(houses)}))


def sorted_chunks(w, conv):
    for s in w.stores:
        for key, frs in s.keys.items():
            for f in frs:
                seq = rows([f])[1]
                w.ctx.expect(seq == sorted(seq), 'order', conv, '%s: %s gets '
                             'readings at %s at once' % (what(w), key, seq),
                             w.loc)


def lift10(x):
    return x.scale(10)


def written(w, conv):
    """the metadata folder handed over, which is temporary"""
    ctx = w.ctx
    ok = len(w.described) == 1
    if ok:
        how, p, dest, files, op = w.described[0]
        ok = how == 'file' and dest == 'out.h5' and not any(op) and \
            p + '/dataset.yaml' in files and p + '/meter_devices.yaml' in \
            files and not p.startswith(ROOT)
    ctx.expect(ok, 'metadata', conv, '%s: metadata %s' % (what(w), [
        (d[0], d[1], short(d[2]), sorted(d[3])) for d in w.described]),
        w.loc)
    ctx.expect(w.disk.below(w.meta) == w.shipped,
               'metadata', conv, '%s: the shipped metadata are changed' %
               what(w), w.loc)
    if not ok:
        return None
    return {q[len(p) + 1:]: yaml.safe_load(t) for q, t in files.items()
            if q.startswith(p + '/building')}


NAMES = {8: ('fridge 1', 'fridge'), 9: ('fridge 2', 'fridge'),
         14: ('kettle', 'kettle'), 100: ('lamp', 'light')}


def buildings(w, conv, houses):
    got = written(w, conv)
    if got is None:
        return
    ctx = w.ctx
    ctx.expect(set(got) == {'building%d.yaml' % i for i in houses},
               'described-buildings', conv, '%s: %s' % (
                   what(w), sorted(got)), w.loc)
    for i, (h, codes) in houses.items():
        d = got.get('building%d.yaml' % i)
        if d is None:
            continue
        exp = {c: codes.index(c) + 1 for c in codes if c in NAMES}
        ctx.expect(d.get('instance') == i and d.get('original_name') == h,
                   'described-buildings', conv, '%s: building %d is %s' % (
                       what(w), i, d), w.loc)
        ms = d.get('elec_meters') or {}
        ctx.expect(set(exp.values()) <= set(ms) and all(
            ms[m].get('device_model') == 'wattmeter'
            for m in exp.values()), 'described-meters', conv,
            '%s: building %d describes the meters %s, appliances are at %s'
            % (what(w), i, ms, exp), w.loc)
        apps = sorted((a.get('original_name'), a.get('type'),
                       tuple(a.get('meters', ())))
                      for a in d.get('appliances', []))
        ctx.expect(apps == sorted(NAMES[c] + ((m,),) for c, m in
                                  exp.items()), 'described-appliances', conv,
                   '%s: building %d has the appliances %s, expected %s' % (
                       what(w), i, apps, exp), w.loc)
        instances(ctx, w, conv, d, i)


def instances(ctx, w, conv, d, i):
    by = {}
    for a in d.get('appliances', []):
        by.setdefault(a.get('type'), []).append(a.get('instance'))
    ctx.expect(all(sorted(v) == list(range(1, len(v) + 1))
                   for v in by.values()), 'appliance-instances', conv,
               '%s: building %d has instances %s' % (what(w), i, by), w.loc)


# -------------------------------------------------------------------- SMART*
def smart(ctx):
    conv = 'smart/convert_smart.py'
    f, want = {}, {}
    for b, h in enumerate('ABC'):
        years = ['2011', '2012', '2013'] if h == 'A' else \
            ['2011', '2012'] if h != 'B' else ['2011']
        cols = {1: ['Lamp', 'Oven'], 2: ['Oven', 'Fridge'], 3: ['Pump']}
        if h == 'C':
            cols = {1: ['Lamp'], 4: ['Dryer']}
        names, rs = ['use'], []
        for y in years:
            day = (int(y) - 2011) * 366 * 86400
            per = []
            for m, cs in cols.items():
                base = '/raw/Home%s/%s/' % (h, y)
                f[base + 'Home%s-meter%d.txt' % (h, m)] = \
                    'Home%s-meter%d\ncols\nevery %s minutes\nend\n' % (
                        h, m, 30 if m < 4 else 1)
                use = 'use [kW]' if m % 2 else 'Usage [kW]'
                gens = ['gen [kW]', 'Grid [kW]'] if m % 2 else [
                    'Solar [kW]', 'grid [kW]', 'Generation [kW]']
                out = [','.join(['Date & Time', use] + gens + [
                    c + ' [kW]' for c in cs])]
                for i in range(2):
                    out.append(','.join([iso(day + 1800 * i),
                                         '@%s%suse%d.%d' % (h, y, m, i),
                                         ] + ['@gen'] * len(gens) + [
                        '@%s%s%s%d.%d' % (h, y, c, m, i) for c in cs]))
                f[base + 'Home%s-meter%d_%s.csv' % (h, m, y)] = '\n'.join(
                    out) + '\n'
                if m < 4:
                    per += [(c, m) for c in cs]
            first = min(m for m in cols)
            for i in range(2):
                rs.append((day + 1800 * i, [
                    '%s%suse%d.%d' % (h, y, first, i)] + [
                    '%s%s%s%d.%d' % (h, y, c, m, i) for c, m in per]))
        for j in range(len(rs[0][1])):
            want[b + 1, j + 1] = ([ACT], [
                (t, [at(r[j]).scale(1000)]) for t, r in rs])
    for w, I in conversions(ctx, conv, 'convert_smart', f,
                            ['/raw', 'out.h5']):
        judge(w, I, want, 'US/Eastern')
        described(w, conv)


# ----------------------------------------------------------------- Dataport
def dataport(ctx):
    conv = 'dataport/csv_converter.py'
    head = ['dataid', 'egauge_1s_data_availability', 'grid', 'city', 'state',
            'building_type', 'house_construction_year', 'other']
    houses = [(77, '98%', 'yes', 'Austin'), (26, '100%', 'yes', 'Boulder'),
              (50, '40%', 'yes', 'Austin'), (51, '99%', '', 'Austin'),
              (90, '97%', 'yes', 'Ithaca'), (12, '99%', 'yes', 'Nowhere')]
    md = '\n'.join([','.join(head), ','.join(['words'] * len(head))] + [
        '%d,%s,%s,%s,TX,house,1990,z' % h for h in houses]) + '\n'
    csvs = {'/raw/f1.csv': (
        ['dataid', 'localminute', 'air1', 'grid', 'kitchen1', 'leg1v',
         'solar', 'solar2'],
        [(26, 5, 'agk'), (77, 2, 'agks'), (26, 3, 'agk'), (50, 3, 'agk'),
         (77, 1, 'agks'), (26, 4, 'gk'), (99, 1, 'agk')]),
        '/raw/f2.csv': (
        ['dataid', 'localminute', 'air2', 'air1', 'car1', 'grid',
         'kitchen1', 'solar', 'solar2'],
        [(26, 11, 'Acg'), (26, 12, 'Acg'), (90, 10, 'Acgk'),
         (77, 12, 'agsS'), (77, 13, 'agsS'), (51, 12, 'acg')])}
    code = {'air1': 'a', 'air2': 'A', 'car1': 'c', 'grid': 'g',
            'kitchen1': 'k', 'leg1v': 'v', 'solar': 's', 'solar2': 'S'}
    types = {'air1': 'air conditioner', 'air2': 'air conditioner',
             'car1': 'electric vehicle', 'kitchen1': 'sockets'}
    f = {'/raw/metadata.csv': md,
         ROOT + '/dataset_converters/dataport/metadata/building9.yaml':
         'instance: 9\n'}
    for p, (h, rs) in csvs.items():
        out = [','.join(h)]
        for b, t, have in rs:
            out.append(','.join(
                str(b) if c == 'dataid' else
                iso(t - 5 * 3600) + '-05' if c == 'localminute' else
                '120' if c == 'leg1v' else
                '@p%d.%s.%d' % (b, c, t) if code[c] in have else ''
                for c in h))
        f[p] = '\n'.join(out) + '\n'
    readings = {}
    for p, (h, rs) in csvs.items():
        for b, t, have in rs:
            d = {c: at('p%d.%s.%d' % (b, c, t)) for c in h
                 if code.get(c) in list(have)}
            use = d.pop('grid')
            for s in ('solar', 'solar2'):
                if s in d:
                    use = use.add(d.pop(s))
            d['use'] = use
            readings.setdefault(b, []).append((t, d))
    f['/repo-of-old-buildings'] = ''
    for chunk in (1000, 2, 1):
        for files in (['/raw/f2.csv', '/raw/f1.csv'], ['/raw/f1.csv']):
            use = {}
            for b, rs in readings.items():
                if b in (26, 77, 90):
                    k = [r for r in rs if len(files) == 2 or r[0] < 10]
                    if k:
                        use[b] = k
            for w, I in conversions(
                    ctx, conv, 'convert_dataport', f,
                    [files, '/raw/metadata.csv', 'out.h5', chunk], hdf=True,
                    orders=(False,)):
                guard(ctx, conv, lambda: port(w, I, conv, use, types))


def port(w, I, conv, use, types):
    got = written(w, conv)
    if got is None:
        return
    ctx, t = w.ctx, what(w)
    ctx.expect(set(got) == {'building%d.yaml' % (i + 1)
                            for i in range(len(use))},
               'described-buildings', conv, '%s: %s' % (t, sorted(got)),
               w.loc)
    want = {}
    for i, b in enumerate(sorted(use)):
        d = got.get('building%d.yaml' % (i + 1))
        if d is None:
            continue
        ctx.expect(d.get('original_name') == b and d.get('instance') == i + 1,
                   'described-buildings', conv, '%s: building %d is %s' % (
                       t, i + 1, d), w.loc)
        ms = d.get('elec_meters') or {}
        site = [m for m, x in ms.items() if x.get('site_meter')]
        apps = {}
        for a in d.get('appliances', []):
            apps.setdefault(a.get('original_name'), []).append(a)
        cols = set()
        for _, r in use[b]:
            cols |= set(r)
        ctx.expect(len(site) == 1 and set(apps) == cols - {'use'} and all(
            len(x) == 1 and x[0].get('type') == types[n] and
            len(x[0].get('meters', [])) == 1 and
            ms.get(x[0]['meters'][0], {}).get('submeter_of') == 0
            for n, x in apps.items()) and len(ms) == len(cols),
            'described-appliances', conv, '%s: building %d, columns %s, has '
            'the appliances %s on the meters %s' % (
                t, i + 1, sorted(cols), apps, ms), w.loc)
        instances(ctx, w, conv, d, i + 1)
        if len(site) != 1:
            continue
        where = {n: x[0]['meters'][0] for n, x in apps.items()}
        where['use'] = site[0]
        for c in cols:
            if c in where:
                want[i + 1, where[c]] = ([ACT], [
                    (x, [r[c].scale(1000)]) for x, r in use[b] if c in r])
    present(w, I, want)


def present(w, I, want):
    """rows without a reading may be kept or left out"""
    for s in w.stores:
        for k, frs in s.keys.items():
            s.keys[k] = [fr.pick([i for i in range(len(fr.idx.labels))
                                  if not all(isnan(d[i]) for d in fr.data)])
                         for fr in frs]
    judge(w, I, want, 'US/Central', C=w.conv)


def run(ctx):
    install()
    for part in (redd, ukdale, refit, dred, iawe, caxe, ampds, combed, hipe,
                 deddiag, eco, ideal, greend, hes, smart, dataport):
        try:
            part(ctx)
        except AssertionError as e:
            raise
