"""C08 - data stores are interchangeable: same operations, same keys, same
listing, same errors; converting one store into another copies everything.
The store classes, the key class and convert_datastore are abstractly
interpreted over models of pandas.HDFStore and of the file system."""
import ast

from values import AObj, AList, ADict, Ext, Opq, Dom, AClass, AFunc, \
    Native, AProp, short, key_of
from interp import AbstractRaise, Undecided
from fsmodel import FS, Table
from .tfcommon import exc_name, Unk
from . import csvtext
from .storecommon import (HDF, CSV, TMP, KEY, mk_hstore, interp_with,
                          set_world)

MIN_OBLIGATIONS = 120
ASSUMPTIONS = ['HDF nodes and files are addressed by the names used here; '
               'the order of a listing is not specified']
BASE = 'nilmtk.datastore.datastore.DataStore'


def run(ctx):
    interface(ctx)
    listing(ctx)
    reading(ctx)
    csvtext.roundtrip(ctx)
    keys(ctx)
    convert(ctx)
    opening(ctx)


# ---------------------------------------------------------------- interface
def sig(f):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][1:]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd else list(pos)
    return pos, set(req), a.vararg, a.kwarg, \
        {k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}


def methods(I, c):
    out = {}
    for n in c.mro()[::-1]:
        if isinstance(n, AClass):
            for k, v in n.ns.items():
                out[k] = (n, v)
    return out


def interface(ctx):
    I = interp_with(ctx, FS())
    base = ctx.anchor(I, BASE)
    LOC = 'nilmtk/datastore/'
    bm = {}
    for k, v in base.ns.items():
        if isinstance(v, AFunc) and k != '__init__':
            bm[k] = v
    for dotted in (HDF, CSV, TMP):
        sc = ctx.anchor(I, dotted)
        for k, bf in sorted(bm.items()):
            f = sc.lookup(k)
            C = '%s.%s' % (sc.name, k)
            if isinstance(f, AObj) or not isinstance(f, AFunc):
                ctx.undecided('interface', C)
                continue
            ctx.expect(f is not bf, 'operation-provided', C,
                       '%s does not provide %s' % (sc.name, k), LOC)
            if f is bf or k == 'remove':
                continue
            pos, req, va, kw, kreq = sig(f)
            bpos, breq, _, _, _ = sig(bf)
            ok = (va is not None or pos[:len(bpos)] == bpos) and \
                not kreq and req <= set(bpos) | set() and req <= breq | \
                set()
            if va is not None:
                ok = not kreq
            ctx.expect(ok, 'same-parameters', C,
                       '%s takes %s where the interface promises %s' % (
                           C, pos, bpos), LOC)
    ctx.absorb(I)


# ------------------------------------------------------------------ listing
FILES = ['dir/building1/elec/meter1.csv', 'dir/building1/elec/meter2.csv',
         'dir/building1/elec/meter12.csv', 'dir/building2/elec/meter1.csv',
         'dir/metadata/dataset.yaml', 'dir/metadata/building1.yaml']
TABLES = ['/building1/elec/meter1', '/building1/elec/meter2',
          '/building1/elec/meter12', '/building2/elec/meter1']
EXPECT = [(None, {'building1', 'building2'}),
          ('/', {'building1', 'building2'}),
          ('/building1', {'elec'}), ('building1', {'elec'}),
          ('/building1/elec', {'meter1', 'meter2', 'meter12'}),
          ('building2/elec', {'meter1'})]


def world(I, kind, sc, mode='a'):
    if kind == 'csv':
        fs = FS(files=FILES)
        for f in fs.files:
            if f.endswith('.csv'):
                fs.files[f] = ['header', Table(f[3:-4])]
        set_world(I, fs)
        st = I.call(sc, ['dir'], {})
        return st, fs, None
    fs = FS(files=['f.h5'])
    hs = mk_hstore({t: [Table(t)] for t in TABLES},
                   {('/building1', 'metadata'): ADict([('instance', 1)]),
                    ('/building2', 'metadata'): ADict([('instance', 2)]),
                    ('/', 'metadata'): ADict([('name', 'X')])})
    set_world(I, fs, hs)
    st = I.call(sc, ['f.h5', mode], {})
    return st, fs, hs


def each(ctx, I, C, go):
    for out, v, tr in I.explore(go, max_paths=60):
        ctx.paths += 1
        if out == 'undecided':
            ctx.undecided(C, v)
            continue
        yield out, v, tr


def listing(ctx):
    for kind, dotted in (('hdf', HDF), ('csv', CSV)):
        I = interp_with(ctx, FS())
        sc = ctx.anchor(I, dotted)
        C = sc.name + '.elements_below_key'
        LOC = 'nilmtk/datastore/%sdatastore.py' % kind
        for key, want in EXPECT:
            def go():
                st, fs, hs = world(I, kind, sc)
                r = I.call(I.getattr(st, 'elements_below_key'),
                           [] if key is None else [key], {})
                return list(I.iterate(r))
            for out, v, tr in each(ctx, I, C, go):
                if out == 'raise':
                    ctx.violation('listing', C, 'below %r raises %s' % (
                        key, exc_name(v)), LOC)
                    continue
                if not all(isinstance(x, str) for x in v):
                    ctx.undecided(C, short(v))
                    continue
                ctx.expect(set(v) == want and len(v) == len(want),
                           'listing', C, 'below %r lists %s, expected %s' % (
                               key, sorted(v), sorted(want)), LOC)
        ctx.absorb(I)


# ------------------------------------------------------------------ reading
def reading(ctx):
    for kind, dotted in (('hdf', HDF), ('csv', CSV)):
        I = interp_with(ctx, FS())
        sc = ctx.anchor(I, dotted)
        LOC = 'nilmtk/datastore/%sdatastore.py' % kind
        for key in (KEY, KEY[1:], '/building1/elec/meter12'):
            def go():
                st, fs, hs = world(I, kind, sc)
                return I.getitem(st, key)
            C = sc.name + '.__getitem__'
            for out, v, tr in each(ctx, I, C, go):
                if out == 'raise':
                    ctx.violation('reads-key', C, 'key %r raises %s' % (
                        key, exc_name(v)), LOC)
                elif not isinstance(v, Table):
                    ctx.undecided(C, short(v))
                else:
                    k2 = '/' + key.strip('/')
                    ctx.expect(v.name.endswith(k2) and
                               k2 in v.name.split(':')[1].replace('.csv', '')
                               and v.name.split(':')[1].replace(
                                   '.csv', '').endswith(k2),
                               'reads-key', C, 'key %r reads %s' % (
                                   key, v.name), LOC)
        for key in ('/building1/elec/meter9', '/building7/elec/meter1'):
            def go():
                st, fs, hs = world(I, kind, sc)
                return I.getitem(st, key)
            C = sc.name + '.__getitem__'
            for out, v, tr in each(ctx, I, C, go):
                ctx.expect(out == 'raise' and exc_name(v) == 'KeyError',
                           'unknown-key', C, 'unknown key %r gives %s' % (
                               key, short(v)), LOC)

            def go():
                st, fs, hs = world(I, kind, sc)
                if hs is not None:
                    def miss(I, a, k):
                        I.throw('KeyError', 'No object named')
                    hs.cfg['get_storer'] = miss
                    hs.cfg['select_as_coordinates'] = miss
                    hs.cfg['select'] = miss
                g = I.call(I.getattr(st, 'load'), [key], {})
                return list(I.iterate(g))
            C = sc.name + '.load'
            for out, v, tr in each(ctx, I, C, go):
                ctx.expect(out == 'raise' and exc_name(v) == 'KeyError',
                           'unknown-key', C, 'loading unknown key %r gives '
                           '%s' % (key, short(v)), LOC)
        ctx.absorb(I)
    # write then read through the same spelling
    I = interp_with(ctx, FS())
    sc = ctx.anchor(I, CSV)
    C = 'CSVDataStore.put'
    for wk in (KEY, KEY[1:]):
        for rk in (KEY, KEY[1:]):
            def go():
                fs = FS(dirs=['dir'])
                set_world(I, fs)
                st = I.call(sc, ['dir'], {})
                I.call(I.getattr(st, 'put'), [wk, Table('new')], {})
                return I.getitem(st, rk), I.call(
                    I.getattr(st, 'elements_below_key'),
                    ['/building1/elec'], {})
            for out, v, tr in each(ctx, I, C, go):
                ok = out == 'return' and isinstance(v[0], Table) and \
                    'new' in v[0].name and list(v[1].items) == ['meter1']
                ctx.expect(ok, 'same-place', C, 'written as %r, read as %r: '
                           '%s' % (wk, rk, short(v)),
                           'nilmtk/datastore/csvdatastore.py')
    ctx.absorb(I)


# --------------------------------------------------------------------- keys
def keys(ctx):
    I = interp_with(ctx, FS())
    kc = ctx.anchor(I, 'nilmtk.datastore.key.Key')
    jk = ctx.anchor(I, 'nilmtk.datastore.datastore.join_key')
    LOC = 'nilmtk/datastore/key.py'

    def obs(k):
        return tuple(I.getattr(k, n) for n in ('building', 'meter',
                                               'utility'))
    good = [('/building1', (1, None, None)), ('building12', (12, None, None)),
            ('/building1/', (1, None, None)),
            ('building1/elec', (1, None, 'elec')),
            ('/building3/elec/meter10', (3, 10, 'elec')),
            ('building21/elec/meter1/', (21, 1, 'elec'))]
    for s, want in good:
        def go():
            k = I.call(kc, [s], {})
            r = obs(k)
            txt = I.call(Ext('builtins.str'), [k], {})
            k2 = I.call(kc, [txt], {})
            return r, txt, obs(k2)
        for out, v, tr in each(ctx, I, 'Key', go):
            if out == 'raise':
                ctx.violation('key-parse', 'Key', '%r raises %s' % (
                    s, exc_name(v)), LOC)
                continue
            r, txt, r2 = v
            ctx.expect(r == want, 'key-parse', 'Key', '%r parsed as %s' % (
                s, r), LOC)
            ctx.expect(isinstance(txt, str) and r2[:2] == want[:2] and
                       txt.startswith('/'), 'key-round-trip', 'Key',
                       '%r printed as %r and read back as %s' % (
                           s, txt, r2), LOC)
    for b, m in ((1, 1), (2, None), (12, 34)):
        def go():
            k = I.call(kc, [], {'building': b, 'meter': m})
            txt = I.call(Ext('builtins.str'), [k], {})
            return txt, obs(I.call(kc, [txt], {}))
        for out, v, tr in each(ctx, I, 'Key', go):
            w = '/building%d' % b + ('/elec/meter%d' % m if m else '')
            ctx.expect(out == 'return' and v[0] == w and
                       v[1][:2] == (b, m), 'key-round-trip', 'Key',
                       'building %s meter %s gives %s' % (b, m, short(v)),
                       LOC)
    for bad in ('house1', '/building0', 'building1/elec/meter0',
                'building1/elec/light1', 'buildingX', 'building'):
        def go():
            return I.call(kc, [bad], {})
        for out, v, tr in each(ctx, I, 'Key', go):
            ctx.expect(out == 'raise' and exc_name(v) in (
                'AssertionError', 'ValueError'), 'key-refused', 'Key',
                'malformed key %r is accepted' % bad, LOC)
    for args, want in ((('building1', 'elec', 'meter1'),
                        '/building1/elec/meter1'),
                       (('/building1/', '/elec', 'meter1/'),
                        '/building1/elec/meter1'),
                       (('/',), '/'), (('',), '/'), ((), '/'),
                       (('/building1', ''), '/building1'),
                       (('/building1/elec', 'cache/meter1', 'x'),
                        '/building1/elec/cache/meter1/x'),
                       (('building1', '/', 'elec'), '/building1/elec'),
                       (('/', '/building1'), '/building1'),
                       (('building1', 2), '/building1/2')):
        def go():
            return I.call(jk, list(args), {})
        for out, v, tr in each(ctx, I, 'join_key', go):
            ctx.expect(out == 'return' and v == want, 'join-key', 'join_key',
                       'join_key%s gives %s' % (args, short(v)),
                       'nilmtk/datastore/datastore.py')
    ctx.absorb(I)


# ------------------------------------------------------------------ convert
class Recorder(Dom):
    """an output store that records what it is given"""
    __slots__ = ('log',)

    def __init__(self):
        self.log = []

    def d_method(self, I, name, args, kwargs):
        if name in ('save_metadata', 'append', 'put', 'remove', 'flush',
                    'close', 'open'):
            names = {'save_metadata': ('key', 'metadata')}.get(
                name, ('key', 'value'))
            a = list(args) + [kwargs[n] for n in names[len(args):]
                              if n in kwargs]
            self.log.append((name,) + tuple(a))
            return None
        return NotImplemented


def convert(ctx):
    CV = 'convert_datastore'
    LOC = 'nilmtk/datastore/datastore.py'
    for kind, dotted in (('hdf', HDF), ('csv', CSV)):
        for chunks in (0, 1, 2):
            I = interp_with(ctx, FS())
            sc = ctx.anchor(I, dotted)
            fn = ctx.anchor(I, 'nilmtk.datastore.datastore.convert_datastore')

            def load(I, a, k):
                key = a[1]
                return AList([Table('%s#%d' % (key, i))
                              for i in range(chunks)])

            def loadmd(I, a, k):
                key = a[1] if len(a) > 1 else k.get('key', '/')
                return Opq('metadata', (key,))
            I.overrides[sc.lookup('load').qualname] = load
            I.overrides[sc.lookup('load_metadata').qualname] = loadmd

            def go():
                st, fs, hs = world(I, kind, sc)
                if hs is not None:
                    t = hs.cfg['tables']
                    old = list(t.items())
                    t.clear()
                    t['/building1/elec/cache/meter1/x'] = [Table('cached')]
                    t.update(old)
                else:
                    fs.mkdirs('dir/building1/elec/cache')
                r = Recorder()
                I.call(fn, [st, r], {})
                return r.log
            for out, v, tr in each(ctx, I, CV, go):
                d = '%s input, %d chunk(s) per meter' % (kind, chunks)
                if out == 'raise':
                    ctx.violation('convert-total', CV, '%s raises %s' % (
                        d, exc_name(v)), LOC)
                    continue
                md = {}
                data = {}
                und = False
                for e in v:
                    if not isinstance(e[1] if len(e) > 1 else '', str):
                        und = True
                        break
                    if e[0] == 'save_metadata':
                        md[e[1]] = e[2]
                    elif e[0] == 'append':
                        data.setdefault(e[1], []).append(
                            getattr(e[2], 'name', short(e[2])))
                    elif e[0] == 'put':
                        data[e[1]] = [getattr(e[2], 'name', short(e[2]))]
                if und:
                    ctx.undecided(CV, short(v))
                    continue
                wantmd = {k: Opq('metadata', (k,)) for k in (
                    '/', '/building1', '/building2')}
                ctx.expect({k: key_of(x) for k, x in md.items()} ==
                           {k: key_of(x) for k, x in wantmd.items()},
                           'convert-metadata', CV,
                           '%s: metadata written: %s' % (d, short(md)), LOC)
                want = {k: ['%s#%d' % (k, i) for i in range(chunks)]
                        for k in TABLES} if chunks else {}
                ctx.expect(data == want, 'convert-data', CV,
                           '%s: data written: %s, expected %s' % (
                               d, data, want), LOC)
            ctx.absorb(I)


# ------------------------------------------------------------------ opening
def opening(ctx):
    LOC = 'nilmtk/utils.py'
    I = interp_with(ctx, FS())
    fn = ctx.anchor(I, 'nilmtk.utils.get_datastore')
    C = 'get_datastore'
    for fnm, fmt, mode, want in (
            ('a.h5', None, 'r', 'HDFDataStore'),
            ('a.h5', None, None, 'HDFDataStore'),
            ('a.csv', None, 'r', 'CSVDataStore'),
            ('a.h5', 'HDF', 'w', 'HDFDataStore'),
            ('dir', 'CSV', 'r', 'CSVDataStore'),
            ('a.xyz', None, 'r', 'ValueError'),
            ('a.h5', 'SQL', 'r', 'ValueError'),
            (None, 'HDF', 'r', 'ValueError')):
        def go():
            fs = FS(files=['a.h5', 'a.xyz'])
            hs = mk_hstore()
            set_world(I, fs, hs)
            kw = {} if mode is None else {'mode': mode}
            return I.call(fn, [fnm, fmt], kw), [
                e for e in I.trace if e.kind == 'store' and
                e.data['op'] == 'open']
        for out, v, tr in each(ctx, I, C, go):
            d = 'filename=%s format=%s mode=%s' % (fnm, fmt, mode)
            if out == 'raise':
                ctx.expect(exc_name(v) == want, 'opens-right-store', C,
                           '%s raises %s' % (d, exc_name(v)), LOC)
                continue
            st, ev = v
            got = st.cls.name if isinstance(st, AObj) else short(st)
            ctx.expect(got == want, 'opens-right-store', C,
                       '%s gives %s, expected %s' % (d, got, want), LOC)
            if want == 'HDFDataStore' and got == want:
                m = None
                for e in ev:
                    a, k = e.data['args'], e.data['kwargs']
                    m = a[1] if len(a) > 1 else k.get('mode', 'a')
                ctx.expect(m == (mode or 'r'), 'opens-in-mode', C,
                           '%s: opened with mode %s' % (d, m), LOC)
    # opening a missing file for reading or appending is refused, not created
    sc = ctx.anchor(I, HDF)
    for mode in ('r', 'a', None, 'w'):
        def go():
            fs = FS()
            set_world(I, fs, mk_hstore())
            return I.call(sc, ['nofile.h5'] + ([mode] if mode else []), {})
        for out, v, tr in each(ctx, I, 'HDFDataStore', go):
            if mode == 'w':
                ctx.expect(out == 'return', 'missing-file',
                           'HDFDataStore.__init__',
                           'a new file cannot be created',
                           'nilmtk/datastore/hdfdatastore.py')
            else:
                ctx.expect(out == 'raise' and exc_name(v) in (
                    'OSError', 'IOError', 'FileNotFoundError'),
                    'missing-file', 'HDFDataStore.__init__',
                    'opening a missing file with mode %s gives %s' % (
                        mode, short(v)), 'nilmtk/datastore/hdfdatastore.py')
    ctx.absorb(I)
