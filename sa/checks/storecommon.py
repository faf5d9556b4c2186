"""Building stores over the models of pandas.HDFStore and the file system."""
from values import AObj, AList, ADict, Ext, Opq, Dom, short, key_of
from interp import AbstractRaise, Undecided
from storemodel import HStore, fs_models
from fsmodel import FS, Table, Handle
from .tfcommon import exc_name, Unk

HDF = 'nilmtk.datastore.hdfdatastore.HDFDataStore'
CSV = 'nilmtk.datastore.csvdatastore.CSVDataStore'
TMP = 'nilmtk.datastore.tmpdatastore.TmpDataStore'
KEY = '/building1/elec/meter1'


class Node(Dom):
    __slots__ = ('path', 'store')

    def __init__(self, store, path):
        self.store, self.path = store, path

    def __repr__(self):
        return '<node %s>' % self.path

    def d_getattr(self, I, name):
        if name in ('_v_attrs', 'attrs'):
            return Attrs(self)
        if name in ('_v_children', '_v_groups'):
            pre = '' if self.path == '/' else self.path
            kids = []
            for k in self.store.cfg['tables']:
                if k.startswith(pre + '/'):
                    n = k[len(pre) + 1:].split('/')[0]
                    if n and n not in kids:
                        kids.append(n)
            return ADict([(n, Opq('node', (n,))) for n in kids])
        if name == '_v_pathname':
            return self.path
        return NotImplemented


class Attrs(Dom):
    __slots__ = ('node',)

    def __init__(self, node):
        self.node = node

    def d_getattr(self, I, name):
        md = self.node.store.cfg['meta']
        k = (self.node.path, name)
        if k in md:
            return md[k]
        if name.startswith('_') or name == 'get':
            return NotImplemented
        I.throw('AttributeError', name)

    def d_setattr(self, I, name, value):
        I.event('store', op='write-attr', args=(self.node.path, name, value),
                kwargs={}, obj=self.node.store)
        I.fault(Opq('attr', (self.node.store, '__setattr__')), [], {})
        self.node.store.cfg['meta'][(self.node.path, name)] = value

    def d_setitem(self, I, key, value):
        if not isinstance(key, str):
            return NotImplemented
        return self.d_setattr(I, key, value)

    def d_getitem(self, I, key):
        return self.d_getattr(I, key)


def norm(k):
    if not isinstance(k, str):
        raise Undecided('key %s' % short(k))
    return '/' + k.strip('/') if k.strip('/') else '/'


def mk_hstore(tables=None, meta=None):
    """HDFStore whose tables are lists of tokens"""
    hs = HStore({})
    T = dict(tables or {})
    cfg = hs.cfg
    cfg['tables'] = T
    cfg['meta'] = dict(meta or {})

    def arg(a, k, i, n, d=None):
        return a[i] if len(a) > i else k.get(n, d)

    def append(I, a, k):
        T.setdefault(norm(arg(a, k, 0, 'key')), []).append(
            arg(a, k, 1, 'value'))

    def put(I, a, k):
        key, v = norm(arg(a, k, 0, 'key')), arg(a, k, 1, 'value')
        ap = arg(a, k, 4, 'append', False)
        if ap:
            T.setdefault(key, []).append(v)
        else:
            T[key] = [v]
        fmt = arg(a, k, 2, 'format')
        cfg.setdefault('formats', {})[key] = fmt

    def remove(I, a, k):
        key = norm(arg(a, k, 0, 'key'))
        hit = [t for t in T if t == key or t.startswith(key + '/')]
        if not hit:
            I.throw('KeyError', key)
        for t in hit:
            del T[t]

    def get_node(I, a, k):
        key = norm(a[0])
        if key == '/' or any(t == key or t.startswith(key + '/')
                             for t in T) or any(
                                 p == key for p, _ in cfg['meta']):
            return Node(hs, key)
        return None

    def get(I, a, k):
        key = norm(a[0])
        if key not in T:
            I.throw('KeyError', key)
        return Table('hdf:%s:%s' % (key, '+'.join(
            t.name if isinstance(t, Table) else short(t) for t in T[key])))
    cfg.update({'append': append, 'put': put, 'remove': remove,
                'get_node': get_node, '__getitem__': get, 'get': get,
                ('attr', 'root'): lambda I: Node(hs, '/'),
                'keys': lambda I, a, k: AList(sorted(T))})
    return hs


def interp_with(ctx, fs, hs=None, extra=None):
    m = fs_models()
    m.update(fs.models())
    m['nilm_metadata.convert_yaml_to_hdf5._load_file'] = _load_file(fs)
    if hs is not None:
        m['pandas.HDFStore'] = lambda I, a, k: hs
    if extra:
        m.update(extra)
    I = ctx.interp(models=m)
    I.fs = fs
    return I


def set_world(I, fs, hs=None):
    """new file system / store for a fresh path"""
    I.fs = fs
    I.models.update(fs.models())
    I.models['nilm_metadata.convert_yaml_to_hdf5._load_file'] = \
        _load_file(fs)
    if hs is not None:
        def new(I, a, k):
            mode = a[1] if len(a) > 1 else k.get('mode', 'a')
            I.event('store', op='open', args=tuple(a), kwargs=dict(k),
                    obj=hs)
            if isinstance(mode, str) and mode == 'w':
                hs.cfg['tables'].clear()
                hs.cfg['meta'].clear()
            return hs
        I.models['pandas.HDFStore'] = new


def _load_file(fs):
    def f(I, a, k):
        import posixpath
        if not all(isinstance(x, str) for x in a[:2]):
            return NotImplemented
        p = posixpath.join(a[0], a[1])
        if p not in fs.files:
            I.throw('FileNotFoundError', p)
        c = fs.files[p]
        if c and isinstance(c[-1], (ADict, AList)):
            return I.deepcopy(c[-1])
        return NotImplemented
    return f
