"""Abstract file system, files, YAML and CSV tables (names are concrete
strings, contents are tokens)."""
import posixpath
import re as _re

from values import Dom, Opq, Ext, AList, ADict, AObj, Native, short, fresh
from interp import Undecided


def is_str(*xs):
    return all(isinstance(x, str) for x in xs)


class TableIndex(Dom):
    """time stamps without a time zone"""
    __slots__ = ()

    def d_isinstance(self, I, c):
        return getattr(c, 'name', '').rsplit('.', 1)[-1] in (
            'DatetimeIndex', 'Index', 'object')

    def d_getattr(self, I, name):
        return None if name in ('tz', 'tzinfo') else NotImplemented


class Table(Dom):
    """An opaque DataFrame token."""
    __slots__ = ('name', 'attrs')

    def __init__(self, name):
        self.name = name
        self.attrs = {}

    def __repr__(self):
        return '<table %s>' % self.name

    def d_key(self):
        return ('table', self.name)

    def d_getattr(self, I, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == 'index':
            return TableIndex()
        return NotImplemented

    def d_setattr(self, I, name, value):
        self.attrs[name] = value

    def d_len(self, I):
        return NotImplemented

    def d_method(self, I, name, args, kwargs):
        if name == 'rename':        # what is in it: see checks/csvtext.py
            return self
        if name == 'to_csv':
            fs = I.fs
            names = ['path_or_buf', 'sep', 'na_rep', 'float_format',
                     'columns', 'header', 'index', 'index_label', 'mode']
            kw = dict(zip(names, args))
            kw.update(kwargs)
            path = kw.get('path_or_buf')
            I.event('to_csv', path=path, table=self, kw=kw)
            I.fault(Opq('attr', (self, name)), args, kwargs)
            if isinstance(path, Handle):
                path.check(I)
                path, mode = path.path, 'h'
            else:
                mode = kw.get('mode', 'w')
            if not is_str(path, mode):
                raise Undecided('to_csv(%s)' % short(path))
            header = kw.get('header', True)
            if not isinstance(header, bool):
                header = I.truth(header)
            fs.need_parent(I, path)
            if mode.startswith('w') or path not in fs.files:
                fs.files[path] = []
            if header:
                fs.files[path].append('header')
            if kw.get('index', True) is False:
                fs.files[path].append('noindex')
            fs.files[path].append(self)
            fs.log.append(('write', path))
            return None
        return NotImplemented


class Handle(Dom):
    __slots__ = ('path', 'mode', 'closed', 'dirty')

    def __init__(self, path, mode):
        self.path, self.mode, self.closed = path, mode, False
        self.dirty = False

    def __repr__(self):
        return '<file %s %s>' % (short(self.path), self.mode)

    def check(self, I):
        if self.closed:
            I.throw('ValueError', 'I/O operation on closed file')

    def d_method(self, I, name, args, kwargs):
        if name == '__enter__':
            self.check(I)
            return self
        if name in ('close', '__exit__'):
            self.closed = True
            self.dirty = False
            I.event('close', obj=self)
            return None
        self.check(I)
        if name in ('write', 'writelines'):
            I.fault(Opq('attr', (self, name)), args, kwargs)
            self.dirty = True
            I.fs.put(self, args[0])
            return None
        if name == 'flush':
            self.dirty = False
            return None
        if name in ('read', 'readlines', 'readline'):
            I.fault(Opq('attr', (self, name)), args, kwargs)
            c = is_str(self.path) and I.fs.files.get(self.path)
            if name == 'read' and c and len(c) == 1 and getattr(
                    c[0], 'readable', False):
                return c[0]         # a text whose contents are tracked
            return Opq('read', (self.path, fresh('rd')))
        return NotImplemented

    def d_iter(self, I):
        return iter([Opq('line', (self.path, 0)), Opq('line',
                                                      (self.path, 1))])


class FS(object):
    def __init__(self, files=(), dirs=()):
        self.files = {}
        self.dirs = set(['', '/', '.'])
        self.handles = []
        self.fds = []
        self.log = []
        for d in dirs:
            self.mkdirs(d)
        for f in files:
            self.mkdirs(posixpath.dirname(f))
            self.files[f] = ['orig']

    def mkdirs(self, d):
        while d and d not in self.dirs:
            self.dirs.add(d)
            d = posixpath.dirname(d)

    def norm(self, p):
        if len(p) > 1 and p.endswith('/'):
            p = p[:-1]
        return p

    def exists(self, p):
        p = self.norm(p)
        return p in self.files or p in self.dirs

    def need_parent(self, I, path):
        if posixpath.dirname(path) not in self.dirs:
            I.throw('FileNotFoundError', path)

    def listdir(self, d):
        d = self.norm(d)
        out = []
        for p in list(self.files) + sorted(self.dirs):
            if p and posixpath.dirname(p) == d and p != d:
                out.append(posixpath.basename(p))
        return out

    def put(self, h, what):
        self.files.setdefault(h.path, []).append(what)
        self.log.append(('write', h.path))

    # -- models
    def models(self):
        fs = self

        def concrete(fn):
            def g(I, a, k):
                if not a or not is_str(a[0]):
                    raise Undecided('path %s' % short(a[0] if a else k))
                return fn(I, fs.norm(a[0]), a, k)
            return g

        def makedirs(I, p, a, k):
            if fs.exists(p):
                if k.get('exist_ok') or (len(a) > 2 and a[2]):
                    return None
                I.throw('FileExistsError', p)
            I.fault(Ext('os.makedirs'), a, k)
            fs.mkdirs(p)

        def remove(I, p, a, k):
            I.event('unlink', path=p)
            if p in fs.dirs:
                I.throw('IsADirectoryError', p)
            if p not in fs.files:
                I.throw('FileNotFoundError', p)
            I.fault(Ext('os.remove'), a, k)
            del fs.files[p]

        def rmtree(I, p, a, k):
            if p not in fs.dirs:
                if k.get('ignore_errors'):
                    return None
                I.throw('FileNotFoundError', p)
            I.fault(Ext('shutil.rmtree'), a, k)
            for f in [f for f in fs.files if f.startswith(p + '/')]:
                del fs.files[f]
            fs.dirs = set(d for d in fs.dirs
                          if d != p and not d.startswith(p + '/'))

        def open_(I, a, k):
            path = a[0] if a else k.get('file')
            mode = a[1] if len(a) > 1 else k.get('mode', 'r')
            if not isinstance(mode, str):
                raise Undecided('open mode')
            I.fault(Ext('builtins.open'), a, k)
            if is_str(path):
                if 'r' in mode and '+' not in mode and \
                        path not in fs.files:
                    I.throw('FileNotFoundError', path)
                fs.need_parent(I, path)
                if 'w' in mode:
                    fs.files[path] = []
                fs.files.setdefault(path, [])
            h = Handle(path, mode)
            fs.handles.append(h)
            I.event('open', obj=h)
            return h

        def dump(I, a, k):
            I.event('yaml-dump', data=a[0], stream=a[1] if len(a) > 1
                    else k.get('stream'))
            s = a[1] if len(a) > 1 else k.get('stream')
            I.fault(Ext('yaml.dump'), a, k)
            if isinstance(s, Handle):
                s.check(I)
                fs.put(s, I.deepcopy(a[0]))
                s.dirty = True
                return None
            return Opq('yaml', (a[0],))

        def pdump(I, a, k):
            s = a[1] if len(a) > 1 else k.get('file')
            I.fault(Ext('pickle.dump'), a, k)
            if isinstance(s, Handle):
                s.check(I)
                if 'b' not in s.mode:
                    I.throw('TypeError', 'pickle needs a binary file')
                fs.put(s, I.deepcopy(a[0]))
                s.dirty = True
            return None

        def pload(I, a, k):
            s = a[0]
            I.fault(Ext('pickle.load'), a, k)
            if isinstance(s, Handle):
                s.check(I)
                if 'b' not in s.mode:
                    I.throw('UnicodeDecodeError', 'pickle needs a binary '
                            'file')
                c = fs.files.get(s.path)
                if c:
                    return I.deepcopy(c[-1]) if not isinstance(c[-1], str) \
                        else Opq('pickled', (s.path,))
            return NotImplemented

        def load(I, a, k):
            s = a[0]
            if isinstance(s, Handle):
                s.check(I)
                c = fs.files.get(s.path)
                if c and isinstance(c[-1], (ADict, AList)):
                    return I.deepcopy(c[-1])
            return NotImplemented

        def read_csv(I, a, k):
            p = a[0] if a else k.get('filepath_or_buffer')
            if isinstance(p, Handle):
                p.check(I)
                p = p.path
            if not is_str(p):
                raise Undecided('read_csv %s' % short(p))
            I.event('read_csv', path=p, kw=dict(k))
            if p not in fs.files:
                I.throw('FileNotFoundError', p)
            c = fs.files[p]
            t = Table('csv:%s:%s' % (p, '+'.join(
                x if isinstance(x, str) else x.name if isinstance(x, Table)
                else short(x) for x in c)))
            if k.get('chunksize') is not None or k.get('iterator'):
                return AList([t])
            return t

        def mkstemp(I, a, k):
            n = len(fs.fds)
            p = '/tmp/tmp%d%s' % (n, k.get('suffix') or
                                  (a[0] if a else '') or '')
            fs.mkdirs('/tmp')
            fs.files[p] = []
            fd = Fd(n, p)
            fs.fds.append(fd)
            return (fd, p)

        def os_close(I, a, k):
            if isinstance(a[0], Fd):
                if a[0].closed:
                    I.throw('OSError', 'bad descriptor')
                a[0].closed = True
                return None
            return NotImplemented

        def fdopen(I, a, k):
            if isinstance(a[0], Fd):
                a[0].closed = True      # owned by the file object
                h = Handle(a[0].path, a[1] if len(a) > 1 else 'r')
                fs.handles.append(h)
                return h
            return NotImplemented

        m = {
            'os.path.isfile': concrete(lambda I, p, a, k: p in fs.files),
            'os.path.isdir': concrete(lambda I, p, a, k: p in fs.dirs),
            'os.path.exists': concrete(lambda I, p, a, k: fs.exists(p)),
            'os.path.lexists': concrete(lambda I, p, a, k: fs.exists(p)),
            'os.listdir': concrete(
                lambda I, p, a, k: AList(fs.listdir(p)) if p in fs.dirs
                else I.throw('FileNotFoundError', p)),
            'os.makedirs': concrete(makedirs),
            'os.mkdir': concrete(makedirs),
            'os.remove': concrete(remove),
            'os.unlink': concrete(remove),
            'shutil.rmtree': concrete(rmtree),
            'os.path.dirname': pathfn(posixpath.dirname),
            'os.path.basename': pathfn(posixpath.basename),
            'os.path.splitext': pathfn(posixpath.splitext),
            'os.path.normpath': pathfn(posixpath.normpath),
            'os.path.abspath': pathfn(lambda p: p),
            'builtins.open': open_, 'io.open': open_, 'codecs.open': open_,
            'yaml.dump': dump, 'yaml.safe_dump': dump,
            'yaml.load': load, 'yaml.safe_load': load,
            'pickle.dump': pdump, 'pickle.load': pload,
            'pandas.read_csv': read_csv,
            'tempfile.mkstemp': mkstemp,
            'os.close': os_close, 'os.fdopen': fdopen,
            're.match': _re_fn('match'), 're.search': _re_fn('search'),
            're.fullmatch': _re_fn('fullmatch'),
        }
        return m


class Fd(Dom):
    __slots__ = ('n', 'path', 'closed')

    def __init__(self, n, path):
        self.n, self.path, self.closed = n, path, False

    def __repr__(self):
        return '<fd %d>' % self.n


def pathfn(f):
    def g(I, a, k):
        if is_str(*a):
            return f(*a)
        return NotImplemented
    return g


class MatchObj(Dom):
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def d_truth(self, I):
        return True

    def d_method(self, I, name, args, kwargs):
        if name in ('group', 'groups', 'start', 'end', 'span') and \
                all(isinstance(x, (int, str)) for x in args):
            return getattr(self.m, name)(*args)
        return NotImplemented


def _re_fn(n):
    def g(I, a, k):
        if len(a) == 2 and is_str(*a):
            m = getattr(_re, n)(*a)
            return None if m is None else MatchObj(m)
        return NotImplemented
    return g
