"""C26  Clearing checkpoints and restoring test data removes and replaces
exactly the files it is about."""
import glob
import posixpath
from .tablecommon import *
from .c12 import name
from csvmodel import Disk
from values import Dom, Ext

EXPLANATION = (
    'clear_model_checkpoints, setup_package and teardown_package are '
    'interpreted on a model of a file system; the files afterwards are '
    'compared with what their documentation says.')
ASSUMPTIONS = ['the models of os, glob and shutil describe the installed '
               'versions']
LIMITS = 'Other processes using the same folder are not considered.'
MIN_OBLIGATIONS = 60
DIS = 'nilmtk.disaggregate.disaggregator.Disaggregator'
LOC = 'nilmtk/disaggregate/disaggregator.py'
INIT = 'nilmtk/__init__.py'


class Entry(Dom):
    __slots__ = ('D', 'p', 'shown')

    def __init__(self, D, p, shown):
        self.D, self.p, self.shown = D, p, shown

    def d_truth(self, I):
        return True

    def d_key(self):
        return ('entry', self.p)

    def d_getattr(self, I, nm):
        if nm == 'name':
            return posixpath.basename(self.p)
        if nm == 'path':
            return self.shown
        if nm in ('is_file', 'is_dir'):
            return Native(lambda I, a, k: self.p in (
                self.D.files if nm == 'is_file' else self.D.dirs), nm)
        return NotImplemented

    def d_str(self, I):
        return '<DirEntry %r>' % posixpath.basename(self.p)


class Scan(Dom):
    """what os.scandir gives: entries once, usable in a with statement"""
    __slots__ = ('l', 'closed')

    def __init__(self, l):
        self.l, self.closed = l, False

    def d_enter(self, I):
        return self

    def d_exit(self, I, *a):
        self.closed = True
        return False

    def d_truth(self, I):
        return True

    def d_iter(self, I):
        l, self.l = self.l, []
        return [] if self.closed else l

    def d_getattr(self, I, nm):
        if nm == '__enter__':
            return Native(lambda I, a, k: self, nm)
        if nm in ('__exit__', 'close'):
            return Native(lambda I, a, k: self.d_exit(I), nm)
        return NotImplemented


CWD = '/cwd'


class Folder(Disk):
    """a disk with a current directory"""
    def norm(self, p):
        return posixpath.normpath(posixpath.join(CWD, p))

    def extra(self):
        D = self

        def path(p):
            if isinstance(p, Entry):
                p = p.p
            if not isinstance(p, str):
                raise Undecided('path %s' % short(p))
            return D.norm(p)

        def listing(shown):
            def f(I, a, k):
                d = a[0] if a else k.get('path', '.')
                if d is None:
                    d = '.'
                l = D.listdir(I, path(d))
                if not shown:
                    return AList(l)
                return Scan([Entry(D, path(posixpath.join(d, x)),
                                   posixpath.join(d, x)) for x in l])
            return f

        def rel(I, a, k):
            if k or len(a) != 1:
                raise Undecided('glob')
            pat = a[0]
            if not isinstance(pat, str):
                raise Undecided('pattern %s' % short(pat))
            full = D.glob(posixpath.join(CWD, pat))
            return AList([p if pat.startswith('/') else p[len(CWD) + 1:]
                          for p in full])

        def copyfile(I, a, k):
            s, t = path(a[0]), path(a[1])
            if k:
                raise Undecided('copyfile')
            if s not in D.files:
                I.throw('FileNotFoundError', s)
            if t in D.dirs:
                t = t + '/' + posixpath.basename(s)
            D.write(t, D.files[s])
            return t

        def rename(I, a, k):
            s, t = path(a[0]), path(a[1])
            if not D.exists(s):
                I.throw('FileNotFoundError', s)
            if t in D.dirs:
                I.throw('OSError', t)
            if s in D.files:
                D.write(t, D.files.pop(s))
                return t
            for p, x in list(D.below(s).items()):
                D.write(t + p[len(s):], x)
                del D.files[p]
            D.dirs = {d for d in D.dirs if d != s and not d.startswith(
                s + '/')}
            D.mkdirs(t)
            return t
        return {'os.scandir': listing(True), 'os.listdir': listing(False),
                'glob.escape': lambda I, a, k: glob.escape(a[0]),
                'glob.glob': rel, 'glob.iglob': rel,
                'shutil.copyfile': copyfile, 'shutil.copy': copyfile,
                'shutil.copy2': copyfile, 'os.rename': rename,
                'os.replace': rename, 'shutil.move': rename,
                'matplotlib.use': lambda I, a, k: None,
                'os.getcwd': lambda I, a, k: CWD,
                'os.fspath': lambda I, a, k: path(a[0]),
                'os.path.abspath': lambda I, a, k: path(a[0])}


def on(I, D, go):
    keep = dict(I.models)
    I.models.update(D.models())
    I.models.update(D.extra())
    try:
        return go()
    finally:
        I.models.clear()
        I.models.update(keep)


def run(ctx):
    I = ctx.interp(models=dict(TM))
    ctx.anchor(I, DIS)
    checkpoints(ctx, I)
    backups(ctx, I)
    ctx.absorb(I)


# --------------------------------------------------------------- checkpoints
NAMES = ['seq-1.h5', 'seq-2.h5', 'seq.h5', 'Seq-1.h5', 'seq-1.h5.bak',
         'seq-1.csv', 'data.h5', 'my-seq-1.h5', 'seq-', 'seqh5', '.h5', 'h5',
         'seq-h5']
DIRS = ['seq-dir.h5', 'sub']


def checkpoints(ctx, I):
    C = 'Disaggregator.clear_model_checkpoints'
    D0 = [CWD + '/' + n for n in NAMES]
    for prefix in (None, 'seq', 'seq-', 'seq-1', 'data', 'other', 'se.'):
        for rev in (False, True):
            def go():
                D = Folder({p: 'x' for p in D0}, reverse=rev)
                for d in DIRS:
                    D.mkdirs(CWD + '/' + d)
                D.write(CWD + '/sub/seq-1.h5', 'x')
                D.write('/seq-1.h5', 'x')

                def clear():
                    o = I.call(I.get(DIS), [], {})
                    I.setattr(o, 'MODEL_NAME', 'M')
                    if prefix is not None:
                        I.setattr(o, 'file_prefix', prefix)
                    I.call(I.getattr(o, 'clear_model_checkpoints'), [], {})
                on(I, D, clear)
                return (sorted(D.files), sorted(D.dirs))
            want = sorted([p for p, n in zip(D0, NAMES) if prefix is None or
                           not (n.startswith(prefix) and n.endswith('.h5'))] +
                          [CWD + '/sub/seq-1.h5', '/seq-1.h5'])
            for o, v, tr in each(ctx, I, C, go):
                what = 'with prefix %r' % prefix
                if o != 'return':
                    ctx.violation('checkpoints', C, '%s %s' % (
                        what, name(v)), LOC)
                    continue
                for p in sorted(set(want) | set(v[0])):
                    ctx.expect((p in want) == (p in v[0]), 'checkpoints', C,
                               '%s: %s is %s' % (
                                   what, p, 'kept' if p in v[0]
                                   else 'removed'), LOC)
                ctx.expect(all(CWD + '/' + d in v[1] for d in DIRS),
                           'checkpoints', C, what + ': a folder is removed',
                           LOC)


# ------------------------------------------------------------------- backups
DATA = '/data'
START = {DATA + '/a.h5': 'A', DATA + '/b.h5': 'B',
         DATA + '/random_csv/building1/elec/meter1.csv': 'M1',
         DATA + '/random_csv/metadata/dataset.yaml': 'Y',
         DATA + '/notes.txt': 'N', '/elsewhere/a.h5': 'E'}


def changes():
    """what the tests may do to the data"""
    def nothing(D):
        pass

    def write(D):
        D.files[DATA + '/a.h5'] = 'changed'
        D.files[DATA + '/random_csv/metadata/dataset.yaml'] = 'changed'

    def new(D):
        D.write(DATA + '/random_csv/building2/elec/meter1.csv', 'new')

    def lose(D):
        del D.files[DATA + '/random_csv/building1/elec/meter1.csv']

    def gone(D):
        del D.files[DATA + '/a.h5']
        D.files[DATA + '/b.h5'] = 'changed'
    return [nothing, write, new, lose, gone]


def backups(ctx, I):
    C = 'nilmtk.setup_package'
    ctx.anchor(I, 'nilmtk.setup_package')
    ctx.anchor(I, 'nilmtk.teardown_package')
    I.overrides['nilmtk.tests.testingtools.data_dir'] = \
        lambda I, a, k: DATA
    for change in changes():
        for rev in (False, True):
            def go():
                D = Folder(START, reverse=rev)
                on(I, D, lambda: I.call(I.get('nilmtk.setup_package'), [],
                                        {}))
                during = dict(D.files)
                change(D)
                on(I, D, lambda: I.call(I.get('nilmtk.teardown_package'), [],
                                        {}))
                return during, dict(D.files)
            what = 'after tests which do: %s' % change.__name__
            for o, v, tr in each(ctx, I, C, go):
                if o != 'return':
                    ctx.violation('backups', C, '%s %s' % (what, name(v)),
                                  INIT)
                    continue
                during, after = v
                for p, x in START.items():
                    ctx.expect(during.get(p) == x, 'backups', C,
                               '%s: setup changes %s' % (what, p), INIT)
                    ok = after.get(p) == x
                    if change.__name__ == 'gone' and p.endswith('data/a.h5'):
                        ok = x in (after.get(p), after.get(p + '.original'))
                    ctx.expect(ok, 'backups', 'nilmtk.teardown_package',
                               '%s: %s holds %s instead of %s' % (
                                   what, p, after.get(p), x), INIT)
                left = [p for p in after if p not in START and
                        not (change.__name__ == 'gone' and
                             p == DATA + '/a.h5.original')]
                ctx.expect(not left, 'backups', 'nilmtk.teardown_package',
                           '%s: %s left behind' % (what, left), INIT)
