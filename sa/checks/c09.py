"""C09 - preprocessing and statistics nodes: requirements are checked before
any reading is pulled, every chunk passes through exactly once and in order
with its time frame and look-ahead, metadata is never changed upstream, and
clipping bounds exactly the column it is meant for.  Every Node subclass of
the package is abstractly interpreted over a recording upstream."""
import itertools

from .tablecommon import *  # noqa
from .tablecommon import TM, Frame, Source

MIN_OBLIGATIONS = 150
ASSUMPTIONS = ['nilm_metadata.recursively_update_dict merges nested '
               'dictionaries, extends lists and replaces other values',
               'pipelines of up to three chunks of up to six readings']
NODE = 'nilmtk.node.Node'
STATS = ('nilmtk.stats.totalenergy.TotalEnergy',
         'nilmtk.stats.goodsections.GoodSections',
         'nilmtk.stats.dropoutrate.DropoutRate')
PRE = ('nilmtk.preprocessing.clip.Clip', 'nilmtk.preprocessing.apply.Apply')
P, E = ('power', 'active'), ('energy', 'reactive')
MEAS = [{'physical_quantity': 'power', 'type': 'active',
         'lower_limit': 10, 'upper_limit': 90},
        {'physical_quantity': 'power', 'type': 'apparent',
         'lower_limit': 0, 'upper_limit': 5},
        {'physical_quantity': 'energy', 'type': 'reactive',
         'lower_limit': -3, 'upper_limit': 3}]
META = {'device': {'measurements': MEAS, 'max_sample_period': 10,
                   'sample_period': 10, 'model': 'm'},
        'preprocessing_applied': {'clip': {}}, 'statistics': {},
        'name': 'x'}


def stamps(start, n, step=10):
    return [Lin('ts', {'T': 1}, start + step * i) for i in range(n)]


def chunks(I, n, rows=6, numbers=False):
    """n consecutive chunks with time frame and look-ahead"""
    tf = I.get('nilmtk.timeframe.TimeFrame')
    out = []
    for c in range(n):
        ix = stamps(1000 * c, rows)
        f = mkframe(ix, [P, E], 'c%d_' % c)
        if numbers:
            f.data = [[0.25 * (i + 1) + c for i in range(rows)]
                      for _ in f.data]
        f.attrs['timeframe'] = I.call(tf, [ix[0] if ix else Lin(
            'ts', {'T': 1}, 1000 * c), Lin('ts', {'T': 1},
                                           1000 * c + 999)], {})
        if c + 1 < n:
            f.attrs['look_ahead'] = mkframe(stamps(1000 * (c + 1), 2),
                                            [P, E], 'l%d_' % c)
        out.append(f)
    return out


def make(I, cls, up):
    if cls.name == 'Apply':
        def func(I, a, k):
            r = a[0].copy()
            r.data = [[I.binop('*', v, 2) for v in d] for d in r.data]
            I.event('applied', chunk=a[0], result=r)
            return r
        return I.call(cls, [up], {'func': Native(func, 'func')})
    return I.call(cls, [up], {})


def subclasses(ctx, I):
    """every class of the package that is a Node and has its own process"""
    import ast
    base = ctx.anchor(I, NODE)
    out = []
    for name, (path, tree) in sorted(ctx.project.modules.items()):
        if '.tests' in name or not any(
                isinstance(n, ast.ClassDef) for n in tree.body):
            continue
        src_names = {n.id for c in tree.body if isinstance(c, ast.ClassDef)
                     for b in c.bases for n in ast.walk(b)
                     if isinstance(n, ast.Name)}
        if not src_names & {'Node', 'Clip', 'Apply', 'TotalEnergy',
                            'GoodSections', 'DropoutRate'}:
            continue
        for c in tree.body:
            if isinstance(c, ast.ClassDef):
                v = I.get('%s.%s' % (name, c.name))
                if isinstance(v, AClass) and base in v.mro() and \
                        v is not base:
                    out.append(v)
    return out


def run(ctx):
    I = ctx.interp(models=dict(TM))
    for d in STATS + PRE:
        ctx.anchor(I, d)
    classes = subclasses(ctx, I)
    ctx.expect(len(classes) >= 5, 'nodes-found', 'nilmtk', 'only %s' %
               [c.name for c in classes])
    for c in classes:
        passing(ctx, I, c)
        refusing(ctx, I, c)
        metadata(ctx, I, c)
    clip(ctx, I)
    requirements(ctx, I)
    chain(ctx, I)
    ctx.absorb(I)


def loc(c):
    return '%s.py' % c.mod.name.replace('.', '/') if hasattr(
        c.mod, 'name') else ''


# ------------------------------------------------------------------ passing
def passing(ctx, I, cls):
    C = cls.name + '.process'
    stat = cls.name in ('TotalEnergy', 'GoodSections', 'DropoutRate')
    for n in (0, 1, 2, 3):
        def go():
            cs = chunks(I, n, numbers=cls.name == 'Clip')
            up = Source(cs, aval(META))
            node = make(I, cls, up)
            before = [(snap(c), dict(c.attrs)) for c in cs]
            got = []
            g = I.call(I.getattr(node, 'process'), [], {})
            for x in I.iterate(g):
                I.event('out', i=len(got))
                got.append(x)
                if len(got) > n + 2:
                    break
            return cs, before, got, up

        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('passes', C, '%d chunks: raises %s' % (
                    n, exc_name(v)), loc(cls))
                continue
            cs, before, got, up = v
            if not ctx.expect(len(got) == n, 'one-out-per-chunk', C,
                              '%d chunks in, %d out' % (n, len(got)),
                              loc(cls)):
                continue
            seq = [(e.kind, e.data['i']) for e in tr
                   if e.kind in ('pull', 'out')]
            want = [x for i in range(n) for x in (('pull', i), ('out', i))]
            ctx.expect(seq == want, 'streams', C, 'chunks are not passed on '
                       'one at a time and in order: %s' % seq, loc(cls))
            for i, (c, (key, attrs), g) in enumerate(zip(cs, before, got)):
                if not isinstance(g, Frame):
                    ctx.undecided(C, short(g))
                    continue
                t = g.attrs.get('timeframe')
                ctx.expect(t is attrs['timeframe'] or (
                    t is not None and key_of(t) ==
                    key_of(attrs['timeframe'])), 'keeps-timeframe', C,
                    'chunk %d of %d leaves with time frame %s' % (
                        i, n, short(t)), loc(cls))
                la, la2 = attrs.get('look_ahead'), g.attrs.get('look_ahead')
                ctx.expect(la2 is la or (
                    la2 is not None and la is not None and
                    key_of(la) == key_of(la2)), 'keeps-look-ahead', C,
                    'chunk %d of %d leaves with look-ahead %s' % (
                        i, n, short(la2)), loc(cls))
                if stat:
                    ctx.expect(snap(g) == key, 'statistic-leaves-readings',
                               C, 'chunk %d is changed: %s' % (i, short(g)),
                               loc(cls))
                elif cls.name == 'Apply':
                    r = [e.data for e in tr if e.kind == 'applied']
                    ctx.expect(len(r) == n and snap(g) == snap(
                        r[i]['result']) and r[i]['chunk'] is c,
                        'applies-function', C, 'chunk %d: %s' % (
                            i, short(g)), loc(cls))
                ctx.expect(key_of(g.idx) == key_of(Frame(
                    Idx(stamps(1000 * i, 6))).idx), 'keeps-instants', C,
                    'chunk %d leaves with index %s' % (i, short(g.idx)),
                    loc(cls))
            ctx.expect(key_of(up.meta) == key_of(aval(META)),
                       'upstream-metadata-intact', C,
                       'the metadata of the upstream becomes %s' %
                       short(up.meta), loc(cls))
    # run() pulls everything
    def go():
        cs = chunks(I, 3, numbers=cls.name == 'Clip')
        node = make(I, cls, Source(cs, aval(META)))
        I.call(I.getattr(node, 'run'), [], {})
        return None
    for out, v, tr in each(ctx, I, cls.name + '.run', go):
        pulls = [e.data['i'] for e in tr if e.kind == 'pull']
        ctx.expect(out == 'return' and pulls == [0, 1, 2], 'run-drains',
                   cls.name + '.run', 'pulls %s (%s)' % (pulls, out),
                   loc(cls))


# ----------------------------------------------------------------- refusing
def paths_of(d, pre=()):
    for k, v in d.items():
        yield pre + (k,)
        if isinstance(v, dict):
            for x in paths_of(v, pre + (k,)):
                yield x


def without(d, path):
    d = dict(d)
    if len(path) == 1:
        d.pop(path[0])
    else:
        d[path[0]] = without(d[path[0]], path[1:])
    return d


DECLARED = {'Clip': {'device': {'measurements': 1}},
            'TotalEnergy': {'device': {'max_sample_period': 1},
                            'preprocessing_applied': {'clip': 1}},
            'GoodSections': {'device': {'max_sample_period': 1}},
            'DropoutRate': {'device': {'sample_period': 1}}}


def refusing(ctx, I, cls):
    C = cls.name + '.process'
    try:
        req = pyval(I.getattr(cls, 'requirements'))
    except Unk as e:
        ctx.undecided(C, str(e))
        return
    need = DECLARED.get(cls.name, {})

    def has(d, w):
        return all(k in d and (not isinstance(x, dict) or (isinstance(
            d[k], dict) and has(d[k], x))) for k, x in w.items())
    ctx.expect(has(req, need), 'requirements-declared', cls.name,
               'declares %s' % req, loc(cls))
    for path in list(paths_of(need)):
        def go():
            cs = chunks(I, 2)
            up = Source(cs, aval(META), aval(without(META, path)))
            node = make(I, cls, up)
            for x in I.iterate(I.call(I.getattr(node, 'process'), [], {})):
                pass
        for out, v, tr in each(ctx, I, C, go):
            pulled = [e for e in tr if e.kind == 'pull']
            ctx.expect(out == 'raise' and exc_name(v) ==
                       'UnsatisfiedRequirementsError', 'refuses-unsatisfied',
                       C, 'without %s it %s' % (
                           '.'.join(path), 'runs' if out == 'return' else
                           'raises ' + exc_name(v)), loc(cls))
            ctx.expect(not pulled, 'checks-before-reading', C,
                       'without %s, %d chunks are read first' % (
                           '.'.join(path), len(pulled)), loc(cls))


# ----------------------------------------------------------------- metadata
def merged(a, b):
    """a updated by b, as nilm_metadata does"""
    a = dict(a)
    for k, v in b.items():
        if k in a and isinstance(v, dict) and isinstance(a[k], dict):
            a[k] = merged(a[k], v)
        elif k in a and isinstance(v, list) and isinstance(a[k], list):
            a[k] = a[k] + v
        else:
            a[k] = v
    return a


def metadata(ctx, I, cls):
    C = cls.name + '.dry_run_metadata'
    ups = [META, {'device': {'model': 'z'}}, {},
           {'statistics': {'other': 1}, 'preprocessing_applied':
            {'other': {}}}]
    for u in ups:
        def go():
            up = Source([], aval(u))
            node = make(I, cls, up)
            post = I.deepcopy(I.getattr(cls, 'postconditions'))
            r1 = I.deepcopy(I.call(I.getattr(node, 'dry_run_metadata'), [],
                                   {}))
            r2 = I.call(I.getattr(node, 'dry_run_metadata'), [], {})
            # what a downstream node may do with it
            if isinstance(r2, ADict):
                for kk, x in r2.pairs:
                    pass
                I.dict_set(r2, 'added-downstream', 1)
            up3 = key_of(up.meta)
            return post, r1, r2, up3, I.getattr(cls, 'postconditions')
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('dry-run', C, 'raises ' + exc_name(v),
                              loc(cls))
                continue
            post, r1, r2, up3, post2 = v

            def judge():
                p, a = pyval(post), pyval(r1)
                ctx.expect(covers(a, p, u), 'dry-run-promises', C,
                           'upstream %s gives %s, which lacks a promise '
                           'of %s or of the upstream' % (u, a, p), loc(cls))
            guard(ctx, C, judge)
            ctx.expect(key_of(post) == key_of(post2),
                       'class-promises-intact', C, 'the promises of the '
                       'class become %s' % short(post2), loc(cls))
            ctx.expect(up3 == key_of(aval(u)), 'upstream-metadata-intact',
                       C, 'the metadata of the upstream changes', loc(cls))
    C = cls.name + '.get_metadata'

    def go():
        up = Source(chunks(I, 1, numbers=cls.name == 'Clip'),
                    aval(META))
        node = make(I, cls, up)
        I.call(I.getattr(node, 'run'), [], {})
        key = key_of(up.meta)
        r = I.call(I.getattr(node, 'get_metadata'), [], {})
        r = I.call(I.getattr(node, 'get_metadata'), [], {})
        res = I.getattr(node, 'results')
        d = None
        if isinstance(res, AObj):
            d = I.call(I.getattr(res, 'to_dict'), [], {})
        return key, key_of(up.meta), r, d
    for out, v, tr in each(ctx, I, C, go):
        if out == 'raise':
            ctx.violation('metadata', C, 'raises ' + exc_name(v), loc(cls))
            continue
        k1, k2, r, d = v
        ctx.expect(k1 == k2, 'upstream-metadata-intact', C,
                   'the metadata of the upstream changes', loc(cls))
        if not isinstance(r, ADict):
            ctx.undecided(C, short(r))
            continue
        up = dict(aval(META).pairs)
        mine = dict(r.pairs)
        ctx.expect(set(up) <= set(mine), 'metadata-complete', C,
                   'keys %s' % sorted(mine), loc(cls))
        if d is not None:
            def within(x, y):
                if isinstance(x, ADict):
                    yy = dict((key_of(k), z) for k, z in y.pairs) \
                        if isinstance(y, ADict) else {}
                    return all(key_of(k) in yy and within(z, yy[key_of(k)])
                               for k, z in x.pairs)
                return key_of(x) == key_of(y)
            ctx.expect(within(d, r), 'metadata-has-result', C,
                       'result %s not in %s' % (short(d), short(r)),
                       loc(cls))


def covers(got, post, up):
    """every promise of the class and every fact of the upstream is there"""
    def sub(x, y, also):
        for k, v in x.items():
            if k not in y:
                return False
            if isinstance(v, dict):
                if not isinstance(y[k], dict) or not sub(
                        v, y[k], also.get(k, {}) if isinstance(
                            also, dict) else {}):
                    return False
            elif isinstance(v, list):
                if not isinstance(y[k], list) or any(
                        z not in y[k] for z in v):
                    return False
            elif y[k] != v and not (isinstance(also, dict) and k in also):
                return False
        return True
    return sub(up, got, {}) and sub(post, got, up)


# --------------------------------------------------------------------- clip
def clip(ctx, I):
    cls = ctx.anchor(I, PRE[0])
    C = 'Clip.process'
    A = ('power', 'apparent')
    X = ('voltage', '')
    cols = [P, E, A, X]
    lo_hi = {'none': (None, None), 'both': (10, 90), 'equal': (7, 7),
             'zero': (0, 0), 'neg': (-5, -2), 'lower': (10, None),
             'upper': (None, 50)}
    vals = [-1000, -5, -4, -2, 0, 3, 7, 10, 50, 90, 91, NAN]
    cases = []
    for a, b in itertools.product(lo_hi, lo_hi):
        cases.append((lo_hi[a], lo_hi[b], (None, None)))
    for own in ((1, 2), (0, 0), (0, 40), (-7, 0)):
        cases.append(((10, 90), (None, None), own))
    cases += [((10, 90), (-5, -2), (20, None)), ((10, 90), (-5, -2),
                                                 (None, 60))]
    for lim_p, lim_e, own in cases:
        meas = [{'physical_quantity': 'power', 'type': 'apparent',
                 'lower_limit': 1, 'upper_limit': 4},
                {'physical_quantity': 'power', 'type': 'active'},
                {'physical_quantity': 'energy', 'type': 'reactive'}]
        for m, (lo, hi) in ((meas[1], lim_p), (meas[2], lim_e)):
            if lo is not None:
                m['lower_limit'] = lo
            if hi is not None:
                m['upper_limit'] = hi
        meta = merged(META, {})
        meta['device'] = dict(META['device'], measurements=meas)

        def go():
            ix = stamps(0, len(vals))
            f = Frame(Idx(ix, dt=True), Idx(cols, names=['physical_quantity',
                                                         'type']),
                      [list(vals) for _ in cols])
            node = I.call(cls, [Source([f], aval(meta))], {})
            if own[0] is not None:
                I.setattr(node, 'lower', own[0])
            if own[1] is not None:
                I.setattr(node, 'upper', own[1])
            r = list(I.iterate(I.call(I.getattr(node, 'process'), [], {})))
            return r[0]
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('clip', C, 'limits %s: raises %s' % (
                    (lim_p, lim_e, own), exc_name(v)), loc(cls))
                continue
            if not isinstance(v, Frame) or key_of(v.cols) != key_of(Idx(
                    cols)):
                ctx.violation('clip-keeps-columns', C, short(v), loc(cls))
                continue
            for c, lim, d in zip(cols, (lim_p, lim_e, (1, 4), (None, None)),
                                 v.data):
                lo = own[0] if own[0] is not None else lim[0]
                hi = own[1] if own[1] is not None else lim[1]
                want = [x if isnan(x) or lo is None or hi is None
                        else min(max(x, lo), hi) for x in vals]
                ctx.expect(len(d) == len(want) and all(
                    eqv(I, x, y) for x, y in zip(d, want)), 'clip-exact', C,
                    'column %s, limits %s: %s -> %s' % (
                        c, (lo, hi), vals, d), loc(cls))


# ------------------------------------------------------------- requirements
def requirements(ctx, I):
    C = 'find_unsatisfied_requirements'
    f = ctx.anchor(I, 'nilmtk.node.' + C)
    LOC = 'nilmtk/node.py'
    falsy = [0, None, False, '', 'v', 5]
    cases = []
    for s in falsy:
        for r in ['ANY VALUE'] + falsy:
            cases.append(({'a': s}, {'a': r},
                          0 if r == 'ANY VALUE' or same_lit(r, s) else 1))
            cases.append(({'n': {'a': s}, 'z': 1}, {'n': {'a': r}},
                          0 if r == 'ANY VALUE' or same_lit(r, s) else 1))
    for r in ('ANY VALUE', 5, None, {'b': 5}, {'b': 'ANY VALUE'}):
        cases.append(({}, {'a': r}, 1))
        cases.append(({'n': {}}, {'n': {'a': r}}, 1))
    cases += [
        ({'n': {'m': {'a': 1}}}, {'n': {'m': {'a': 1, 'b': 2}}, 'q': 3}, 2),
        ({'a': 1, 'b': 2}, {'a': 2, 'b': 1}, 2), ({'a': 1}, {}, 0),
        ({'a': {'b': 1}, 'c': {'b': 2}}, {'a': {'b': 1}, 'c': {'b': 3}}, 1),
        ({'a': {'b': {}}}, {'a': {'b': 'ANY VALUE'}}, 0),
        ({'a': {'b': {}}}, {'a': {'b': {}}}, 0)]
    for st, rq, want in cases:
        def go():
            s, r = aval(st), aval(rq)
            v = I.call(f, [s, r], {})
            return I.length(v), key_of(s), key_of(r)
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('requirements', C, 'state %s, required %s: '
                              'raises %s' % (st, rq, exc_name(v)), LOC)
                continue
            n, ks, kr = v
            if not isinstance(n, int):
                ctx.undecided(C, short(n))
                continue
            ctx.expect((n == 0) == (want == 0) and n == want,
                       'requirements', C, 'state %s, required %s: %s '
                       'unsatisfied, expected %s' % (st, rq, n, want), LOC)
            ctx.expect(ks == key_of(aval(st)) and kr == key_of(aval(rq)),
                       'requirements-pure', C, 'changes its arguments', LOC)


def same_lit(a, b):
    return a == b


# -------------------------------------------------------------------- chain
def chain(ctx, I):
    """Clip feeds TotalEnergy: the promise of one satisfies the other"""
    ccls, tcls = ctx.anchor(I, PRE[0]), ctx.anchor(I, STATS[0])
    C = 'TotalEnergy.process'
    meta = without(META, ('preprocessing_applied',))

    def go():
        cs = chunks(I, 2)
        c = I.call(ccls, [Source(cs, aval(meta))], {})
        t = I.call(tcls, [c], {})
        I.ranks = {}
        I.call(I.getattr(t, 'check_requirements'), [], {})
        t2 = I.call(tcls, [c], {})
        return I.getattr(t, 'results'), I.getattr(t2, 'results')
    for out, v, tr in each(ctx, I, C, go):
        ctx.expect(out == 'return', 'promise-satisfies-requirement', C,
                   'Clip does not satisfy TotalEnergy: %s' % (
                       exc_name(v) if out == 'raise' else ''), loc(tcls))
        if out == 'return':
            ctx.expect(v[0] is not v[1] and isinstance(v[0], AObj),
                       'results-not-shared', 'Node.reset',
                       'two nodes share one results object',
                       'nilmtk/node.py')
