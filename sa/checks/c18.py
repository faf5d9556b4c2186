"""C18  Appliances, buildings and data sets are what their metadata say."""
import itertools
from .tablecommon import *
from .c10 import T, offset
from .c12 import name, fresh
from .c13 import judge, method, lst
from .c15 import Bench
from graphmodel import GM

EXPLANATION = (
    'Appliance, Building, DataSet and Hashable are interpreted on enumerated '
    'metadata; matches, thresholds, categories and labels are compared with '
    'an independent reading of the documentation, and what a building or '
    'data set takes from its store with what the store holds.')
ASSUMPTIONS = [
    'the appliance is of a recognised type',
    'load_metadata of a store returns a fresh dict (C08)']
LIMITS = ('Plots of a data set are not interpreted; saving a data set is not '
          'implemented by the package.')
MIN_OBLIGATIONS = 400
LOC = 'nilmtk/appliance.py'
APP = 'nilmtk.appliance.Appliance'

TYPES = {
    'fridge': {'type': 'fridge', 'synonyms': ['refrigerator', 'cooler'],
               'categories': {'traditional': 'cold', 'size': 'large',
                              'electrical': ['resistive', 'motor']},
               'control': ['thermostat', 'timer'],
               'on_power_threshold': 30, 'room_names': 'kitchen'},
    'kettle': {'type': 'kettle', 'categories': {'traditional': 'cooking'},
               'control': ['manual'], 'components': [1, 2]},
    'light': {'type': 'light', 'categories': {}, 'synonyms': []}}
APPS = [
    {'type': 'fridge', 'instance': 1, 'meters': [1], 'room': 'kitchen'},
    {'type': 'fridge', 'instance': 2, 'control': ['always on'],
     'count': 2, 'meters': [1, 2]},
    {'type': 'kettle', 'instance': 1, 'meters': [3], 'category': 'mine',
     'index': 7},
    {'type': 'light', 'instance': 1, 'meters': [4], 'count': 4,
     'multiple': True, 'room': None}]
PAIRS = [
    ('type', 'fridge'), ('type', 'refrigerator'), ('type', 'cooler'),
    ('type', 'kettle'), ('type', 'light'), ('instance', 1), ('instance', 2),
    ('room', 'kitchen'), ('room', 'hall'), ('room', None), ('count', 2),
    ('count', 4), ('index', 7), ('category', 'cold'), ('category', 'large'),
    ('category', 'motor'), ('category', 'resistive'), ('category', 'mine'),
    ('category', 'cooking'), ('control', 'timer'), ('control', 'manual'),
    ('control', 'always on'), ('control', ['always on']),
    ('control', ['manual']), ('control', ['thermostat', 'timer']),
    ('control', 'man'), ('components', 2), ('on_power_threshold', 30),
    ('on_power_threshold', 10), ('multiple', True), ('multiple', False),
    ('room_names', 'kitchen'), ('room_names', 'kit'), ('no such key', 1),
    ('meters', [1]), ('meters', 1)]


def run(ctx):
    I = ctx.interp(models=dict(TM, **GM))
    ctx.anchor(I, APP)
    matching(ctx, I)
    thresholds(ctx, I)
    naming(ctx, I)
    identity(ctx, I)
    building(ctx, I)
    dataset(ctx, I)
    description(ctx, I)
    ctx.absorb(I)
    script(ctx)


def setup(I, types=TYPES, synonyms=True):
    A = I.get(APP)
    I.setattr(A, 'appliance_types', aval(types))
    I.setattr(A, 'allow_synonyms', synonyms)
    return A


# ------------------------------------------------------------------- matches
def flat(categories):
    out = []
    for c in categories.values():
        out += c if isinstance(c, list) else [c]
    return out


def entitled(md, key, synonyms):
    t = TYPES[md['type']]
    ok = True
    for k, v in key.items():
        if k == 'type':
            names = [md['type']] + (t.get('synonyms', []) if synonyms else [])
            ok &= v in names
        elif k == 'instance':
            ok &= v == md['instance']
        elif k in md:
            ok &= md[k] == v
        elif k == 'category':
            ok &= v in flat(t['categories'])
        elif k in t:
            if isinstance(t[k], list) and not isinstance(v, list):
                ok &= v in t[k]
            else:
                ok &= t[k] == v
        else:
            return 'raises KeyError'
    return ok


def matching(ctx, I):
    C = 'Appliance.matches'
    keys = [dict([p]) for p in PAIRS]
    if ctx.tier == 'thorough':
        keys += [dict(c) for c in itertools.permutations(PAIRS, 2)
                 if c[0][0] != c[1][0]]
    else:
        keys += [dict(c) for i, c in enumerate(itertools.permutations(
            PAIRS, 2)) if c[0][0] != c[1][0] and i % 7 == 0]
    for md in APPS:
        for syn in (True, False):
            def go():
                A = setup(I, synonyms=syn)
                a = I.call(A, [aval(md)], {})
                out = []
                for k in keys:
                    try:
                        r = method(I, a, 'matches', aval(k))
                        r = I.truth(r)
                    except AbstractRaise as e:
                        r = name(e.exc)
                    out.append(r)
                types = pyval(I.getattr(A, 'appliance_types'))
                return out, types == TYPES, \
                    pyval(I.getattr(a, 'metadata')) == md
            for o, v, tr in each(ctx, I, C, go):
                what = '%s, synonyms %s' % (md, 'on' if syn else 'off')
                if o != 'return':
                    ctx.violation('matches', C, '%s: %s' % (what, name(v)),
                                  LOC)
                    continue
                for k, got in zip(keys, v[0]):
                    want = entitled(md, k, syn)
                    ctx.expect(got == want, 'matches', C,
                               '%s: matches(%s) is %s, expected %s' % (
                                   what, k, got, want), LOC)
                ctx.expect(v[1], 'types-unchanged', C,
                           '%s: the table of appliance types was changed'
                           % what, LOC)
                ctx.expect(v[2], 'metadata-unchanged', C,
                           '%s: the metadata was changed' % what, LOC)
    for k, want in (({}, True), (None, True), ('', True),
                    ('fridge', 'raises TypeError'), (3, 'raises TypeError'),
                    (['type'], 'raises TypeError'),
                    (('type', 'fridge'), 'raises TypeError')):
        judge(ctx, I, C, lambda: method(I, I.call(setup(I), [aval(APPS[0])],
                                                  {}), 'matches', aval(k)),
              want, 'matches-other', 'matches(%r)' % (k,))


# ---------------------------------------------------------------- thresholds
def thresholds(ctx, I):
    C = 'Appliance.on_power_threshold'
    for own in (None, 0, 25):
        for nominal in (None, {}, {'on_power': 40}, {'on_power': 0},
                        {'off_power': 1}):
            for t, of in (('fridge', 30), ('kettle', 10), ('light', 10)):
                md = {'type': t, 'instance': 1}
                if own is not None:
                    md['on_power_threshold'] = own
                if nominal is not None:
                    md['nominal_consumption'] = nominal
                want = own if own is not None else (nominal or {}).get(
                    'on_power', of)
                judge(ctx, I, C, lambda: method(I, I.call(
                    setup(I), [aval(md)], {}), 'on_power_threshold'), want,
                    'threshold', str(md))
    C = 'Appliance.n_meters'
    for md in APPS:
        judge(ctx, I, C, lambda: I.getattr(I.call(
            setup(I), [aval(md)], {}), 'n_meters'), len(md['meters']),
            'n-meters', str(md))
    C = 'Appliance.categories'
    for md in APPS:
        judge(ctx, I, C, lambda: pyval(method(I, I.call(
            setup(I), [aval(md)], {}), 'categories')),
            flat(TYPES[md['type']]['categories']), 'categories', str(md))
    C = 'Appliance.type'

    def spoil():
        a = I.call(setup(I), [aval(APPS[0])], {})
        t = I.getattr(a, 'type')
        I.setitem(t, 'control', 1)
        I.call(I.getattr(I.getitem(t, 'synonyms'), 'append'), ['x'], {})
        return pyval(I.getattr(a, 'type')) == TYPES['fridge']
    judge(ctx, I, C, spoil, True, 'type-copy',
          'a change to the returned type shows in the table')


# -------------------------------------------------------------------- labels
def naming(ctx, I):
    C = 'Appliance.label'
    types = dict(TYPES, unknown={'type': 'unknown', 'categories': {}})
    for md, plain, pretty in (
            ({'type': 'fridge', 'instance': 1}, "('fridge', 1)", 'Fridge'),
            ({'type': 'fridge', 'instance': 2}, "('fridge', 2)", 'Fridge 2'),
            ({'type': 'kettle', 'instance': 11}, "('kettle', 11)",
             'Kettle 11'),
            ({'type': 'unknown', 'instance': 1, 'original_name': 'plug'},
             "('unknown', 1), original name = plug",
             'Unknown, original name = plug'),
            ({'type': 'unknown', 'instance': 3},
             "('unknown', 3), original name = None",
             'Unknown 3, original name = None')):
        for p, want in ((False, plain), (True, pretty)):
            judge(ctx, I, C, lambda: method(I, I.call(
                setup(I, types), [aval(md)], {}), 'label', pretty=p), want,
                'label', '%s pretty=%s' % (md, p))


# ------------------------------------------------------------------ identity
def identity(ctx, I):
    C = 'Hashable'
    L = 'nilmtk/hashable.py'
    mds = [{'type': 'fridge', 'instance': 1, 'room': 'x'},
           {'type': 'fridge', 'instance': 1},
           {'type': 'fridge', 'instance': 2},
           {'type': 'kettle', 'instance': 1}, {}]

    def go():
        A = setup(I)
        xs = [I.call(A, [aval(m)], {}) for m in mds]
        out = {}
        for i, j in itertools.product(range(len(xs)), repeat=2):
            out[i, j] = (I.truth(I.compare('==', xs[i], xs[j])),
                         I.truth(I.compare('!=', xs[i], xs[j])),
                         key_of(I.call(Ext('builtins.hash'), [xs[i]], {})) ==
                         key_of(I.call(Ext('builtins.hash'), [xs[j]], {})))
        other = I.truth(I.compare('==', xs[0], ('fridge', 1)))
        return out, other
    for o, v, tr in each(ctx, I, C, go):
        if o != 'return':
            ctx.violation('identity', C, name(v), L)
            continue
        for (i, j), (e, n, h) in v[0].items():
            same_ = (mds[i].get('type'), mds[i].get('instance')) == (
                mds[j].get('type'), mds[j].get('instance'))
            ctx.expect(e == same_ and n != same_ and (h or not same_),
                       'identity', C, '%s and %s: ==%s !=%s same hash %s' % (
                           mds[i], mds[j], e, n, h), L)
        ctx.expect(v[1] is False, 'identity', C,
                   'an appliance equals a tuple', L)

    def apart():
        A = setup(I)
        a, b = I.call(A, [], {}), I.call(A, [], {})
        I.setitem(I.getattr(a, 'metadata'), 'type', 'fridge')
        return pyval(I.getattr(b, 'metadata'))
    judge(ctx, I, 'Appliance.__init__', apart, {}, 'metadata-apart',
          'metadata of another appliance made without any')


# ------------------------------------------------------------------ building
class Store(Dom):
    """a store that holds metadata by key"""
    def __init__(self, md, below=()):
        self.md, self.below = md, below
        self.asked = []

    def d_truth(self, I):
        return True

    def d_deepcopy(self, I, memo):
        return self

    def __repr__(self):
        return '<store>'

    def d_getattr(self, I, nm):
        if nm == 'load_metadata':
            def load(I, a, k):
                key = a[0] if a else k.get('key', '/')
                if not isinstance(key, str):
                    raise Undecided('key %s' % short(key))
                self.asked.append(key.strip('/'))
                return aval(self.md[key.strip('/')])
            return Native(load, nm)
        if nm == 'elements_below_key':
            return Native(lambda I, a, k: aval(list(self.below)), nm)
        return NotImplemented


def building(ctx, I):
    C = 'Building.import_metadata'
    L = 'nilmtk/building.py'
    MG = 'nilmtk.metergroup.MeterGroup.import_metadata'
    for meters in (None, {1: {'site_meter': True}, 2: {}}):
        for apps in (None, [{'type': 'fridge'}]):
            for ds in (None, 'other'):
                md = {'instance': 3, 'rooms': ['hall']}
                if meters is not None:
                    md['elec_meters'] = meters
                if apps is not None:
                    md['appliances'] = apps
                if ds is not None:
                    md['dataset'] = ds
                got = []

                def go():
                    setup(I)
                    del got[:]
                    I.overrides[MG] = lambda I, a, k: got.append(
                        (a, dict(k)))
                    try:
                        b = I.call(I.get('nilmtk.building.Building'), [], {})
                        s = Store({'building3': md})
                        method(I, b, 'import_metadata', s, '/building3', 'D')
                        return s, pyval(I.getattr(b, 'metadata')), pyval(
                            tuple(I.getattr(b, 'identifier'))), list(got), \
                            I.getattr(b, 'elec')
                    finally:
                        I.overrides.pop(MG, None)
                for o, v, tr in each(ctx, I, C, go):
                    what = 'metadata %s' % md
                    if o != 'return':
                        ctx.violation('building', C, '%s: %s' % (
                            what, name(v)), L)
                        continue
                    s, left, ident, calls, elec = v
                    want = dict(md, dataset=ds or 'D')
                    want.pop('elec_meters', None)
                    want.pop('appliances', None)
                    ctx.expect(left == want, 'building-metadata', C,
                               '%s leaves %s' % (what, left), L)
                    ctx.expect(ident == (3, ds or 'D'), 'building-identity',
                               C, '%s: identifier %s' % (what, ident), L)
                    if len(calls) != 1 or calls[0][1] or \
                            len(calls[0][0]) != 5:
                        raise_or(ctx, 'building-elec', C, what, calls, L)
                        continue
                    a = calls[0][0]
                    ok = a[0] is elec and a[1] is s and \
                        pyval(a[2]) == (meters or {}) and \
                        pyval(a[3]) == (apps or []) and \
                        pyval(tuple(I.iterate(a[4]))) == ident
                    ctx.expect(ok, 'building-elec', C,
                               '%s: the meters are read from %s' % (
                                   what, short(a[1:])), L)


def raise_or(ctx, rule, C, what, calls, L):
    if not calls:
        ctx.violation(rule, C, '%s: the meter group is not filled' % what, L)
    else:
        ctx.undecided(C, 'meter group filled by %s' % short(calls))


# ------------------------------------------------------------------ data set
def dataset(ctx, I):
    C = 'DataSet.import_metadata'
    L = 'nilmtk/dataset.py'
    BI = 'nilmtk.building.Building.import_metadata'
    DS = 'nilmtk.dataset.DataSet'
    for below in ([], ['building1'], ['building2', 'building10',
                                      'building1']):
        for md in ({'name': 'D', 'timezone': 'X'}, {'timezone': 'X'}):
            for via in ('import', 'filename'):
                got = []

                def imp(I, a, k):
                    got.append((a[1:], dict(k)))
                    key = a[2]
                    I.setattr(a[0], 'metadata', aval(
                        {'instance': int(key.strip('/')[8:])}))

                def go():
                    del got[:]
                    I.overrides[BI] = imp
                    s = Store({'': md}, below)
                    opened = []

                    def opener(I, a, k):
                        opened.append((a, dict(k)))
                        return s
                    I.overrides['nilmtk.utils.get_datastore'] = opener
                    try:
                        if via == 'import':
                            d = I.call(I.get(DS), [], {})
                            r = method(I, d, 'import_metadata', s)
                        else:
                            d = r = I.call(I.get(DS), ['f.x', 'HDF'], {})
                        bs = I.getattr(d, 'buildings')
                        return (s, r is d, I.getattr(d, 'store') is s,
                                pyval(I.getattr(d, 'metadata')),
                                [pyval(x) for x in I.iterate(bs)],
                                [pyval(tuple(I.getattr(I.getitem(
                                    bs, x), 'identifier')))[0]
                                    for x in I.iterate(bs)],
                                [any(e is I.getattr(I.getitem(bs, x), 'elec')
                                     for x in I.iterate(bs))
                                 for e in lst(I, method(I, d, 'elecs'))],
                                list(got), list(opened))
                    finally:
                        I.overrides.pop(BI, None)
                        I.overrides.pop('nilmtk.utils.get_datastore', None)
                for o, v, tr in each(ctx, I, C, go):
                    what = 'buildings %s, metadata %s, by %s' % (below, md,
                                                                 via)
                    if o != 'return':
                        ctx.violation('dataset', C, '%s: %s' % (
                            what, name(v)), L)
                        continue
                    s, me, st, m, keys, ids, elecs, calls, opened = v
                    want = sorted(int(b[8:]) for b in below)
                    ctx.expect(me and st and m == md, 'dataset-metadata', C,
                               '%s: returns itself %s, keeps the store %s, '
                               'metadata %s' % (what, me, st, m), L)
                    ctx.expect(sorted(keys) == want and keys == ids,
                               'dataset-buildings', C,
                               '%s: buildings %s are numbered %s' % (
                                   what, keys, ids), L)
                    ctx.expect(elecs == [True] * len(want), 'dataset-elecs',
                               C, '%s: elecs %s' % (what, elecs), L)
                    args = []
                    for a, k in calls:
                        a = dict(zip(('store', 'key', 'dataset_name'), a),
                                 **k)
                        args.append((a.get('store') is s,
                                     str(a.get('key')).strip('/'),
                                     a.get('dataset_name')))
                    ctx.expect(sorted(args, key=repr) == sorted(
                        [(True, b, md.get('name')) for b in below],
                        key=repr), 'dataset-import', C,
                        '%s: buildings imported with %s' % (what, args), L)
                    if via == 'filename':
                        op = [dict(zip(('filename', 'format', 'mode'), a),
                                   **k) for a, k in opened]
                        ctx.expect(len(op) == 1 and
                                   op[0].get('filename') == 'f.x' and
                                   op[0].get('format') == 'HDF' and
                                   op[0].get('mode', 'r') == 'r',
                                   'dataset-opens', 'DataSet.__init__',
                                   '%s: opens %s' % (what, op), L)
    C = 'DataSet.clear_cache'
    CC = 'nilmtk.metergroup.MeterGroup.clear_cache'

    def clear():
        got = []
        d = I.call(I.get(DS), [], {})
        bs = [I.call(I.get('nilmtk.building.Building'), [], {})
              for i in range(3)]
        for i, b in enumerate(bs):
            I.setitem(I.getattr(d, 'buildings'), i, b)
        I.overrides[CC] = lambda I, a, k: got.append(a[0])
        try:
            method(I, d, 'clear_cache')
        finally:
            I.overrides.pop(CC, None)
        return [sum(x is I.getattr(b, 'elec') for x in got) for b in bs]
    judge(ctx, I, C, clear, [1, 1, 1], 'dataset-clear',
          'times the cache of each building is cleared')


KEYS = ['instance', 'building_type', 'construction_year',
        'energy_improvements', 'heating', 'ownership', 'n_occupants',
        'description_of_occupants']


def description(ctx, I):
    C = 'Building.describe'
    L = 'nilmtk/building.py'
    MD = 'nilmtk.metergroup.MeterGroup.describe'
    BD = 'nilmtk.building.Building.describe'
    for md in ({'instance': 2, 'dataset': 'D'},
               dict({k: 'v ' + k for k in KEYS}, instance=4)):
        kws = []

        def go():
            del kws[:]

            def desc(I, a, k):
                kws.append((len(a), dict(k)))
                return Series([atom('num', 'up'), 5], Idx(['uptime', 'n']))
            I.overrides[MD] = desc
            try:
                b = I.call(I.get('nilmtk.building.Building'), [], {})
                I.setattr(b, 'metadata', aval(md))
                return method(I, b, 'describe', q=1)
            finally:
                I.overrides.pop(MD, None)
        for o, v, tr in each(ctx, I, C, go):
            if o != 'return':
                ctx.violation('describe', C, '%s: %s' % (md, name(v)), L)
                continue
            if not isinstance(v, Series):
                ctx.undecided(C, short(v))
                continue
            got = list(zip([pyval(x) for x in v.idx.labels], v.vals))
            want = [(k, md.get(k)) for k in KEYS]

            def eq(x, y):
                if y is None:
                    return x is None or isnan(x)
                return key_of(x) == key_of(y)
            ok = len(got) == len(want) + 2 and all(
                g[0] == w[0] and eq(g[1], w[1])
                for g, w in zip(got, want)) and \
                [g[0] for g in got[-2:]] == ['uptime', 'n'] and \
                kws == [(1, {'q': 1})]
            ctx.expect(ok, 'describe', C, '%s: %s (group asked %s)' % (
                md, [(a, short(b)) for a, b in got], kws), L)
    C = 'DataSet.describe'
    for ids in ([1], [2, 10, 1]):
        def go():
            def desc(I, a, k):
                i = pyval(tuple(I.getattr(a[0], 'identifier')))[0]
                return Series([atom('num', 'u%d' % i),
                               atom('num', 'w%d' % i)], Idx(['u', 'w']))
            I.overrides[BD] = desc
            try:
                d = I.call(I.get('nilmtk.dataset.DataSet'), [], {})
                for i in ids:
                    b = I.call(I.get('nilmtk.building.Building'), [], {})
                    I.setattr(b, 'metadata', aval({'instance': i}))
                    I.setitem(I.getattr(d, 'buildings'), i, b)
                return method(I, d, 'describe')
            finally:
                I.overrides.pop(BD, None)
        for o, v, tr in each(ctx, I, C, go):
            what = 'buildings %s' % ids
            if o != 'return':
                ctx.violation('describe', C, '%s: %s' % (what, name(v)),
                              'nilmtk/dataset.py')
                continue
            if not isinstance(v, Frame):
                ctx.undecided(C, short(v))
                continue
            cols = [pyval(c) for c in v.cols.labels]
            ok = cols == sorted(ids) and all(
                [repr(x) for x in v.data[cols.index(i)]] ==
                [repr(atom('num', 'u%d' % i)), repr(atom('num', 'w%d' % i))]
                for i in ids)
            ctx.expect(ok, 'describe', C, '%s: columns %s, %s' % (
                what, cols, [[short(x) for x in d] for d in v.data]),
                'nilmtk/dataset.py')


# ------------------------------------------------------------ activity script
class Scripts(Dom):
    def __init__(self):
        self.t = {}
        self.closed = 0
        self.order = []

    def d_truth(self, I):
        return True

    def d_setitem(self, I, k, v):
        self.t[k] = v
        self.order.append(k)
        if self.closed:
            I.throw('ValueError')

    def d_getattr(self, I, nm):
        if nm == 'close':
            def close(I, a, k):
                self.closed += 1
            return Native(close, nm)
        if nm in ('put', 'append'):
            return Native(lambda I, a, k: self.d_setitem(
                I, a[0] if a else k['key'],
                a[1] if len(a) > 1 else k['value']), nm)
        return NotImplemented


def script(ctx):
    b = Bench(ctx)
    I = b.I
    C = 'DataSet.get_activity_script'
    L = 'nilmtk/dataset.py'
    GA = ['nilmtk.electric.Electric.get_activations',
          'nilmtk.electric.get_activations']
    SM = 'nilmtk.metergroup.MeterGroup.submeters'
    acts = {2: [(0, 20), (40, 50)], 3: [], 4: [(-30, -10)]}
    held = {}

    def hdf(I, a, k):
        held['s'] = Scripts()
        held['a'] = (a, dict(k))
        return held['s']

    def go():
        I.models['pandas.HDFStore'] = hdf
        ms = [b.meter(2, apps=[{'type': 'fridge', 'instance': 1}]),
              b.meter(3, apps=[{'type': 'washer dryer', 'instance': 2}]),
              b.meter(4, apps=[{'type': 'fridge', 'instance': 12}])]
        g = b.group(*ms)

        def ga(I, a, k):
            i = pyval(tuple(I.getattr(a[0], 'identifier')))[0]
            return AList([Series([1] * 3, Idx(
                [T(x), T((x + y) / 2), T(y)], dt=True))
                for x, y in acts[i]])
        I.overrides[GA[0]] = ga
        I.overrides[SM] = lambda I, a, k: g
        A = I.get(APP)
        I.setattr(A, 'appliance_types', aval(
            dict(TYPES, **{'washer dryer': {'type': 'washer dryer',
                                            'categories': {}}})))
        try:
            d = I.call(I.get('nilmtk.dataset.DataSet'), [], {})
            bl = I.call(I.get('nilmtk.building.Building'), [], {})
            I.setattr(bl, 'metadata', aval({'instance': 5}))
            I.setitem(I.getattr(d, 'buildings'), 5, bl)
            method(I, d, 'get_activity_script', 'out.h5')
        finally:
            I.overrides.pop(GA[0], None)
            I.overrides.pop(SM, None)
        return held['s']
    for o, v, tr in each(ctx, I, C, go):
        if o != 'return':
            ctx.violation('activity-script', C, name(v), L)
            continue
        want = {}
        for i, k in ((2, 'fridge__1'), (3, 'washer_dryer__2'),
                     (4, 'fridge__12')):
            want['building5/' + k] = sorted(
                [(x, True) for x, y in acts[i]] +
                [(y, False) for x, y in acts[i]])

        def judge_():
            got = {}
            for k, s in v.t.items():
                if not isinstance(s, Series):
                    raise Unk(short(s))
                got[k.strip('/')] = [(offset(l), x) for l, x in
                                     zip(s.idx.labels, s.vals)]
            ctx.expect(got == want, 'activity-script', C,
                       'writes %s, expected %s' % (got, want), L)
            ctx.expect(v.closed == 1, 'activity-closed', C,
                       'the file is closed %d times' % v.closed, L)
        guard(ctx, C, judge_)
    ctx.absorb(I)
