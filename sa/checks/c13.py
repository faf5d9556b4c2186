"""C13  A MeterGroup as a collection: built from metadata, looked up by any
form of key, selected, combined, wired, compared."""
import itertools
from .tablecommon import *
from .c12 import device, UNI, ident, fresh, name, Meta
from graphmodel import GM

EXPLANATION = (
    'MeterGroup, Appliance and ElecMeter are interpreted over the abstract '
    'domain on a building which MeterGroup.import_metadata itself builds '
    '(site meters, sub meters, a sub-sub meter, a dual supply appliance, '
    'disabled meters, two buildings and two data sets); every form of key, '
    'selection and combination is compared with the set of meters the '
    'metadata entitles it to.')
ASSUMPTIONS = [
    'metadata follows the NILM Metadata schema',
    'the wiring graph is a networkx DiGraph with the documented interface']
MIN_OBLIGATIONS = 400
LOC = 'nilmtk/metergroup.py'

TYPES = {
    'fridge': {'type': 'fridge', 'categories': {'traditional': 'cold',
               'size': 'large'}, 'synonyms': ['refrigerator'],
               'control': ['thermostat', 'timer'],
               'on_power_threshold': 30},
    'kettle': {'type': 'kettle', 'categories': {
        'traditional': 'cooking', 'size': 'small'}, 'control': ['manual']},
    'light': {'type': 'light', 'categories': {
        'traditional': 'lighting', 'electrical': ['resistive', 'led']}},
    'washer dryer': {'type': 'washer dryer', 'categories': {
        'traditional': 'wet', 'size': 'large'}},
    'unknown': {'type': 'unknown', 'categories': {}}}


def meters_md():
    return {
        1: {'site_meter': True, 'device_model': 'dev', 'room': 'cellar'},
        2: {'submeter_of': 1, 'device_model': 'dev', 'room': 'kitchen'},
        3: {'submeter_of': 1, 'device_model': 'slow', 'room': 'kitchen'},
        4: {'submeter_of': 2, 'device_model': 'dev', 'room': 'hall'},
        5: {'submeter_of': 1, 'device_model': 'dev'},
        6: {'submeter_of': 1, 'device_model': 'dev'},
        7: {'site_meter': True, 'device_model': 'dev', 'disabled': True},
        8: {'submeter_of': 1, 'device_model': 'dev', 'disabled': True}}


def apps_md():
    return [
        {'type': 'fridge', 'instance': 1, 'meters': [2], 'room': 'kitchen'},
        {'type': 'kettle', 'instance': 1, 'meters': [3], 'room': 'kitchen'},
        {'type': 'kettle', 'instance': 2, 'meters': [4], 'room': 'hall'},
        {'type': 'light', 'instance': 1, 'meters': [4], 'room': 'hall',
         'dominant_appliance': True},
        {'type': 'light', 'instance': 2, 'meters': [0]},
        {'type': 'washer dryer', 'instance': 1, 'meters': [5, 6]}]


def more_apps():
    """also with keys only some appliances have"""
    out = apps_md() + [
        {'type': 'unknown', 'instance': 1, 'meters': [4], 'room': 'cellar'}]
    out[1]['size'] = out[5]['size'] = 'tall'
    return out


def setup(I):
    fresh(I)
    app = I.get('nilmtk.appliance.Appliance')
    I.setattr(app, 'appliance_types', aval(TYPES))
    I.setattr(app, 'allow_synonyms', True)
    I.setattr(I.get('nilmtk.elecmeter.ElecMeter'), 'meter_devices', aval({}))


def store():
    return Meta({'meter_devices': {
        'dev': device(UNI[:2]), 'slow': device(UNI[:1], sample_period=60)}})


def building(I, b=1, d='D', meters=None, apps=None, raw=False):
    """a MeterGroup filled by import_metadata"""
    g = I.call(I.get('nilmtk.metergroup.MeterGroup'), [], {})
    bid = I.call(I.get('nilmtk.building.BuildingID'), [b, d], {})
    I.call(I.getattr(g, 'import_metadata'),
           [store(), aval(meters_md() if meters is None else meters),
            aval(apps_md() if apps is None else apps), bid], {})
    return g


def lst(I, v):
    return list(I.iterate(v))


def meters_of(I, g, attr='meters'):
    return lst(I, I.getattr(g, attr))


def is_group(I, m):
    return isinstance(m, AObj) and m.cls.name == 'MeterGroup'


def desc(I, m):
    """what an answer is: an instance number, (instance, building, dataset)
    when elsewhere, or a frozenset for a group"""
    if m is None:
        return None
    if not isinstance(m, AObj):
        raise Unk(short(m))
    if is_group(I, m):
        xs = [desc(I, x) for x in meters_of(I, m)]
        return ('group', tuple(sorted(xs, key=repr)))
    i = pyval(tuple(I.getattr(m, 'identifier')))
    return i[0] if i[1:] == (1, 'D') else i


def grp(*xs):
    return ('group', tuple(sorted(xs, key=repr)))


DUAL = grp(5, 6)
ALL = grp(1, 2, 3, 4, DUAL)


def run(ctx):
    I = ctx.interp(models=dict(TM, **GM))
    ctx.anchor(I, 'nilmtk.metergroup.MeterGroup')
    importing(ctx, I)
    lookup(ctx, I)
    selecting(ctx, I)
    listing(ctx, I)
    combining(ctx, I)
    parts(ctx, I)
    wiring(ctx, I)
    identity(ctx, I)
    labels(ctx, I)
    more(ctx, I)
    ctx.absorb(I)


def judge(ctx, I, C, go, want, rule, what):
    """want: value, or exception name(s) as 'raises X'"""
    for out, v, tr in each(ctx, I, C, go):
        got = v if out == 'return' else name(v)
        ok = got == want or (isinstance(want, tuple) and want and
                             want[0] == 'any' and got in want[1:])
        ctx.expect(ok, rule, C, '%s: %s, expected %s' % (
            what, got if isinstance(got, (str, tuple, list, dict, int,
                                          frozenset, set, type(None)))
            else short(got), want), LOC)


def method(I, o, nm, *a, **k):
    return I.call(I.getattr(o, nm), list(a), k)


# ------------------------------------------------------------------ importing
def importing(ctx, I):
    C = 'MeterGroup.import_metadata'

    def go():
        setup(I)
        g = building(I)
        out = {}
        flat = []
        for m in meters_of(I, g) + meters_of(I, g, 'disabled_meters'):
            flat += meters_of(I, m) if is_group(I, m) else [m]
        for m in flat:
            ap = [pyval(tuple(I.getattr(a, 'identifier')))
                  for a in meters_of(I, m, 'appliances')]
            out[desc(I, m)] = (ap, pyval(I.getattr(I.getattr(
                m, 'metadata'), 'get') and I.call(I.getattr(I.getattr(
                    m, 'metadata'), 'get'), ['room'], {})))
        # one appliance object per metadata entry
        du = [meters_of(I, x, 'appliances')[0]
              for x in flat if desc(I, x) in (5, 6)]
        md = [pyval(I.getattr(a, 'metadata')) for a in
              [y for x in flat for y in meters_of(I, x, 'appliances')]]
        return (desc(I, g), sorted([desc(I, x) for x in meters_of(
            I, g, 'disabled_meters')]), out, du[0] is du[1],
            sorted({(m['building'], m['dataset']) for m in md}))
    F, K1, K2, L1, L2, W = (('fridge', 1), ('kettle', 1), ('kettle', 2),
                            ('light', 1), ('light', 2), ('washer dryer', 1))
    want = {1: ([L2], 'cellar'), 2: ([F], 'kitchen'), 3: ([K1], 'kitchen'),
            4: ([K2, L1], 'hall'), 5: ([W], None), 6: ([W], None),
            7: ([L2], None), 8: ([], None)}
    for out, v, tr in each(ctx, I, C, go):
        if out == 'raise':
            ctx.violation('import', C, name(v), LOC)
            continue
        ctx.expect(v[0] == ALL, 'import-meters', C, 'meters %s, expected %s'
                   % (v[0], ALL), LOC)
        ctx.expect(v[1] == [7, 8], 'import-disabled', C,
                   'disabled meters %s, expected [7, 8]' % (v[1],), LOC)
        for k in want:
            ctx.expect(v[2].get(k) == want[k], 'import-appliances', C,
                       'meter %s: appliances and room %s, expected %s' % (
                           k, v[2].get(k), want[k]), LOC)
        ctx.expect(v[3], 'import-one-appliance', C,
                   'the appliance of two meters is two objects', LOC)
        ctx.expect(v[4] == [(1, 'D')], 'import-appliances', C,
                   'appliances are told they belong to %s' % (v[4],), LOC)
    # order of metadata does not matter
    for perm in itertools.permutations(range(3)):
        def go():
            setup(I)
            ms, ap = meters_md(), apps_md()
            keys = sorted(ms)
            rot = [keys[i::3] for i in perm]
            ms2 = {k: ms[k] for part in rot for k in part}
            ap2 = [a for i in perm for a in ap[2 * i:2 * i + 2]]
            g = building(I, meters=ms2, apps=ap2)
            return desc(I, g), {
                desc(I, m): frozenset(pyval(tuple(I.getattr(
                    a, 'identifier'))) for a in meters_of(
                        I, m, 'appliances')) for m in meters_of(I, g)
                if not is_group(I, m)}
        for out, v, tr in each(ctx, I, C, go):
            ctx.expect(out == 'return' and v == (ALL, {
                k: frozenset(want[k][0]) for k in (1, 2, 3, 4)}),
                'import-order', C, 'metadata in another order: %s' % (
                    v if out == 'return' else name(v),), LOC)
    # an appliance on a meter that is not there
    judge(ctx, I, C, lambda: (setup(I), building(I, apps=[
        {'type': 'fridge', 'instance': 1, 'meters': [9]}]))[1],
        'raises KeyError', 'import-unknown-meter', 'appliance on meter 9')
    # importing one building leaves another alone
    def go():
        setup(I)
        a = building(I)
        b = building(I, 2)
        return desc(I, a), len(meters_of(I, b)), [
            len(meters_of(I, m, 'appliances')) for m in meters_of(I, a)]
    for out, v, tr in each(ctx, I, C, go):
        ctx.expect(out == 'return' and v == (ALL, 5, [1, 1, 1, 2, 1]),
                   'import-isolated', C, 'after another building is '
                   'imported: %s' % (v if out == 'return' else name(v),),
                   LOC)


# --------------------------------------------------------------------- lookup
def lookup(ctx, I):
    C = 'MeterGroup.__getitem__'
    eid = lambda *a: ident(I, *a)

    def gid(*xs):
        return I.call(I.get('nilmtk.metergroup.MeterGroupID'),
                      [tuple(eid(*x) for x in xs)], {})
    D = (1, 'D')
    KE, EX, TE = 'raises KeyError', 'raises Exception', 'raises TypeError'
    cases = [
        # instance numbers
        (lambda: 1, 1), (lambda: 2, 2), (lambda: 4, 4), (lambda: 5, 5),
        (lambda: 6, 6), (lambda: 7, KE), (lambda: 9, KE),
        # ids of meters
        (lambda: eid(2, *D), 2), (lambda: eid(1, *D), 1),
        (lambda: eid(7, *D), KE), (lambda: eid(2, 2, 'D'), KE),
        (lambda: eid(2, 1, 'E'), KE),
        (lambda: eid(0, *D), 1),
        (lambda: eid((5, 6), *D), DUAL), (lambda: eid((6, 5), *D), DUAL),
        (lambda: eid((5,), *D), KE), (lambda: eid((5, 6, 2), *D), KE),
        (lambda: eid((5, 6), 2, 'D'), KE),
        (lambda: eid((5, 6), 1, 'E'), KE),
        (lambda: (3, 1, 'D'), 3), (lambda: ((5, 6), 1, 'D'), DUAL),
        (lambda: (3, 2, 'D'), KE),
        # ids of groups
        (lambda: gid((5, 1, 'D'), (6, 1, 'D')), DUAL),
        (lambda: gid((6, 1, 'D'), (5, 1, 'D')), DUAL),
        (lambda: gid((5, 1, 'D')), KE),
        (lambda: gid((5, 1, 'D'), (6, 1, 'D'), (2, 1, 'D')), KE),
        (lambda: gid((1, 1, 'D'), (2, 1, 'D')), KE),
        (lambda: AList([eid(5, *D), eid(6, *D)]), DUAL),
        (lambda: AList([eid(6, *D), eid(5, *D)]), DUAL),
        (lambda: AList([eid(5, *D)]), KE),
        (lambda: AList([eid(5, *D), eid(2, *D)]), KE),
        (lambda: AList([5, 6]), TE),
        # appliances
        (lambda: 'fridge', 2), (lambda: 'refrigerator', 2),
        (lambda: 'kettle', 3), (lambda: ('kettle', 1), 3),
        (lambda: ('kettle', 2), 4), (lambda: ('kettle', 3), KE),
        (lambda: ('light', 1), 4), (lambda: 'washer dryer', DUAL),
        (lambda: 'light', 4), (lambda: ('light', 2), 1),
        (lambda: 'oven', KE),
        (lambda: aval({'type': 'kettle', 'instance': 2}), 4),
        (lambda: aval({'type': 'kettle', 'room': 'hall'}), 4),
        (lambda: aval({'type': 'kettle', 'building': 1}), EX),
        (lambda: aval({'type': 'kettle', 'instance': 1, 'building': 2}), KE),
        (lambda: aval({'type': 'kettle', 'instance': 1, 'dataset': 'E'}),
         KE),
        (lambda: aval({'category': 'wet'}), DUAL),
        (lambda: aval({'category': 'large'}), EX),
        # several
        (lambda: (2, 3), grp(2, 3)), (lambda: (2, 9), KE),
        (lambda: (2, 5), grp(2, 5)),
        # nonsense
        (lambda: True, TE), (lambda: None, TE), (lambda: 1.5, TE),
        (lambda: (1, 2, 3, 4), TE)]
    for mk, want in cases:
        def go():
            setup(I)
            g = building(I)
            building(I, 2)
            before = desc(I, g)
            r = desc(I, I.getitem(g, mk()))
            if desc(I, g) != before:
                return 'changes the group'
            return r
        judge(ctx, I, C, go, want, 'lookup', 'key %s' % show(I, mk))

    # several buildings in one group
    def two(mk):
        def go():
            setup(I)
            a, b = building(I), building(I, 2)
            u = method(I, a, 'union', b)
            return desc(I, I.getitem(u, mk()))
        return go
    for mk, want in ((lambda: 1, EX), (lambda: eid(2, 1, 'D'), 2),
                     (lambda: eid(2, 2, 'D'), (2, 2, 'D')),
                     (lambda: eid(0, 1, 'D'), 1),
                     (lambda: eid(0, 2, 'D'), (1, 2, 'D')),
                     (lambda: 'fridge', EX), (lambda: eid(0, 3, 'D'), KE),
                     (lambda: aval({'type': 'fridge', 'building': 2}),
                      (2, 2, 'D')),
                     (lambda: eid((5, 6), 2, 'D'),
                      grp((5, 2, 'D'), (6, 2, 'D')))):
        judge(ctx, I, C, two(mk), want, 'lookup-buildings',
              'two buildings, key %s' % show(I, mk))
    # two site meters: instance 0 is all of them
    def go():
        setup(I)
        ms = meters_md()
        del ms[7]['disabled']
        g = building(I, meters=ms)
        return desc(I, I.getitem(g, eid(0, 1, 'D')))
    judge(ctx, I, C, go, grp(1, 7), 'lookup-mains', 'two site meters, '
          'instance 0')
    # a real ElecMeter whose instance is a tuple, groups in groups
    def go():
        setup(I)
        cls = I.get('nilmtk.elecmeter.ElecMeter')
        m = I.call(cls, [None, None, eid((1, 2), 1, 'D')], {})
        n = I.call(cls, [None, None, eid(3, 1, 'D')], {})
        g = I.call(I.get('nilmtk.metergroup.MeterGroup'),
                   [AList([m, n])], {})
        return I.getitem(g, eid((1, 2), 1, 'D')) is m, \
            I.getitem(g, 2) is m, I.getitem(g, 3) is n
    judge(ctx, I, C, go, (True, True, True), 'lookup',
          'a meter with instance (1, 2)')
    # matches
    C = 'MeterGroup.matches'
    for key, want in (({'room': 'kitchen'}, True), ({'instance': 4}, True),
                      ({'instance': 44}, False),
                      ({'building': 1, 'instance': 2}, True),
                      ({'building': 2, 'instance': 2}, False),
                      ({'name': 'c'}, True), ({'name': 'd'}, False),
                      ({'nonsense': 1}, 'raises KeyError')):
        def go():
            setup(I)
            md = meters_md()
            md[3]['name'] = 'c'
            g = building(I, meters=md)
            ms = [m for m in meters_of(I, g) if desc(I, m) in (2, 3, 4)]
            s = I.call(I.get('nilmtk.metergroup.MeterGroup'),
                       [AList(ms)], {})
            return I.truth(method(I, s, 'matches', aval(key)))
        judge(ctx, I, C, go, want, 'matches', 'group {2, 3, 4}, %s' % key)


def show(I, mk):
    try:
        return short(mk())
    except Exception:
        return '?'


# ------------------------------------------------------------------ selecting
def selecting(ctx, I):
    KE = 'raises KeyError'
    C = 'MeterGroup.select'
    cases = [
        ({'room': 'kitchen'}, grp(2, 3)), ({'room': 'hall'}, grp(4)),
        ({'room': 'attic'}, KE), ({'nonsense': 1}, KE),
        ({'building': 1}, ALL), ({'building': 2}, KE),
        ({'dataset': 'D'}, ALL), ({'dataset': 'E'}, KE),
        ({'sample_period': 60}, grp(3)),
        ({'sample_period': 10}, grp(1, 2, 4, DUAL)),
        ({'room': 'kitchen', 'sample_period': 10}, grp(2)),
        ({'room': 'kitchen', 'sample_period': 60}, grp(3)),
        ({'room': 'hall', 'sample_period': 60}, KE),
        ({'submeter_of': 1, 'room': 'kitchen'}, grp(2, 3)),
        ({'instance': 2}, grp(2)), ({'instance': 5}, grp(DUAL)),
        ({'instance': [2, 4]}, grp(2, 4)),
        ({'room': ['kitchen', 'hall']}, grp(2, 3, 4)),
        ({'instance': [2, 9]}, KE), ({'submeter_of': 2}, grp(4)),
        ({'device_model': 'slow'}, grp(3)), ({'site_meter': True}, grp(1)),
        ({}, ALL)]
    for kw, want in cases:
        def go():
            setup(I)
            g = building(I)
            r = desc(I, method(I, g, 'select', **{
                k: aval(v) for k, v in kw.items()}))
            return r if desc(I, g) == ALL else 'changes the group'
        judge(ctx, I, C, go, want, 'select', 'select(%s)' % kw)
    C = 'MeterGroup.select_using_appliances'
    cases = [
        ({'type': 'fridge'}, grp(2)), ({'type': 'kettle'}, grp(3, 4)),
        ({'type': 'refrigerator'}, grp(2)), ({'type': 'oven'}, KE),
        ({'type': ['fridge', 'kettle']}, grp(2, 3, 4)),
        ({'type': ['fridge', 'oven']}, KE),
        ({'type': ['kettle', 'light']}, grp(1, 3, 4)),
        ({'type': 'kettle', 'instance': 2}, grp(4)),
        ({'type': 'light', 'instance': 1}, grp(4)),
        ({'type': 'light', 'room': 'kitchen'}, KE),
        ({'type': 'light', 'room': 'hall'}, grp(4)),
        ({'size': 'tall'}, grp(3, DUAL)), ({'nonsense': 1}, KE),
        ({'room': 'cellar'}, grp(4)),
        ({'room': 'kitchen'}, grp(2, 3)),
        ({'category': 'wet'}, grp(DUAL)),
        ({'category': 'large'}, grp(2, DUAL)),
        ({'category': 'led'}, grp(1, 4)), ({'type': 'unknown'}, grp(4)),
        ({'category': 'large', 'room': 'kitchen'}, grp(2)),
        ({'category': ['wet', 'cold']}, grp(2, DUAL)),
        ({'category': 'large', 'building': 1}, grp(2, DUAL)),
        ({'category': 'large', 'building': 2}, KE),
        ({'control': 'manual'}, grp(3, 4)),
        ({'building': 1}, ALL)]
    for kw, want in cases:
        def go():
            setup(I)
            g = building(I, apps=more_apps())
            r = method(I, g, 'select_using_appliances', **{
                k: aval(v) for k, v in kw.items()})
            return desc(I, r)
        judge(ctx, I, C, go, want, 'select-appliances',
              'select_using_appliances(%s)' % kw)
    for kw, want in (({'type': 'fridge'}, grp(2)), ({'type': 'oven'}, KE),
                     ({'type': 'light'}, grp(4)), ({'nonsense': 1}, KE),
                     ({'category': 'large'}, grp(2, DUAL))):
        def go():
            setup(I)
            g = building(I, apps=[x for x in more_apps()
                                  if x['meters'] != [0]])
            r = method(I, g, 'select_using_appliances', **{
                k: aval(v) for k, v in kw.items()})
            return desc(I, r)
        judge(ctx, I, C, go, want, 'select-appliances',
              'select_using_appliances(%s) with a meter without appliances'
              % kw)
    C = 'MeterGroup.groupby'
    for key, want in (('type', [('fridge', grp(2)), ('kettle', grp(3, 4)),
                                ('light', grp(1, 4)),
                                ('washer dryer', grp(DUAL))]),
                      ('room', [('hall', grp(4)),
                                ('kitchen', grp(2, 3))])):
        def go():
            setup(I)
            g = method(I, building(I), 'groupby', key)
            return sorted([(I.getattr(x, 'name'), desc(I, x))
                           for x in meters_of(I, g)])
        judge(ctx, I, C, go, want, 'groupby', 'groupby(%r)' % key)


# -------------------------------------------------------------------- listing
def listing(ctx, I):
    C = 'MeterGroup.from_list'
    KE, TE = 'raises KeyError', 'raises TypeError'
    eid = lambda *a: ident(I, *a)

    def gid(*xs):
        return I.call(I.get('nilmtk.metergroup.MeterGroupID'),
                      [tuple(eid(x, 1, 'D') for x in xs)], {})
    cases = [
        ('2, 3', lambda: [eid(2, 1, 'D'), eid(3, 1, 'D')], grp(2, 3)),
        ('2, 2, 3', lambda: [eid(2, 1, 'D'), eid(2, 1, 'D'),
                             eid(3, 1, 'D')], grp(2, 3)),
        ('2, {5, 6}', lambda: [eid(2, 1, 'D'), gid(5, 6)], grp(2, DUAL)),
        ('{6, 5}, 2', lambda: [gid(6, 5), eid(2, 1, 'D')], grp(2, DUAL)),
        ('{2, 3}, 4', lambda: [gid(2, 3), eid(4, 1, 'D')],
         grp(grp(2, 3), 4)),
        ('(2, 3), 4', lambda: [(eid(2, 1, 'D'), eid(3, 1, 'D')),
                               eid(4, 1, 'D')], grp(grp(2, 3), 4)),
        ('9', lambda: [eid(9, 1, 'D')], KE),
        ('2, 9', lambda: [eid(2, 1, 'D'), eid(9, 1, 'D')], KE),
        ('2 (a number)', lambda: [2], TE), ('nothing', lambda: [], grp())]
    for what, mk, want in cases:
        for seq in ('list', 'tuple'):
            def go():
                setup(I)
                g = building(I)
                xs = mk()
                r = method(I, g, 'from_list', AList(xs) if seq == 'list'
                           else tuple(xs))
                return desc(I, r) if desc(I, g) == ALL else \
                    'changes the group'
            judge(ctx, I, C, go, want, 'from-list', 'from_list(%s)' % what)

    def go():
        setup(I)
        g = building(I)
        r = method(I, g, 'from_list', AList([gid(5, 6), eid(2, 1, 'D')]))
        own = meters_of(I, g)
        return all(any(x is y for y in own) for x in meters_of(I, r)), \
            [desc(I, x) for x in meters_of(I, r)]
    judge(ctx, I, C, go, (True, [DUAL, 2]), 'from-list-same-objects',
          'the meters handed out are those of the group, in the order asked')
    # equal instance numbers in several buildings and data sets
    mixed = [(2, 1, 'D'), (2, 2, 'D'), (2, 1, 'E'), (3, 2, 'D'), (2, 2, 'D')]

    def all_of(I):
        return I.call(I.get('nilmtk.metergroup.MeterGroup'), [AList(
            meters_of(I, building(I)) + meters_of(I, building(I, 2)) +
            meters_of(I, building(I, 1, 'E')))], {})
    tell = lambda *xs: grp(*[x[0] if x[1:] == (1, 'D') else x for x in xs])

    def go():
        setup(I)
        r = method(I, all_of(I), 'from_list', AList([eid(*x)
                                                     for x in mixed]))
        return desc(I, r)
    judge(ctx, I, C, go, tell(*mixed[:4]), 'from-list', 'meters of equal '
          'instance in two buildings and two data sets')

    def go():
        setup(I)
        G = all_of(I)
        ks = [I.call(I.get('nilmtk.metergroup.MeterGroupID'), [tuple(
            eid(x, b, d) for x in (5, 6))], {})
            for b, d in ((1, 'D'), (2, 'D'), (1, 'E'), (2, 'D'))]
        return desc(I, method(I, G, 'from_list', AList(ks)))
    judge(ctx, I, C, go, grp(DUAL, grp((5, 2, 'D'), (6, 2, 'D')),
                             grp((5, 1, 'E'), (6, 1, 'E'))), 'from-list',
          'nested groups of equal instances in two buildings and data sets')

    def go():
        setup(I)
        g = [building(I), building(I, 2), building(I, 1, 'E')]
        u = method(I, method(I, g[0], 'union', g[1]), 'union', g[2])
        u = method(I, u, 'union', g[1])
        w = lst(I, I.call(I.getattr(method(I, u, 'wiring_graph'), 'edges'),
                          [], {}))
        w = sorted([tuple(desc(I, y) for y in list(I.iterate(x))[:2])
                    for x in w], key=repr)
        return len(meters_of(I, u)), w, desc(I, method(
            I, u, 'select', building=2)), len(set(
                pyval(tuple(I.getattr(x, 'identifier')))
                for x in meters_of(I, method(I, u, 'submeters'))
                if not is_group(I, x)))
    E1 = [(1, 2), (1, 3), (1, 5), (1, 6), (2, 4)]
    E2 = sorted(E1 + [((a,) + o, (b,) + o) for a, b in E1
                      for o in ((2, 'D'), (1, 'E'))], key=repr)
    judge(ctx, I, 'MeterGroup.union', go, (15, E2, grp(*[
        x + (2, 'D') for x in ((1,), (2,), (3,), (4,))] + [
            grp((5, 2, 'D'), (6, 2, 'D'))]), 9), 'union-of-buildings',
        'the union of three buildings with equal instance numbers: number '
        'of meters, wiring, selection of building 2, sub meters')
    C = 'MeterGroup.from_other_metergroup'

    def go():
        setup(I)
        pred, truth = building(I, 1, 'E'), building(I)
        r = I.call(I.getattr(I.get('nilmtk.metergroup.MeterGroup'),
                             'from_other_metergroup'),
                   [method(I, pred, 'from_list', AList([
                       eid(2, 1, 'E'), eid(3, 1, 'E')])), 'D'], {})
        return desc(I, r)
    judge(ctx, I, C, go, grp(2, 3), 'from-other-group', 'the meters of data '
          'set D for a group with meters 2 and 3 of data set E')

    def go():
        setup(I)
        pred, truth = building(I, 1, 'E'), building(I)
        r = I.call(I.getattr(I.get('nilmtk.metergroup.MeterGroup'),
                             'from_other_metergroup'), [pred, 'D'], {})
        return desc(I, r), desc(I, pred)
    E = (1, 'E')
    judge(ctx, I, C, go, (ALL, grp((1,) + E, (2,) + E, (3,) + E, (4,) + E,
                                   grp((5,) + E, (6,) + E))),
          'from-other-group', 'a whole building of data set E in D')

    def go():
        setup(I)
        truth = building(I)
        cls = I.get('nilmtk.elecmeter.ElecMeter')
        pred = I.call(I.get('nilmtk.metergroup.MeterGroup'), [AList([
            I.call(cls, [None, aval({}), eid(k, 1, 'E')], {})
            for k in (2, (5, 6))])], {})
        r = I.call(I.getattr(I.get('nilmtk.metergroup.MeterGroup'),
                             'from_other_metergroup'), [pred, 'D'], {})
        return desc(I, r)
    judge(ctx, I, C, go, grp(2, grp(5, 6)), 'from-other-group',
          'estimates for meter 2 and for meters 5 and 6 together')
    C = 'replace_dataset'
    f = ctx.anchor(I, 'nilmtk.metergroup.replace_dataset')
    for mk, want in ((lambda: eid(2, 1, 'D'), (2, 1, 'X')),
                     (lambda: eid((5, 6), 3, 'D'), ((5, 6), 3, 'X')),
                     (lambda: gid(5, 6), (((5, 1, 'X'), (6, 1, 'X')),)),
                     (lambda: 3, TE)):
        def go():
            k = mk()
            r = I.call(f, [k, 'X'], {})
            return pyval(tuple(tuple(x) if isinstance(x, tuple) else x
                               for x in r))
        judge(ctx, I, C, go, want, 'replace-dataset', '%s' % show(I, mk))
    C = 'iterate_through_submeters_of_two_metergroups'
    f = ctx.anchor(I, 'nilmtk.metergroup.' + C)

    def go():
        setup(I)
        a, b = building(I), building(I, 1, 'E')
        r = I.call(f, [a, b], {})
        return sorted([(desc(I, x), desc(I, y)) for x, y in [
            list(I.iterate(p)) for p in I.iterate(r)]], key=repr)
    E = (1, 'E')
    judge(ctx, I, C, go, sorted([
        (2, (2,) + E), (3, (3,) + E), (4, (4,) + E),
        (DUAL, grp((5,) + E, (6,) + E))], key=repr), 'pairs-by-identifier',
        'the sub meters of two data sets')


# ------------------------------------------------------------------ combining
def combining(ctx, I):
    MG = I.get('nilmtk.metergroup.MeterGroup')
    C = 'MeterGroup.union'

    def sub(I, g, *ks):
        ms = meters_of(I, g)
        return I.call(MG, [AList([m for m in ms if desc(I, m) in ks])], {})
    for a, b in itertools.product([(), (1,), (2, 3), (3, 4, DUAL),
                                   (1, 2, 3, 4, DUAL)], repeat=2):
        def go():
            setup(I)
            g = building(I)
            x, y = sub(I, g, *a), sub(I, g, *b)
            r = method(I, x, 'union', y)
            ms = meters_of(I, r)
            if desc(I, x) != grp(*a) or desc(I, y) != grp(*b):
                return 'changes an operand'
            return desc(I, r)
        judge(ctx, I, C, go, grp(*(set(a) | set(b))), 'union',
              '%s and %s' % (a, b))
    judge(ctx, I, C, lambda: (setup(I), method(
        I, building(I), 'union', AList([])))[1], 'raises TypeError', 'union',
        'union with a list')
    C = 'MeterGroup.use_alternative_mains'

    def go():
        setup(I)
        g = building(I)
        method(I, g, 'use_alternative_mains')
        one = (desc(I, g), sorted(desc(I, m) for m in meters_of(
            I, g, 'disabled_meters')), desc(I, method(I, g, 'mains')))
        method(I, g, 'use_alternative_mains')
        return one, desc(I, g), sorted(desc(I, m) for m in meters_of(
            I, g, 'disabled_meters'))
    judge(ctx, I, C, go, ((grp(7, 2, 3, 4, DUAL), [1, 8], 7), ALL, [7, 8]),
          'alternative-mains', 'mains swapped, and swapped back')

    def go():
        setup(I)
        ms = meters_md()
        del ms[7]['disabled']
        ms[9] = {'site_meter': True, 'disabled': True, 'device_model': 'dev'}
        ms[10] = {'site_meter': True, 'disabled': True,
                  'device_model': 'dev'}
        g = building(I, meters=ms)
        method(I, g, 'use_alternative_mains')
        return desc(I, g), sorted(desc(I, m) for m in meters_of(
            I, g, 'disabled_meters')), desc(I, method(I, g, 'mains'))
    judge(ctx, I, C, go, (grp(2, 3, 4, DUAL, 9, 10), [1, 7, 8],
                          grp(9, 10)), 'alternative-mains',
          'two mains swapped for two')

    def go():
        setup(I)
        ms = meters_md()
        del ms[7]
        g = building(I, meters=ms)
        try:
            method(I, g, 'use_alternative_mains')
        except AbstractRaise as e:
            return desc(I, g), 'raises ' + exc_name(e.exc)
    judge(ctx, I, C, go, (ALL, 'raises RuntimeError'), 'alternative-mains',
          'no alternative mains')


# ---------------------------------------------------------------------- parts
def parts(ctx, I):
    def over(fn, two=False, meters=None):
        def go():
            setup(I)
            g = building(I, meters=meters)
            if two:
                g = method(I, g, 'union', building(I, 2))
            return fn(g)
        return go
    ms2 = meters_md()
    del ms2[7]['disabled']
    ms0 = {k: dict(v) for k, v in meters_md().items()}
    ms0[1] = {'submeter_of': 9, 'device_model': 'dev'}
    del ms0[7]
    ap0 = [a for a in apps_md() if a['meters'] != [0]]
    for C, fn, kw, want, what in (
        ('MeterGroup.mains', lambda g: desc(I, method(I, g, 'mains')), {},
         1, 'one site meter'),
        ('MeterGroup.mains', lambda g: desc(I, method(I, g, 'mains')),
         {'meters': ms2}, grp(1, 7), 'two site meters'),
        ('MeterGroup.mains', lambda g: desc(I, method(I, g, 'mains')),
         {'two': True}, 'raises RuntimeError', 'two buildings'),
        ('MeterGroup.submeters', lambda g: desc(I, method(
            I, g, 'submeters')), {}, grp(2, 3, 4, DUAL), 'one site meter'),
        ('MeterGroup.submeters', lambda g: desc(I, method(
            I, g, 'submeters')), {'meters': ms2}, grp(2, 3, 4, DUAL),
         'two site meters'),
        ('MeterGroup.is_site_meter', lambda g: I.truth(method(
            I, g, 'is_site_meter')), {}, True, 'a building'),
        ('MeterGroup.is_site_meter', lambda g: I.truth(method(
            I, method(I, g, 'submeters'), 'is_site_meter')), {}, False,
         'sub meters'),
        ('MeterGroup.nested_metergroups', lambda g: [desc(
            I, x) for x in lst(I, method(I, g, 'nested_metergroups'))], {},
         [DUAL], 'a building'),
        ('MeterGroup.all_meters', lambda g: sorted([desc(
            I, x) for x in lst(I, method(I, g, 'all_meters'))], key=repr),
         {}, sorted([1, 2, 3, 4, DUAL, 7, 8], key=repr), 'a building'),
        ('MeterGroup.instance', lambda g: frozenset(pyval(method(
            I, g, 'instance'))), {}, frozenset([1, 2, 3, 4, (5, 6)]),
         'a building'),
        ('MeterGroup.building', lambda g: pyval(method(I, g, 'building')),
         {}, 1, 'one building'),
        ('MeterGroup.building', lambda g: frozenset(pyval(method(
            I, g, 'building'))), {'two': True}, frozenset([1, 2]),
         'two buildings'),
        ('MeterGroup.dataset', lambda g: pyval(method(I, g, 'dataset')),
         {}, 'D', 'one data set'),
        ('MeterGroup.contains_meters_from_multiple_buildings', lambda g:
         I.truth(method(I, g, 'contains_meters_from_multiple_buildings')),
         {}, False, 'one building'),
        ('MeterGroup.contains_meters_from_multiple_buildings', lambda g:
         I.truth(method(I, g, 'contains_meters_from_multiple_buildings')),
         {'two': True}, True, 'two buildings'),
        ('MeterGroup.sample_period', lambda g: method(
            I, g, 'sample_period'), {}, 60, 'periods 10 and 60'),
        ('MeterGroup.sample_period', lambda g: method(I, method(
            I, g, 'select', sample_period=10), 'sample_period'), {}, 10,
         'period 10'),
        ('MeterGroup.available_ac_types', lambda g: frozenset(pyval(method(
            I, g, 'available_ac_types', 'power'))), {},
         frozenset(['active', 'apparent']), 'power'),
        ('MeterGroup.available_ac_types', lambda g: frozenset(pyval(method(
            I, g, 'available_ac_types', aval(['power', 'energy'])))), {},
         frozenset(['active', 'apparent']), 'power and energy'),
        ('MeterGroup.available_physical_quantities', lambda g: sorted(pyval(
            method(I, g, 'available_physical_quantities'))), {}, ['power'],
         'a building'),
        ('MeterGroup.appliances', lambda g: sorted([pyval(tuple(I.getattr(
            a, 'identifier'))) for a in meters_of(I, g, 'appliances')]), {},
         [('fridge', 1), ('kettle', 1), ('kettle', 2), ('light', 1),
          ('light', 2), ('washer dryer', 1)], 'a building'),
        ('MeterGroup.dominant_appliances', lambda g: sorted([pyval(tuple(
            I.getattr(a, 'identifier'))) for a in lst(I, method(
                I, g, 'dominant_appliances'))]), {},
         [('fridge', 1), ('kettle', 1), ('light', 1), ('light', 2),
          ('washer dryer', 1)], 'a building'),
        ('MeterGroup.dominant_appliance', lambda g: pyval(tuple(I.getattr(
            method(I, I.getitem(g, 'washer dryer'), 'dominant_appliance'),
            'identifier'))), {}, ('washer dryer', 1), 'a dual supply group'),
        ('MeterGroup.dominant_appliance', lambda g: method(
            I, g, 'dominant_appliance'), {}, 'raises RuntimeError',
         'a building'),
        ('MeterGroup.identifier', lambda g: frozenset(
            pyval(_plain(x)) for x in I.getattr(I.getattr(
                g, 'identifier'), 'meters')), {}, frozenset(
                    [(1, 1, 'D'), (2, 1, 'D'), (3, 1, 'D'), (4, 1, 'D'),
                     (((5, 1, 'D'), (6, 1, 'D')),)]), 'a building'),
        ('MeterGroup.values_for_appliance_metadata_key', lambda g: sorted(
            pyval(method(I, g, 'values_for_appliance_metadata_key',
                         'room'))), {}, ['hall', 'kitchen'], 'room'),
        ('MeterGroup.values_for_appliance_metadata_key', lambda g: sorted(
            pyval(method(I, g, 'values_for_appliance_metadata_key',
                         'control'))), {},
         ['manual', 'thermostat', 'timer'], 'control'),
        ('MeterGroup.values_for_appliance_metadata_key', lambda g: sorted(
            pyval(method(I, g, 'values_for_appliance_metadata_key',
                         'instance', False))), {}, [1, 2], 'instance, all'),
    ):
        judge(ctx, I, C, over(fn, **kw), want, 'parts', what)

    def go():
        setup(I)
        g = building(I, meters=ms0, apps=ap0)
        return method(I, g, 'mains')
    judge(ctx, I, 'MeterGroup.mains', go, None, 'parts', 'no site meter')

    def go():
        setup(I)
        g = building(I)
        ms = meters_of(I, g)
        g2 = I.call(I.get('nilmtk.metergroup.MeterGroup'), [AList(
            [m for m in reversed(ms) if not is_group(I, m)])], {})
        method(I, g2, 'sort_meters')
        return [desc(I, m) for m in meters_of(I, g2)]
    judge(ctx, I, 'MeterGroup.sort_meters', go, [1, 2, 3, 4], 'parts',
          'sorted by instance')

    def go():
        setup(I)
        g = building(I)
        flat = []
        for m in meters_of(I, g):
            flat += meters_of(I, m) if is_group(I, m) else [m]
        seen = []
        cls = I.get('nilmtk.elecmeter.ElecMeter')
        I.overrides['nilmtk.elecmeter.ElecMeter.clear_cache'] = \
            lambda I, a, k: seen.append(desc(I, a[0]))
        try:
            method(I, g, 'clear_cache')
        finally:
            del I.overrides['nilmtk.elecmeter.ElecMeter.clear_cache']
        return sorted(seen)
    judge(ctx, I, 'MeterGroup.clear_cache', go, [1, 2, 3, 4, 5, 6], 'parts',
          'clears the cache of every meter')


def _plain(v):
    return tuple(_plain(x) for x in v) if isinstance(v, tuple) else v


def more(ctx, I):
    """metadata and groups which ordinary buildings do not have"""
    eid = lambda *a: ident(I, *a)
    MG = 'nilmtk.metergroup.MeterGroup'

    # `disabled: false`, and appliances copied from another building
    def go():
        setup(I)
        ms, ap = meters_md(), apps_md()
        ms[3]['disabled'] = False
        ap[0].update(building=7, dataset='Z')
        g = building(I, meters=ms, apps=ap)
        a = meters_of(I, I.getitem(g, 2), 'appliances')[0]
        md = pyval(I.getattr(a, 'metadata'))
        return desc(I, g), sorted(desc(I, x) for x in meters_of(
            I, g, 'disabled_meters')), (md['building'], md['dataset'])
    judge(ctx, I, 'MeterGroup.import_metadata', go, (ALL, [7, 8], (1, 'D')),
          'import', 'a meter with disabled: false and an appliance copied '
          'from another building')

    # buildings of two data sets in one group
    def both(fn):
        def go():
            setup(I)
            gs = [building(I), building(I, 2), building(I, 3),
                  building(I, 1, 'E')]
            g = gs[0]
            for x in gs[1:]:
                g = method(I, g, 'union', x)
            return fn(g)
        return go
    rest = [(2, 'D'), (3, 'D'), (1, 'E')]
    for C, fn, want, what in (
            ('MeterGroup.__getitem__', lambda g: desc(I, I.getitem(
                g, eid(0, 1, 'D'))), 1, 'mains of building 1 of D'),
            ('MeterGroup.__getitem__', lambda g: desc(I, I.getitem(
                g, eid(0, 1, 'E'))), (1, 1, 'E'), 'mains of building 1 of E'),
            ('MeterGroup.select', lambda g: desc(I, method(
                I, g, 'select', room='kitchen')),
             grp(2, 3, *[(i,) + x for i in (2, 3) for x in rest]),
             'meters of equal instance in one room'),
            ('MeterGroup.select_using_appliances', lambda g: desc(I, method(
                I, g, 'select_using_appliances', type='fridge')),
             grp(2, *[(2,) + x for x in rest]), 'all fridges'),
            ('MeterGroup.select', lambda g: desc(I, method(
                I, g, 'select', instance=aval([2, 3]))),
             grp(2, 3, *[(i,) + x for i in (2, 3) for x in rest]),
             'two instances of all buildings'),
            ('MeterGroup.building', lambda g: frozenset(pyval(method(
                I, g, 'building'))), frozenset([1, 2, 3]),
             'three buildings'),
            ('MeterGroup.dataset', lambda g: frozenset(pyval(method(
                I, g, 'dataset'))), frozenset('DE'), 'two data sets'),
            ('MeterGroup.submeters', lambda g: len(meters_of(I, method(
                I, g, 'submeters'))), 16, 'four buildings')):
        judge(ctx, I, C, both(fn), want, 'several-buildings', what)

    # groups of three meters
    def go():
        setup(I)
        g = building(I)
        k = I.call(I.get('nilmtk.metergroup.MeterGroupID'), [tuple(
            eid(x, 1, 'D') for x in (2, 3, 4))], {})
        return desc(I, method(I, g, 'from_list', AList([
            k, (eid(3, 1, 'D'), eid(2, 1, 'D'), eid(1, 1, 'D')),
            eid(1, 1, 'D')])))
    judge(ctx, I, 'MeterGroup.from_list', go, grp(
        grp(2, 3, 4), grp(1, 2, 3), 1), 'from-list', 'groups of three meters')

    def go():
        setup(I)
        ms, ap = meters_md(), apps_md()
        ap[5]['meters'] = [3, 5, 6]
        ap[1]['meters'] = [2]
        g = building(I, meters=ms, apps=ap)
        w = I.getitem(g, 'washer dryer')
        return desc(I, g), desc(I, w), desc(I, I.getitem(g, eid(
            (5, 6, 3), 1, 'D'))), desc(I, I.getitem(g, 3)), [
            len(meters_of(I, m, 'appliances')) for m in meters_of(I, w)]
    G3 = grp(3, 5, 6)
    judge(ctx, I, 'MeterGroup.import_metadata', go, (
        grp(1, 2, 4, G3), G3, G3, 3, [1, 1, 1]), 'import',
        'an appliance on three phases')
    # the slowest meter is one of a nested group
    def go():
        setup(I)
        ms = meters_md()
        ms[6]['device_model'] = 'slow'
        ms[3]['device_model'] = 'dev'
        return method(I, building(I, meters=ms), 'sample_period')
    judge(ctx, I, 'MeterGroup.sample_period', go, 60, 'parts',
          'the slowest meter is in a nested group')
    # what an appliance says and what its type says
    def go():
        setup(I)
        ap = apps_md()
        ap[0]['control'] = ['app', 'timer']
        ap[1]['control'] = 'voice'
        return sorted(pyval(method(I, building(I, apps=ap),
                                   'values_for_appliance_metadata_key',
                                   'control')))
    judge(ctx, I, 'MeterGroup.values_for_appliance_metadata_key', go,
          ['app', 'manual', 'thermostat', 'timer', 'voice'], 'parts',
          'control, of the appliance and of its type')


# --------------------------------------------------------------------- wiring
def wiring(ctx, I):
    C = 'MeterGroup.wiring_graph'

    def go():
        setup(I)
        g = building(I)
        w = method(I, g, 'wiring_graph')
        return sorted((desc(I, u), desc(I, v)) for u, v in w.edges)
    judge(ctx, I, C, go, [(1, 2), (1, 3), (1, 5), (1, 6), (2, 4)],
          'wiring', 'edges of the graph of a building')
    C = 'MeterGroup.meters_directly_downstream_of_mains'
    judge(ctx, I, C, lambda: (setup(I), desc(I, method(I, building(
        I), 'meters_directly_downstream_of_mains')))[1], grp(2, 3, 5, 6),
        'downstream-of-mains', 'a building')

    def go():
        setup(I)
        ms = meters_md()
        ms[9] = {'submeter_of': 10, 'device_model': 'dev'}
        ms[10] = {'site_meter': True, 'device_model': 'dev'}
        return desc(I, method(I, building(I, meters=ms),
                              'meters_directly_downstream_of_mains'))
    judge(ctx, I, C, go, 'raises RuntimeError', 'downstream-of-mains',
          'a building with two roots')
    C = 'MeterGroup.upstream_meter'
    for ks, want in (((2, 3), 1), ((5, 6), 1), ((2, 4),
                     'raises RuntimeError'), ((4,), 2)):
        def go():
            setup(I)
            g = building(I)
            s = I.call(I.get('nilmtk.metergroup.MeterGroup'), [AList(
                [I.getitem(g, k) for k in ks])], {})
            return desc(I, method(I, s, 'upstream_meter'))
        judge(ctx, I, C, go, want, 'upstream', 'the group %s' % (ks,))


# ------------------------------------------------------------------- identity
def identity(ctx, I):
    C = 'MeterGroup.__eq__'
    MG = I.get('nilmtk.metergroup.MeterGroup')
    sets = [(), (1,), (2,), (1, 2), (2, 1), (1, 2, 3), (3, 2, 1),
            (2, 3), (DUAL,), (2, DUAL), (DUAL, 2)]

    def go():
        setup(I)
        g = building(I)
        by = {desc(I, m): m for m in meters_of(I, g)}
        gs = [I.call(MG, [AList([by[k] for k in s])], {}) for s in sets]
        I.setattr(gs[4], 'name', 'others')
        I.setattr(gs[6], 'disabled_meters', AList([by[4]]))
        eq = [[I.truth(I.compare('==', x, y)) for y in gs] for x in gs]
        ne = [[I.truth(I.compare('!=', x, y)) for y in gs] for x in gs]
        h = [key_of(method(I, x, '__hash__')) for x in gs]
        return eq, ne, h, I.truth(I.compare('==', gs[0], 'x'))
    for out, v, tr in each(ctx, I, C, go):
        if out == 'raise':
            ctx.violation('equal', C, name(v), LOC)
            continue
        eq, ne, h, other = v
        for i, a in enumerate(sets):
            for j, b in enumerate(sets):
                same_ = set(a) == set(b)
                ctx.expect(eq[i][j] is same_, 'equal-by-meters', C,
                           'groups %s and %s: equal is %s' % (
                               a, b, eq[i][j]), LOC)
                ctx.expect(ne[i][j] is not same_, 'unequal-consistent',
                           'MeterGroup.__ne__', 'groups %s and %s: unequal '
                           'is %s' % (a, b, ne[i][j]), LOC)
                if same_:
                    ctx.expect(h[i] == h[j], 'hash-consistent',
                               'MeterGroup.__hash__', 'equal groups %s '
                               'and %s hash differently' % (a, b), LOC)
        ctx.expect(other is False, 'equal-by-meters', C,
                   'a group equals a string', LOC)
    # groups share nothing
    def go():
        a, b = I.call(MG, [], {}), I.call(MG, [], {})
        src = AList([])
        c = I.call(MG, [src], {})
        for x in (a, c):
            I.call(I.getattr(I.getattr(x, 'meters'), 'append'), [1], {})
            I.call(I.getattr(I.getattr(x, 'disabled_meters'), 'append'),
                   [1], {})
        return len(meters_of(I, b)), len(meters_of(
            I, b, 'disabled_meters')), len(src.items)
    judge(ctx, I, 'MeterGroup.__init__', go, (0, 0, 0), 'groups-isolated',
          'adding to one group changes another or the list given')


# --------------------------------------------------------------------- labels
def labels(ctx, I):
    C = 'MeterGroup.get_labels'
    for keys, pretty, want in (
            ([(2, 1, 'D'), (3, 1, 'D'), (4, 1, 'D')], True,
             ['Fridge', 'Kettle', 'Light']),
            ([(4, 1, 'D'), (2, 1, 'D')], True, ['Light', 'Fridge']),
            ([(2, 1, 'D'), (1, 1, 'D')], False,
             ["('fridge', 1)", 'SITE METER']),
            ([((5, 6), 1, 'D')], True, ['Washer dryer'])):
        def go():
            setup(I)
            return pyval(method(I, building(I), 'get_labels', AList(
                [ident(I, *k) for k in keys]), pretty=pretty))
        judge(ctx, I, C, go, want, 'labels', '%s, pretty=%s' % (
            keys, pretty))
    C = 'MeterGroup.label'

    def go():
        setup(I)
        g = method(I, building(I), 'select', instance=aval([2, 3]))
        a = method(I, g, 'label', pretty=True)
        c = method(I, g, 'label', pretty=False)
        I.setattr(g, 'name', 'others')
        return (sorted(a.split(', ')), sorted(c.split('), ')),
                method(I, g, 'label'),
                method(I, g, 'label', pretty=True))
    judge(ctx, I, C, go, (['Fridge', 'Kettle'], ["('fridge', 1", "('kettle', 1)"],
          'others', 'Others'),
          'labels', 'a group, and one with a name')
