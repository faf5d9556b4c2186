PRE = '''
import pandas as pd, numpy as np
import nilmtk
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.timeframe import TimeFrame
def dev(cols, **kw):
    d = {'sample_period': 10, 'max_sample_period': 25, 'measurements': [
        dict({'physical_quantity': q}, **({'type': t} if t else {}))
        for q, t in cols]}
    d.update(kw)
    return d
class Store(object):
    def __init__(self, n=20):
        self.n, self.seen = n, []
    def load(self, key, columns=None, **kw):
        self.seen.append((key, columns, kw))
        idx = pd.date_range('2013-01-01', periods=self.n, freq='10s',
                            tz='UTC')
        df = pd.DataFrame(1.0, index=idx, columns=pd.MultiIndex.from_tuples(
            columns, names=['physical_quantity', 'type']))
        df.timeframe = TimeFrame(idx[0], idx[-1])
        yield df
    def get_timeframe(self, key):
        return TimeFrame('2013-01-01', '2013-01-02')
def meter(cols, inst=1, meta={}, **kw):
    ElecMeter.meter_devices['d'] = dev(cols, **kw)
    md = {'device_model': 'd', 'data_location': '/building1/elec/meter1'}
    md.update(meta)
    return ElecMeter(Store(), md, ElecMeterID(inst, 1, 'D'))
ALL = [('power', 'active'), ('power', 'reactive'), ('energy', 'apparent'),
       ('voltage', '')]
'''
SEEDS = {
'best-over-all': dict(
    property='C12',
    needs='"best" for several quantities recorded with different AC types',
    breaks='the best AC type is chosen once for all quantities together',
    edits=[('nilmtk/elecmeter.py',
            '''                if best:
                    columns.update(best)
''', '''                kinds = {c[1] for c in columns} or {c[1] for c in best}
                columns.update(c for c in best if c[1] in kinds)
''')],
    demo=PRE + '''
m = meter(ALL)
c = next(m.load(physical_quantity=['power', 'energy'], ac_type='best'))
assert sorted(c.columns) == [('energy', 'apparent'), ('power', 'active')], c
'''),
'mains-preference': dict(
    property='C12',
    needs='mains whose AC types are listed in another order than preferred',
    breaks='the order in which the mains lists its AC types decides',
    edits=[('nilmtk/measurement.py',
            '''[ac_type for ac_type in AC_TYPES
                               if ac_type in mains_ac_types]''',
            '''[ac_type for ac_type in mains_ac_types
                               if ac_type in AC_TYPES]''')],
    demo='''
from nilmtk.measurement import select_best_ac_type as f
assert f(['reactive', 'active'], ['reactive', 'active']) == 'active'
'''),
'quantity-missing-ignored': dict(
    property='C12',
    needs='a quantity the meter does not record together with an AC type',
    breaks='a physical quantity which is not recorded is ignored when an AC '
           'type is given',
    edits=[('nilmtk/elecmeter.py',
            '''                if columns:
                    columns = list(set(columns)''',
            '''                if columns and not cols_matching_pq:
                    msg = msg.replace("Physical quantity", "") and ""
                elif columns:
                    columns = list(set(columns)''')],
    demo=PRE + '''
m = meter(ALL[:2])
try:
    next(m.load(physical_quantity='energy', ac_type='active'))
except nilmtk.exceptions.MeasurementError:
    pass
else:
    raise AssertionError
'''),
'fill-limit-floor': dict(
    property='C12',
    needs='a sample period that does not divide max_sample_period',
    breaks='gaps just short of max_sample_period are not filled',
    edits=[('nilmtk/elecmeter.py',
            "np.ceil(self.device['max_sample_period'] / sample_period))",
            "np.floor(self.device['max_sample_period'] / sample_period) or 1)"
            )],
    demo=PRE + '''
m = meter(ALL[:1])
kw = {}
import nilmtk.electric as e
orig = e.safe_resample
def spy(df, **k):
    kw.update(k)
    return orig(df, **k)
e.safe_resample = spy
next(m.load(sample_period=10))
assert kw['limit'] == 3, kw
'''),
'preprocessing-upstream': dict(
    property='C12',
    needs='two or more preprocessing steps',
    breaks='every step but the last is left out',
    edits=[('nilmtk/elecmeter.py',
            '''            node.upstream = last_node
            last_node = node
''', '''            node.upstream = last_node
            last_node = node if node is preprocessing[0] else last_node
''')],
    demo=PRE + '''
from nilmtk.preprocessing import Apply
m = meter(ALL[:1])
def app(f):
    return Apply(func=f)
c = next(m.load(preprocessing=[app(lambda d: d + 1), app(lambda d: d * 3),
                               app(lambda d: d - 2)]))
assert (c.values == 4).all(), c
'''),
'upstream-building': dict(
    property='C12',
    needs='two data sets whose buildings have the same numbers',
    breaks='the upstream meter is looked up by the mains of building 1',
    edits=[('nilmtk/elecmeter.py',
            '''        id_of_upstream = ElecMeterID(instance=submeter_of,
                                     building=self.identifier.building,''',
            '''        id_of_upstream = ElecMeterID(instance=submeter_of,
                                     building=self.metadata.get(
                                         'upstream_meter_in_building') or 1,'''
            )],
    demo=PRE + '''
a = ElecMeter(metadata={'site_meter': True}, meter_id=ElecMeterID(1, 1, 'D'))
b = ElecMeter(metadata={'site_meter': True}, meter_id=ElecMeterID(1, 2, 'D'))
c = ElecMeter(metadata={'submeter_of': 1}, meter_id=ElecMeterID(2, 2, 'D'))
assert c.upstream_meter() is b
'''),
'matches-last': dict(
    property='C12',
    needs='a key with a list-valued device entry after a failing entry',
    breaks='a device entry that agrees overrules one that did not',
    edits=[('nilmtk/elecmeter.py',
            '''                    if v not in metadata_value:
                        match = False''',
            '''                    match = v in metadata_value''')],
    demo=PRE + '''
m = meter(ALL[:1], tags=['x', 'y'])
assert not m.matches({'building': 2, 'tags': 'x'})
'''),
'device-shallow': dict(
    property='C12',
    needs='code that edits the measurements it got from a meter',
    breaks='the measurements of the device are shared between all meters',
    edits=[('nilmtk/elecmeter.py',
            'return deepcopy(ElecMeter.meter_devices[device_model])',
            'return dict(ElecMeter.meter_devices[device_model])')],
    demo=PRE + '''
m = meter(ALL)
n = ElecMeter(Store(), dict(m.metadata), ElecMeterID(7, 1, 'D'))
m.device['measurements'].pop()
assert len(n.available_columns()) == 4
'''),
}
