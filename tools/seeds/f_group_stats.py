PRE = '''
import pandas as pd, numpy as np
import nilmtk
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.metergroup import MeterGroup
from nilmtk.timeframe import TimeFrame
T0 = pd.Timestamp('2013-01-01', tz='UTC')
def tf(a, b):
    return TimeFrame(T0 + pd.Timedelta(seconds=a), T0 + pd.Timedelta(seconds=b))
class Fake(ElecMeter):
    """answers with the rows {second: value} of one column"""
    def __init__(self, inst, col=('power', 'active'), rows={}, span=(0, 40),
                 **md):
        ElecMeter.meter_devices['d'] = {
            'sample_period': 10, 'max_sample_period': 30, 'measurements': [
                {'physical_quantity': q, 'type': t}
                for q, t in (col if isinstance(col, list) else [col])]}
        ElecMeter.__init__(self, None, dict(md, device_model='d'),
                           ElecMeterID(inst, 1, 'D'))
        self.col = col if isinstance(col, list) else [col]
        self.rows, self.span = rows, span
        ElecMeter.meter_devices['d%d' % inst] = ElecMeter.meter_devices['d']
        self.metadata['device_model'] = 'd%d' % inst
    def get_timeframe(self):
        if self.span is None:
            return tf(0, 1).intersection(tf(5, 6))
        return tf(*self.span)
    def load(self, **kw):
        idx = pd.DatetimeIndex([T0 + pd.Timedelta(seconds=s)
                                for s in sorted(self.rows)])
        df = pd.DataFrame({c: [self.rows[s] for s in sorted(self.rows)]
                           for c in self.col}, index=idx)
        df.columns = pd.MultiIndex.from_tuples(
            self.col, names=['physical_quantity', 'type'])
        for s in kw['sections']:
            out = df[(df.index >= s.start) & (df.index < s.end)]
            out.timeframe = s
            yield out
'''
SEEDS = {
'group-load-last-gap': dict(
    property='C14',
    needs='a reading missing in the meter loaded last while another meter '
          'has one',
    breaks='the sum becomes missing although a meter has a reading',
    edits=[('nilmtk/metergroup.py',
            'where_both_are_nan = np.isnan(cumulator_col) & '
            'np.isnan(aligned)',
            'where_both_are_nan = np.isnan(aligned)')],
    demo=PRE + '''
g = MeterGroup([Fake(1, rows={0: 1., 10: 2., 20: 3., 30: 4.}),
                Fake(2, rows={0: 10., 10: np.nan, 30: 40.})])
df = next(g.load())
got = list(df[('power', 'active')])
assert got == [11., 2., 3., 44.], got
'''),
'group-span-stops': dict(
    property='C14',
    needs='a meter without data in the window between meters with data',
    breaks='meters after the first empty one do not count for the time '
           'frame of the group',
    edits=[('nilmtk/metergroup.py',
            """            elif meter.get_timeframe().empty:
                pass
""",
            """            elif meter.get_timeframe().empty:
                break
""")],
    demo=PRE + '''
g = MeterGroup([Fake(1, span=(10, 20)), Fake(2, span=None),
                Fake(3, span=(0, 60))])
assert g.get_timeframe() == tf(0, 60), g.get_timeframe()
'''),
'top-k-remainder-unsorted': dict(
    property='C14',
    needs='group_remainder=True when the largest meters are not the first',
    breaks='the remainder is the meters after the first k in the group, not '
           'those which were not selected',
    edits=[('nilmtk/metergroup.py',
            'remainder_ids = list(top_k_series[k:].index)',
            'remainder_ids = list(self.identifier.meters)[k:]')],
    demo=PRE + '''
E = {1: 5., 2: 50., 3: 20., 4: 40.}
ms = [Fake(i) for i in E]
for m in ms:
    m.total_energy = lambda full_results=False, e=E[m.instance()], **k: \\
        pd.Series({'active': e})
r = MeterGroup(ms).select_top_k(k=2, group_remainder=True)
assert [m.instance() for m in r.meters[:2]] == [2, 4]
rest = sorted(m.instance() for m in r.meters[2].meters)
assert rest == [1, 3], rest
'''),
'remainder-own-type': dict(
    property='C14',
    needs='mains which record several AC types, sub meters which record one '
          'that is not the preferred',
    breaks='the remainder subtracts apparent energy from active energy',
    edits=[('nilmtk/metergroup.py',
            'mains_ac_type = most_common_ac_type',
            "mains_ac_type = kwargs['ac_type']")],
    demo=PRE + '''
mains = Fake(1, [('power', 'active'), ('power', 'apparent')])
def total(full_results=False, ac_type=None, **k):
    t = 'active' if ac_type == 'best' else ac_type
    return pd.Series({t: {'active': 80., 'apparent': 100.}[t]})
mains.total_energy = total
sub = Fake(2, ('power', 'apparent'))
sub.total_energy = lambda full_results=False, **k: pd.Series(
    {'apparent': 30.})
r = MeterGroup([sub]).energy_per_meter(mains=mains)
assert r['Remainder'] == 70., r
'''),
'submetered-twice': dict(
    property='C14',
    needs='a meter which is wired below another sub meter',
    breaks='energy measured by two meters in a row is counted twice',
    edits=[('nilmtk/metergroup.py',
            """        mains = self.mains()
        downstream_meters = self.meters_directly_downstream_of_mains()
        proportion""",
            """        mains = self.mains()
        downstream_meters = self.submeters()
        proportion""")],
    demo=PRE + '''
ms = [Fake(1, site_meter=True), Fake(2, submeter_of=1),
      Fake(3, submeter_of=2)]
g = nilmtk.global_meter_group
ds = MeterGroup(ms)
by = {m.instance(): m for m in ms}
for m, up in zip(ms, (None, 1, 2)):
    m.upstream_meter = lambda raise_warning=True, up=up: by.get(up)
    m.proportion_of_energy = lambda o, i=m.instance(), **k: {
        1: 1., 2: .5, 3: .25}[i]
p = ds.proportion_of_energy_submetered()
assert p == .5, p
'''),
}
