PRE = '''
import pandas as pd, numpy as np
import nilmtk
from nilmtk import electric
from nilmtk.electric import Electric
from nilmtk.appliance import Appliance
from nilmtk.timeframe import TimeFrame
from nilmtk.timeframegroup import TimeFrameGroup
T0 = pd.Timestamp('2013-01-01', tz='UTC')
def at(*secs):
    return pd.DatetimeIndex([T0 + pd.Timedelta(seconds=s) for s in secs])
def frame(secs, *cols):
    """cols: (ac type, values)"""
    df = pd.DataFrame({('power', t): [float(x) for x in v]
                       for t, v in cols}, index=at(*secs))
    df.columns = pd.MultiIndex.from_tuples(
        [('power', t) for t, v in cols], names=['physical_quantity', 'type'])
    return df
class Fake(Electric):
    def __init__(self, chunks=(), energy=None, period=10, apps=(), good=()):
        self.chunks, self.energy, self.period = chunks, energy, period
        self.appliances = [Appliance(a) for a in apps]
        self.good = good
        self.asked = []
    def load(self, **kw):
        self.asked.append(kw)
        for c in self.chunks:
            yield c
    def sample_period(self):
        return self.period
    def good_sections(self, **kw):
        return TimeFrameGroup([TimeFrame(T0 + pd.Timedelta(seconds=a),
                                         T0 + pd.Timedelta(seconds=b))
                               for a, b in self.good])
    def total_energy(self, **kw):
        self.asked.append(kw)
        return pd.Series(self.energy)
'''
EL = 'nilmtk/electric.py'
SEEDS = {
'all-data-repeats': dict(
    property='C15',
    needs='two consecutive chunks which share the reading at their border',
    breaks='the reading at the border is in the series twice',
    edits=[(EL, 'if chunk.index[0] <= prev_end:',
            'if chunk.index[0] < prev_end:')],
    demo=PRE + '''
m = Fake([frame([0, 10], ('active', [1, 2])),
          frame([10, 20], ('active', [2, 3]))])
s = m.power_series_all_data()
assert list(s) == [1, 2, 3], s
'''),
'off-gap-equal': dict(
    property='C15',
    needs='an off period exactly as long as min_off_duration',
    breaks='two activations are merged although the appliance was off for '
           'min_off_duration',
    edits=[(EL, 'off_durations >= min_off_duration)[0]',
            'off_durations > min_off_duration)[0]')],
    demo=PRE + '''
s = pd.Series([0, 100, 0, 0, 100, 0.], index=at(0, 10, 20, 30, 40, 50))
got = electric.get_activations(s, min_off_duration=20, border=0)
assert len(got) == 2, got
got = electric.get_activations(s, min_off_duration=21, border=0)
assert len(got) == 1, got
'''),
'on-duration-rows': dict(
    property='C15',
    needs='an activation with irregular time stamps, shorter than '
          'min_on_duration although it has many rows',
    breaks='the duration is counted in rows of the first interval, so '
           'activations of irregular data are kept or dropped wrongly',
    edits=[(EL, 'duration = (chunk.index[off] - chunk.index[on])'
            '.total_seconds()',
            'duration = (off - on) * (chunk.index[1] - chunk.index[0])'
            '.total_seconds()')],
    demo=PRE + '''
s = pd.Series([0, 100, 100, 100, 0.], index=at(0, 10, 11, 12, 13))
assert electric.get_activations(s, min_on_duration=5) == []
s = pd.Series([0, 100, 100, 100, 0.], index=at(0, 10, 20, 30, 40))
assert len(electric.get_activations(s, min_on_duration=5)) == 1
'''),
'activation-defaults': dict(
    property='C15',
    needs='an explicit min_on_duration of 0 for an appliance type with a '
          'default',
    breaks='the default of the metadata overrules the 0 asked for',
    edits=[(EL, """        if min_on_duration is None:
            min_on""", """        if not min_on_duration:
            min_on""")],
    demo=PRE + '''
Appliance.appliance_types = {'x': {'min_on_duration': 1000,
                                   'categories': {}}}
m = Fake([frame([0, 10, 20, 30], ('active', [0, 100, 0, 0]))],
         apps=[{'type': 'x', 'instance': 1}])
assert len(m.get_activations(min_on_duration=0)) == 1
assert len(m.get_activations()) == 0
'''),
'switch-off-unseen': dict(
    property='C15',
    needs='a fall of the power of more than the threshold',
    breaks='only rises count as switches',
    edits=[(EL, 'delta_power_absolute = delta_power.abs()',
            'delta_power_absolute = delta_power.clip(lower=0)')],
    demo=PRE + '''
m = Fake([frame([0, 10, 20], ('active', [0, 100, 0]))])
assert len(m.switch_times()) == 2, m.switch_times()
'''),
'histogram-first-day': dict(
    property='C15',
    needs='a chunk which starts in the middle of a period',
    breaks='activity is counted in the wrong bin: bins count from the first '
           'reading, not from midnight',
    edits=[(EL, """            start = resampled_to_period[0]
            end = resampled_to_period[-1] + 1 * resampled_to_period.freq
""", """            start = on_chunk.index[0]
            end = start + (resampled_to_period[-1] - resampled_to_period[0]
                           + 1 * resampled_to_period.freq)
""")],
    demo=PRE + '''
import warnings; warnings.simplefilter('ignore')
H = 3600
m = Fake([frame([5*H, 6*H, 7*H, 8*H, 9*H, 10*H],
                ('active', [100, 0, 100, 0, 0, 0]))])
h = m.activity_histogram()
assert list(np.nonzero(h)[0]) == [5, 7], h
'''),
'histogram-min-threshold': dict(
    property='C15',
    needs='a meter which feeds two appliances with different thresholds',
    breaks='the threshold of the meter is that of the last appliance',
    edits=[(EL, """        on_power_thresholds = [a.on_power_threshold() for a in self.appliances]
        return min(on_power_thresholds)
""", """        for a in self.appliances:
            on_power_threshold = a.on_power_threshold()
        return on_power_threshold
""")],
    demo=PRE + '''
a = [{'type': 'kettle', 'instance': 1, 'on_power_threshold': 5},
     {'type': 'kettle', 'instance': 2, 'on_power_threshold': 500}]
assert Fake(apps=a).on_power_threshold() == 5
assert Fake(apps=a[::-1]).on_power_threshold() == 5
'''),
'align-all-at-once': dict(
    property='C15',
    needs='a good section of the master in which the slave has no data, '
          'followed by one in which it has',
    breaks='the sections after the first one without slave data are lost',
    edits=[(EL, """        if slave_chunk.empty:
            continue
""", """        if slave_chunk.empty:
            break
""")],
    demo=PRE + '''
import warnings; warnings.simplefilter('ignore')
class Slave(Fake):
    def load(self, **kw):
        s = kw['sections'][0]
        df = frame([100, 110, 120], ('active', [7, 8, 9]))
        yield df[(df.index >= s.start) & (df.index <= s.end)]
m = Fake([frame([0, 10, 20], ('active', [1, 2, 3])),
          frame([100, 110, 120], ('active', [4, 5, 6]))])
got = list(electric.align_two_meters(m, Slave()))
assert len(got) == 1 and list(got[0]['master']) == [4, 5, 6], got
'''),
'share-of-sums': dict(
    property='C17',
    needs='two meters which share two AC types in different proportions',
    breaks='the share is that of the sums over AC types instead of the mean '
           'of the shares',
    edits=[(EL, """            return (total_energy[shared_ac_types] / 
                    other_total_energy[shared_ac_types]).mean()
""", """            return (total_energy[shared_ac_types].sum() /
                    other_total_energy[shared_ac_types].sum())
""")],
    demo=PRE + '''
a = Fake(energy={'active': 1., 'reactive': 1.})
b = Fake(energy={'active': 10., 'reactive': 2.})
got = a.proportion_of_energy(b)
assert abs(got - 0.3) < 1e-9, got
'''),
'share-sections-forced': dict(
    property='C17',
    needs='proportion_of_energy called with sections',
    breaks='the sections asked for are replaced by the good sections of the '
           'other meter',
    edits=[(EL, "loader_kwargs.setdefault('sections', good_other_sections)",
            "loader_kwargs['sections'] = good_other_sections")],
    demo=PRE + '''
a = Fake(energy={'active': 1.}); b = Fake(energy={'active': 4.})
S = TimeFrameGroup([TimeFrame(T0, T0 + pd.Timedelta(seconds=5))])
assert a.proportion_of_energy(b, sections=S) == 0.25
assert a.asked[0]['sections'] is S, a.asked
a.asked = []
assert a.proportion_of_energy(b) == 0.25
'''),
'uptime-without-days': dict(
    property='C17',
    needs='an uptime of a day or more',
    breaks='whole days of uptime are not counted',
    edits=[(EL, 'uptime_secs = td.total_seconds()',
            'uptime_secs = float(td.seconds) or td.total_seconds()')],
    demo=PRE + '''
m = Fake(energy={'active': 8.}, good=[(0, 86400), (90000, 90000 + 43200)])
got = m.average_energy_per_period()
assert abs(got['active'] - 8 / 1.5) < 1e-9, got
'''),
'correlation-one-deviation': dict(
    property='C17',
    needs='readings in more than one chunk',
    breaks='the deviation of the meters only counts the last chunk',
    edits=[(EL, 's_square_sum += ((power - mean)',
            's_square_sum = ((power - mean)')],
    demo=PRE + '''
x, y = [1, 2, 4, 9, 3], [3, 1, 7, 5, 5]
def chunks(v):
    return [frame([0, 10, 20], ('active', v[:3])),
            frame([30, 40], ('active', v[3:]))]
got = Fake(chunks(x)).correlation(Fake(chunks(y)))
assert abs(got - np.corrcoef(x, y)[0, 1]) < 1e-9, got
'''),
'histogram-new-range': dict(
    property='C17',
    needs='a second chunk with readings outside the range of the first',
    breaks='each chunk is counted over its own range',
    edits=[('nilmtk/stats/histogram.py', """        if range is None:
            range = (chunk.min(), chunk.max())
        else:""", """        if range is None:
            hist, edges = np.histogram(chunk, bins=bins or int(
                chunk.max() - chunk.min()), **kwargs)
            if histogram_cumulator is None:
                histogram_cumulator, bins = hist, len(hist)
            else:
                histogram_cumulator += hist
            if bins == len(hist):
                first_edges = edges
            continue
        else:""",), ('nilmtk/stats/histogram.py',
                     '    return histogram_cumulator, bins',
                     '    return histogram_cumulator, (first_edges if range '
                     'is None else bins)')],
    demo=PRE + '''
from nilmtk.stats.histogram import histogram_from_generator as h
a, b = pd.Series([0., 2, 2, 8]), pd.Series([1., 20, 3])
hist, bins = h(iter([a, b]))
want, edges = np.histogram([0, 2, 2, 8, 1, 20, 3], bins=8, range=(0, 8))
assert list(hist) == list(want) and list(bins) == list(edges), (hist, bins)
hist, bins = h(iter([a, b]), range=(0, 20), bins=5)
assert list(hist) == list(np.histogram([0, 2, 2, 8, 1, 20, 3], bins=5,
                                       range=(0, 20))[0])
'''),
'upstream-own-sections': dict(
    property='C17',
    needs='a meter whose energy outside the good sections of the upstream '
          'meter differs',
    breaks='the energy of the meter is that of all its data',
    edits=[(EL, 'proportion_of_energy = (self.total_energy('
            'sections=upstream_good_sects) /',
            'proportion_of_energy = (self.total_energy(**load_kwargs) /')],
    demo=PRE + '''
m = Fake(energy={'active': 1.}); u = Fake(energy={'active': 4.},
                                         good=[(0, 50)])
m.upstream_meter = lambda: u
assert m.proportion_of_upstream() == 0.25
assert m.asked[-1]['sections'] == u.good_sections(), m.asked
'''),
}
