PRE = '''
import pandas as pd, numpy as np
from nilmtk.timeframe import TimeFrame
from nilmtk.node import Node
def frame(vals, offs=None, cols=(('power', 'active'),)):
    offs = offs if offs is not None else range(len(vals))
    idx = pd.DatetimeIndex([pd.Timestamp('2013-01-01', tz='UTC')
        + pd.Timedelta(seconds=o) for o in offs])
    df = pd.DataFrame({c: [float(v) for v in vals] for c in cols}, index=idx)
    df.columns = pd.MultiIndex.from_tuples(list(cols),
        names=['physical_quantity', 'type'])
    df.timeframe = TimeFrame(idx[0], idx[-1])
    return df
class Up(object):
    def __init__(self, meta, chunks):
        self.meta, self.chunks = meta, chunks
    def dry_run_metadata(self):
        return self.meta
    def get_metadata(self):
        return self.meta
    def process(self):
        for c in self.chunks:
            yield c
'''
SEEDS = {
'clip-limit-falsy': dict(
    property='C09',
    needs='a lower limit of 0 given to the node, other than the meter limit',
    breaks='a Clip node whose lower limit was set to 0 uses the limit of the '
           'measurement instead',
    edits=[('nilmtk/preprocessing/clip.py',
            'lower = lower if self.lower is None else self.lower',
            'lower = self.lower or lower')],
    demo=PRE + '''
from nilmtk.preprocessing import Clip
meta = {'device': {'measurements': [{'physical_quantity': 'power',
        'type': 'active', 'lower_limit': -50, 'upper_limit': 100}]}}
n = Clip(Up(meta, [frame([-20, 5, 7])]))
n.lower = 0
out = list(n.process())[0]
assert out.iloc[:, 0].min() == 0, out
'''),
'clip-first-measurement': dict(
    property='C09',
    needs='a chunk with two columns of the same physical quantity',
    breaks='the limits of the first measurement of the same physical '
           'quantity are used, whatever its AC type',
    edits=[('nilmtk/preprocessing/clip.py',
            "if ((m.get('physical_quantity'), m.get('type')) == measurement):",
            "if (m.get('physical_quantity') == measurement[0] and\n"
            "                m.get('type', measurement[1])[0] == "
            "measurement[1][0]):")],
    demo=PRE + '''
from nilmtk.preprocessing import Clip
ms = [{'physical_quantity': 'power', 'type': t, 'lower_limit': 0,
       'upper_limit': u} for t, u in [('active', 10), ('apparent', 500)]]
cols = (('power', 'active'), ('power', 'apparent'))
df = frame([1, 20, 300], cols=cols)
out = list(Clip(Up({'device': {'measurements': ms}}, [df])).process())[0]
assert list(out[('power', 'apparent')]) == [1, 20, 300], out
'''),
'node-shared-postconditions': dict(
    property='C09',
    needs='two pipelines validated one after the other in one process',
    breaks='what one dry run learnt about its upstream leaks into the '
           'postconditions of the class',
    edits=[('nilmtk/node.py',
            'state = deepcopy(self.__class__.postconditions)',
            'state = dict(self.__class__.postconditions)')],
    demo=PRE + '''
from nilmtk.preprocessing import Clip
a = Up({'preprocessing_applied': {'fill': 1}, 'device': {}}, [])
b = Up({'device': {}}, [])
Clip(a).dry_run_metadata()
s = Clip(b).dry_run_metadata()
assert 'fill' not in s['preprocessing_applied'], s
'''),
'requirement-falsy': dict(
    property='C09',
    needs='an upstream whose metadata has an empty or zero value',
    breaks='a requirement with a particular value is taken as met when the '
           'state holds an empty value',
    edits=[('nilmtk/node.py',
            "elif value != 'ANY VALUE' and cond_value != value:",
            "elif (value != 'ANY VALUE' and cond_value and\n"
            "                      cond_value != value):")],
    demo=PRE + '''
from nilmtk.node import find_unsatisfied_requirements as f
assert f({'gaps': 0}, {'gaps': 3})
assert not f({'gaps': 3}, {'gaps': 3})
'''),
'energy-gap-zeroed': dict(
    property='C10',
    needs='power readings with a gap longer than max_sample_period',
    breaks='a gap counts for nothing instead of max_sample_period seconds',
    edits=[('nilmtk/stats/totalenergy.py',
            'timedelta_secs = timedelta_secs.clip(max=max_sample_period)',
            'timedelta_secs = np.where(timedelta_secs > max_sample_period, 0,'
            ' timedelta_secs)')],
    demo=PRE + '''
from nilmtk.stats.totalenergy import get_total_energy
e = get_total_energy(frame([3600, 3600, 3600], [0, 1, 1000]), 10)
assert abs(e['active'] - 3600 * 11 / 3.6e6) < 1e-9, e
'''),
'energy-cumulative-sum': dict(
    property='C10',
    needs='a meter with both a cumulative energy and an energy column',
    breaks='the energy column is preferred over the cumulative one',
    edits=[('nilmtk/stats/totalenergy.py',
            '["cumulative energy", "energy", "power"]',
            '["energy", "cumulative energy", "power"]')],
    demo=PRE + '''
from nilmtk.stats.totalenergy import get_total_energy
df = frame([1, 2, 4], cols=(('energy', 'active'),
                            ('cumulative energy', 'active')))
assert get_total_energy(df, 10)['active'] == 3
'''),
'dropout-span': dict(
    property='C10',
    needs='sample periods which do not divide the duration',
    breaks='the expected number of samples is rounded down',
    edits=[('nilmtk/stats/dropoutrate.py',
            'round(duration.total_seconds() / sample_period) + 1',
            'int(duration.total_seconds() // sample_period) + 1')],
    demo=PRE + '''
from nilmtk.stats.dropoutrate import get_dropout_rate
r = get_dropout_rate(frame([1] * 6, [0, 10, 20, 30, 40, 78]), 10)
assert abs(r - (1 - 6 / 9.)) < 1e-9, r
'''),
'good-sections-boundary-gap': dict(
    property='C10',
    needs='a look-ahead reading exactly max_sample_period after a good run',
    breaks='a good section is closed at the end of a chunk although the next '
           'reading is exactly max_sample_period away',
    edits=[('nilmtk/stats/goodsections.py',
            'if not look_ahead_valid or look_ahead_gap > max_sample_period:',
            'if not look_ahead_valid or look_ahead_gap >= max_sample_period:')],
    demo=PRE + '''
from nilmtk.stats.goodsections import get_good_sections
s = get_good_sections(frame([1, 1, 1], [0, 10, 20]), 10,
                      frame([1, 1], [30, 40]))
assert len(s) == 1 and s[0].end is None, s
'''),
'good-sections-stale-open': dict(
    property='C10',
    needs='a chunk with a single reading, or none which is not missing, '
          'after an open-ended chunk',
    breaks='the last reading of a chunk whose final gap is bad never starts '
           'a good section when the previous chunk was open-ended',
    edits=[('nilmtk/stats/goodsections.py',
            'elif look_ahead_valid and look_ahead_gap <= max_sample_period:',
            'elif (look_ahead_valid and look_ahead_gap <= max_sample_period\n'
            '          and not '
            'previous_chunk_ended_with_open_ended_good_section):')],
    demo=PRE + '''
from nilmtk.stats.goodsections import get_good_sections
s = get_good_sections(frame([1, 1, 1], [0, 10, 200]), 10,
                      frame([1, 1], [210, 220]), True)
assert len(s) == 2 and s[1].start is not None and s[1].end is None, s
'''),
'results-overlap-last-only': dict(
    property='C11',
    needs='a result appended out of order over an earlier one',
    breaks='only the last row is checked for overlap',
    edits=[('nilmtk/results.py',
            '''        for index, series in self._data.iterrows():
            tf = TimeFrame(index, series['end'])
            tf.check_for_overlap(timeframe)

        row''', '''        for index, series in self._data.iloc[-1:].iterrows():
            tf = TimeFrame(index, series['end'])
            tf.check_for_overlap(timeframe)

        row''')],
    demo=PRE + '''
from nilmtk.stats.totalenergyresults import TotalEnergyResults
T = lambda s: pd.Timestamp('2013-01-01', tz='UTC') + pd.Timedelta(seconds=s)
r = TotalEnergyResults()
r.append(TimeFrame(T(0), T(10)), {'active': 1})
r.append(TimeFrame(T(20), T(30)), {'active': 1})
try:
    r.append(TimeFrame(T(5), T(8)), {'active': 1})
except ValueError:
    pass
else:
    raise AssertionError('overlap accepted')
'''),
'cache-start-only': dict(
    property='C11',
    needs='a cached section with the same start and another end',
    breaks='a cached row is reused for any section with the same start that '
           'ends no later',
    edits=[('nilmtk/results.py',
            "if row['end'] == section.end:",
            "if row['end'] >= section.end:")],
    demo=PRE + '''
from nilmtk.stats.totalenergyresults import TotalEnergyResults
T = lambda s: pd.Timestamp('2013-01-01', tz='UTC') + pd.Timedelta(seconds=s)
c = pd.DataFrame({'end': [T(100).tz_convert(None)], 'active': [7.]},
                 index=pd.DatetimeIndex([T(0)]))
r = TotalEnergyResults()
r.import_from_cache(c, [TimeFrame(T(0), T(10))])
assert len(r._data) == 0, r._data
'''),
'cache-key-meter': dict(
    property='C11',
    needs='a group of meters whose identifiers concatenate alike',
    breaks='the cache of meters (1, 12) and (11, 2) is shared',
    edits=[('nilmtk/elecmeter.py',
            'meter_str = "_".join([str(i) for i in (self.instance())])',
            'meter_str = "".join([str(i) for i in (self.instance())])')],
    demo=PRE + '''
from nilmtk.elecmeter import ElecMeter
class M(ElecMeter):
    def __init__(self, inst):
        self.inst = inst
    def instance(self):
        return self.inst
    def building(self):
        return 1
a = M((1, 12)).key_for_cached_stat('total_energy')
b = M((11, 2)).key_for_cached_stat('total_energy')
assert a != b, (a, b)
'''),
'results-update-unsorted': dict(
    property='C11',
    needs='good sections of a later period computed before those of an '
          'earlier one, which are then merged in',
    breaks='results merged from another object stay in the order of merging',
    edits=[('nilmtk/results.py',
            '''new_result._data], sort=False)
        self._data.sort_index(inplace=True)
''', '''new_result._data], sort=False)
        self._data.sort_index()
''')],
    demo=PRE + '''
from nilmtk.stats.goodsectionsresults import GoodSectionsResults
T = lambda s: pd.Timestamp('2013-01-01', tz='UTC') + pd.Timedelta(seconds=s)
a, b = GoodSectionsResults(10), GoodSectionsResults(10)
a.append(TimeFrame(T(100), T(200)), {'sections': [[TimeFrame(None, T(150))]]})
b.append(TimeFrame(T(0), T(100)), {'sections': [[TimeFrame(T(0), None)]]})
a.update(b)
c = a.combined()
assert len(c) == 1 and c[0].end == T(150) and c[0].start == T(0), c
'''),
'dropout-unweighted': dict(
    property='C11',
    needs='chunks with different numbers of samples',
    breaks='the dropout rates of the chunks are averaged with equal weights',
    edits=[('nilmtk/stats/dropoutrateresults.py',
            "proportion = self._data['n_samples'] / tot_samples",
            "proportion = (self._data['n_samples'] > 0) / "
            "float(len(self._data))")],
    demo=PRE + '''
from nilmtk.stats.dropoutrateresults import DropoutRateResults
T = lambda s: pd.Timestamp('2013-01-01', tz='UTC') + pd.Timedelta(seconds=s)
r = DropoutRateResults()
r.append(TimeFrame(T(0), T(10)), {'dropout_rate': 0.5, 'n_samples': 10})
r.append(TimeFrame(T(10), T(50)), {'dropout_rate': 0.1, 'n_samples': 30})
assert abs(r.combined() - 0.2) < 1e-9, r.combined()
'''),
}
