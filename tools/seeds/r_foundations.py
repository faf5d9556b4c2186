PRE = '''
import os, tempfile, shutil, warnings
warnings.simplefilter('ignore')
import numpy as np
import pandas as pd
from nilmtk.timeframe import TimeFrame, merge_timeframes
from nilmtk.timeframegroup import TimeFrameGroup
'''
TF = 'nilmtk/timeframe.py'
CSV = 'nilmtk/datastore/csvdatastore.py'


def S(prop, needs, breaks, edits, demo):
    return dict(property=prop, needs=needs, breaks=breaks, edits=edits,
                demo=PRE + demo)


SEEDS = {
'group-intersection-sorted': S(
    'C01', 'a group whose frames are not in time order',
    'the frames of the other group after the first later one are left out',
    [('nilmtk/timeframegroup.py', '''            for other_timeframe in other:
                intersect''', '''            for other_timeframe in other:
                if (self_timeframe.end is not None and
                        other_timeframe.start is not None and
                        other_timeframe.start >= self_timeframe.end):
                    break
                intersect''')], '''
T = lambda a, b: TimeFrame('2013-01-%02d' % a, '2013-01-%02d' % b)
g = TimeFrameGroup([T(1, 5)]).intersection(TimeFrameGroup([T(7, 9), T(2, 3)]))
assert list(g) == [T(2, 3)], g
'''),
'hash-hidden-bounds': S(
    'C02', 'a disabled frame as key of a dict',
    'equal frames have different hashes',
    [(TF, 'return hash((self.start, self.end, self.empty))',
      'return hash((self._start, self._end, self._empty))')], '''
a = TimeFrame('2013-01-01', '2013-01-02')
a.enabled = False
assert a == TimeFrame() and hash(a) == hash(TimeFrame())
'''),
'gap-whole-seconds': S(
    'C03', 'frames less than a second apart, and a gap of part of a second',
    'the allowed gap counts whole seconds only',
    [(TF, 'gap_td = timedelta(seconds=gap)',
      'gap_td = timedelta(seconds=int(gap))')], '''
a = TimeFrame('2013-01-01 00:00:00', '2013-01-01 00:00:10')
b = TimeFrame('2013-01-01 00:00:10.4', '2013-01-01 00:00:20')
assert len(merge_timeframes([a, b], gap=0.5)) == 1
'''),
'long-frames-shorter': S(
    'C03', 'frames longer than a day',
    'whole days of a frame do not count for its length',
    [('nilmtk/timeframegroup.py',
      'if timeframe.timedelta.total_seconds() >= threshold:',
      'if timeframe.timedelta.seconds >= threshold:')], '''
g = TimeFrameGroup([TimeFrame('2013-01-01', '2013-01-03 00:01'),
                    TimeFrame('2013-01-04', '2013-01-04 00:01')])
assert len(g.remove_shorter_than(3600)) == 1
'''),
'csv-header-once-a-folder': S(
    'C06', 'the first append to the second meter of a building',
    'the file gets no header, so it cannot be read back',
    [(CSV, '''        if not exists(path):
            makedirs(path)
        value.to_csv(file_path,
                     mode='a',
                     header=not isfile(file_path))
''', '''        header = not exists(path)
        if header:
            makedirs(path)
        value.to_csv(file_path,
                     mode='a',
                     header=header)
''')], '''
from nilmtk.datastore import CSVDataStore
d = tempfile.mkdtemp()
try:
    s = CSVDataStore(d)
    f = pd.DataFrame({('power', 'active'): [1., 2., 3.]},
                     index=pd.date_range('2013', periods=3, freq='s'))
    f.columns.names = ['physical_quantity', 'type']
    for m in (1, 2):
        s.append('/building1/elec/meter%d' % m, f)
    for m in (1, 2):
        assert s['/building1/elec/meter%d' % m].shape == (3, 1)
finally:
    shutil.rmtree(d)
'''),
'tmp-store-removed-open': S(
    'C07', 'looking at the store at the moment its file is removed',
    'the file of a temporary store is removed while it is open',
    [('nilmtk/datastore/tmpdatastore.py', '''        self.store.close()
        try:
            os.remove(self.full_path)
        except FileNotFoundError:
            pass
''', '''        try:
            os.remove(self.full_path)
        except FileNotFoundError:
            pass
        finally:
            self.store.close()
''')], '''
import nilmtk.datastore.tmpdatastore as m
s = m.TmpDataStore()
p, seen = s.full_path, []
real = os.remove
def remove(x):
    seen.append(s.store.is_open)
    real(x)
os.remove = remove
s.close()
os.remove = real
assert seen == [False], seen
assert not os.path.exists(p)
'''),
'period-end-missing': S(
    'C03', 'a group of calendar periods with a period in the middle of a gap',
    'periods which are not next to the one before are merged with it',
    [('nilmtk/timeframegroup.py', '''            timeframes = [TimeFrame(period.start_time, period.end_time)
                          for period in periods]
''', '''            starts = [period.start_time for period in periods]
            ends = starts[1:] + [period.end_time for period in periods[-1:]]
            timeframes = [TimeFrame(start, end)
                          for start, end in zip(starts, ends)]
''')], '''
g = TimeFrameGroup(pd.PeriodIndex(['2013-01', '2013-03'], freq='M'))
assert [t.timedelta.days for t in g] in ([30, 30], [31, 31]), g
'''),
'window-end-look-ahead': S(
    'C05', 'look-ahead rows asked for with a window that ends before them',
    'the look-ahead of a CSV store holds readings of the chunk again after '
    'the first chunk',
    [(CSV, 'file_path, chunk_idx*chunksize + subchunk_end + 1,',
      'file_path, n_chunks*chunksize + subchunk_end + 1,')], '''
from nilmtk.datastore import CSVDataStore
d = tempfile.mkdtemp()
try:
    s = CSVDataStore(d)
    i = pd.date_range('2013', periods=9, freq='s')
    f = pd.DataFrame({('power', 'active'): np.arange(9.)}, index=i)
    f.columns.names = ['physical_quantity', 'type']
    K = '/building1/elec/meter1'
    s.put(K, f)
    c = list(s.load(K, sections=[TimeFrame(i[4], i[8])], chunksize=3,
                    n_look_ahead_rows=2))
    assert [x.look_ahead.values.ravel().tolist() for x in c] == [
        [6, 7], [8]], [x.look_ahead for x in c]
finally:
    shutil.rmtree(d)
'''),
}
