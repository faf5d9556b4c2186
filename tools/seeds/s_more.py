import os
import runpy
HERE = os.path.dirname(os.path.abspath(__file__))
LEG = runpy.run_path(os.path.join(HERE, 'm_legacy.py'))['PRE']
CNV = runpy.run_path(os.path.join(HERE, 'n_converters.py'))['PRE']
L = 'nilmtk/legacy/disaggregate/'
D = 'nilmtk/dataset_converters/'


def S(prop, pre, needs, breaks, edits, demo):
    return dict(property=prop, needs=needs, breaks=breaks, edits=edits,
                demo=pre + demo)


SEEDS = {
 'co-states-without-off': S(
  'C22', LEG, 'the number of states of a meter given by the user',
  'CO clusters one state more than asked for',
  [(L + 'combinatorial_optimisation.py',
    'num_on_states = num_total_states - 1',
    'num_on_states = num_total_states')], '''
import nilmtk.legacy.disaggregate.combinatorial_optimisation as mod
seen = []
mod.cluster = lambda c, n, e=None: seen.append(e) or np.array([0, 100])
m = mod.CombinatorialOptimisation()
a, b = M(3, [ser([0, 100])]), M(5, [ser([0, 50])])
quiet(m.train, G([a, b]), {a: 4})
assert seen == [3, None], seen
'''),
 'co-combinations-stale': S(
  'C22', LEG, 'a model trained further, one meter at a time, after it has '
  'disaggregated a chunk',
  'the combinations of states are those of the model before',
  [(L + 'combinatorial_optimisation.py',
    'self.state_combinations.shape[1] != len(self.model)):',
    'self.state_combinations.shape[1] > len(self.model)):')], '''
import nilmtk.legacy.disaggregate.combinatorial_optimisation as mod
mod.cluster = lambda c, n, e=None: np.unique(np.append(c.values, 0))
m = mod.CombinatorialOptimisation()
for i, p in ((3, 100), (5, 30)):
    quiet(m.train_on_chunk, ser([0, p]), M(i, []), 3, None)
    f = quiet(m.disaggregate_chunk, ser([130] * 100))
    assert f.shape == (100, 1 if i == 3 else 2)
assert set(f.sum(axis=1)) == {130.}, f
'''),
 'co-never-on-undescribed': S(
  'C22', LEG, 'a meter which was never on while training',
  'the meter is written but not described',
  [(L + 'combinatorial_optimisation.py',
    "                meters=[d['training_metadata'] for d in self.model]\n",
    "                meters=[d['training_metadata'] for d in self.model\n"
    "                        if len(d['states']) > 1]\n")], '''
m = co((M(3, [], ['kettle']), [0, 100]), (M(5, [], ['lamp']), [0]))
st = Store()
quiet(m.disaggregate, M(1, [ser([100] * 100)]), st)
e = st.m['/building1']['elec_meters']
assert {x['data_location'] for x in e.values()} == {k for k, v in st.d}, e
'''),
 'hart-small-pairs': S(
  'C22', LEG, 'an appliance whose power is below the tolerance but above the '
  'noise level',
  'small events of Hart 85 are never paired',
  [(L + 'hart_85.py', 'if (val[1] > 0) and',
    'if (val[1] > self._min_tol) and')], '''
from nilmtk.legacy.disaggregate.hart_85 import Hart85
m = Hart85()
m.columns = [COL]
m.transients = pd.DataFrame({'active transition': [80., -78., 500., -490.]},
    index=pd.date_range('2020-01-01', periods=4, freq='60s', tz='UTC'))
p = m.pair(20, 100, .035, 1000)
assert p['T1 Active'].tolist() == [80., 500.], p
'''),
 'hart-tolerance-of-smaller': S(
  'C22', LEG, 'two events of more than 1000 W which differ by about 3.5 %',
  'the tolerance is a part of the smaller event',
  [(L + 'hart_85.py',
    'else (self._percent_tol * max(np.fabs([val[ix], compval[ix]])))',
    'else (self._percent_tol * min(np.fabs([val[ix], compval[ix]])))')], '''
from nilmtk.legacy.disaggregate.hart_85 import Hart85
m = Hart85()
m.columns = [COL]
m.transients = pd.DataFrame({'active transition': [1020., -985.]},
    index=pd.date_range('2020-01-01', periods=2, freq='60s', tz='UTC'))
p = m.pair(20, 100, .035, 1000)
assert p['T1 Active'].tolist() == [1020.], p
'''),
 'smart-solar-column': S(
  'C23', CNV, 'a home whose meter has a column for what the grid supplies',
  'the supply of the grid is stored as an appliance',
  [(D + 'smart/convert_smart.py',
    "    if 'Grid [kW]' in temp_df.columns:\n"
    "        temp_df = temp_df.drop(columns='Grid [kW]')\n",
    "    if 'Grid [kW]' in temp_df.columns and temp_df.columns[0] == "
    "'Grid [kW]':\n"
    "        temp_df = temp_df.drop(columns='Grid [kW]')\n")], '''
m, S = mod('smart.convert_smart')
for h in 'ABC':
    w('s/Home%s/2015/m1.txt' % h, 'Home%s-meter1\\nx\\n30 minutes\\nend\\n' % h)
    w('s/Home%s/2015/Home%s-meter1_2015.csv' % (h, h),
      'Date & Time,use [kW],Grid [kW],Oven [kW]\\n2015-01-01 00:00:00,10,7,'
      '3\\n')
quiet(m.convert_smart, T + '/s', 'x')
assert S.vals(1, 2) == [3000] and len(S.d) == 6, S.d
'''),
 'hes-unsorted-chunk': S(
  'C23', CNV, 'a chunk of HES whose readings of a meter are not in time '
  'order', 'the readings are stored in the order of the file',
  [(D + 'hes/convert_hes.py', '    df = df.sort_index()\n',
    '    df = df.sort_index(axis=1)\n')], '''
m, S = mod('hes.convert_hes')
w('h/anonhes/ipsos-anonymised-corrected_310713.csv', 'id,x\\n201,1\\n')
w('h/' + m.FILENAMES[0], ''.join('1,201,9,2010-05-01,%d,00:%02d:00\\n' % (v, t)
  for v, t in ((10, 3), (11, 1), (12, 2))))
quiet(m.convert_hes, T + '/h', 'x')
assert [v / 10 for v in S.vals(1, 1)] == [11, 12, 10], S.d
'''),
}
MET = runpy.run_path(os.path.join(HERE, 'j_metrics.py'))['PRE']
MTH = runpy.run_path(os.path.join(HERE, 'k_methods.py'))['PRE']
HLP = runpy.run_path(os.path.join(HERE, 'q_helpers.py'))['PRE']
SEEDS['f1-single-reading'] = S(
  'C19', MET, 'a pair of meters with one common reading',
  'a single common reading counts as none',
  [('nilmtk/metrics.py', '        if num_samples > 0:\n',
    '        if num_samples > 1:\n')], '''
p = Meter(1, {0: 50, 10: 50}, [(0, 20)])
g = Meter(1, {0: 60, 10: 60}, [(0, 20)])
near(run('f1_score', p, g), 1)
''')
SEEDS['fhmm-states-asked'] = S(
  'C20', MTH, 'FHMM asked for two states of an appliance with three levels',
  'the number of states asked for is ignored unless it is more than two',
  [('nilmtk/disaggregate/fhmm_exact.py',
    '            if self.num_of_states > 0:\n',
    '            if self.num_of_states > 2:\n')], '''
import types
hmm = types.ModuleType('hmmlearn')
seen = []
class HMM(object):
    def __init__(self, n, *a, **k):
        seen.append(n)
        self.n = n
    def fit(self, X):
        self.startprob_ = np.ones(self.n) / self.n
        self.transmat_ = np.ones((self.n, self.n)) / self.n
        self.means_ = np.arange(self.n, dtype=float).reshape(-1, 1)
        self.covars_ = np.ones((self.n, 1, 1))
hmm.hmm = types.ModuleType('hmmlearn.hmm')
hmm.hmm.GaussianHMM = lambda n_components=1, *a, **k: HMM(n_components)
sys.modules['hmmlearn'], sys.modules['hmmlearn.hmm'] = hmm, hmm.hmm
import importlib
import nilmtk.disaggregate
F = importlib.import_module('nilmtk.disaggregate.fhmm_exact')
F.cluster = lambda x, n: np.array([0, 50, 100])
for ask in (2, 3):
    del seen[:]
    m = F.FHMMExact({'num_of_states': ask})
    quiet(m.partial_fit, [frame([1, 2, 3])], [('a', [frame([0, 50, 100])])])
    assert seen[0] == ask, seen
''')
SEEDS['naive-daylight-zone'] = S(
  'C25', HLP, 'a datetime in a zone whose offset depends on the date',
  'instants in such zones count as naive',
  [('nilmtk/utils.py', 'timestamp.tzinfo.utcoffset(timestamp) is None',
    'timestamp.tzinfo.utcoffset(None) is None')], '''
import datetime
import zoneinfo
from nilmtk.utils import timestamp_is_naive as f
z = zoneinfo.ZoneInfo('Europe/London')
assert not f(datetime.datetime(2020, 7, 1, tzinfo=z))
assert not f(datetime.datetime(2020, 7, 1, tzinfo=datetime.timezone.utc))
assert f(datetime.datetime(2020, 7, 1))
''')
SEEDS['greend-duplicates-last'] = S(
  'C23', CNV, 'a GREEND file with two readings at one instant',
  'the last of them is kept',
  [(D + 'greend/convert_greend.py', "duplicated(keep='first')",
    "duplicated(keep='last')")], '''
m, S = mod('greend.convert_greend')
w('g/building0/dataset_2014-01-02.csv',
  'timestamp,AA,BB\\n1388617200,1,2\\n1388617201,3,4\\n1388617201,5,6\\n')
quiet(m.convert_greend, T + '/g', 'x', False)
got = sorted(d.iloc[:, 0].tolist() for d in S.d.values())
assert got == [[1, 3], [2, 4]], got
''')
SEEDS['combed-common-instants'] = S(
  'C23', CNV, 'a COMBED meter whose quantities are not all read at the same '
  'instants', 'only the instants at which all quantities were read are kept',
  [(D + 'combed/convert_combed.py', 'pd.concat(dfs, axis=1)',
    "pd.concat(dfs, axis=1, join='inner')")], '''
m, S = mod('combed.convert_combed')
w('c/Academic Block/Lifts/0/Power.csv', '1400000000000,1\\n1400000030000,2\\n')
w('c/Academic Block/Lifts/0/Energy.csv', '1400000000000,5\\n')
w('c/Academic Block/Lifts/0/Current.csv', '1400000030000,7\\n')
quiet(m.convert_combed, T + '/c', 'x')
assert len(S.at(1, 2)) == 2, S.at(1, 2)
''')
