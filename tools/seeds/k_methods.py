D = 'nilmtk/disaggregate/'
F = 'nilmtk/feature_detectors/'
PRE = '''
import warnings; warnings.simplefilter('ignore')
import contextlib, io, os, sys, tempfile
import numpy as np, pandas as pd
T0 = pd.Timestamp('2020-01-01', tz='UTC')
COLS = pd.MultiIndex.from_tuples([('power', 'active')])
def frame(v):
    ix = pd.DatetimeIndex([T0 + pd.Timedelta(seconds=10 * i)
                           for i in range(len(v))])
    return pd.DataFrame({0: [float(x) for x in v]}, index=ix).set_axis(
        COLS, axis=1)
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
'''
HART = '''
from nilmtk.disaggregate.hart_85 import Hart85, PairBuffer
def pairs(vals, size=20):
    h = Hart85.__new__(Hart85)
    h.columns = [('power', 'active')]
    h.transients = frame(vals).set_axis(['active transition'], axis=1)
    p = quiet(h.pair, size, 100, .035, 1000)
    return [tuple(x) for x in p[['T1 Active', 'T2 Active']].values]
'''


def S(prop, needs, breaks, edits, demo):
    return dict(property=prop, needs=needs, breaks=breaks, edits=edits,
                demo=PRE + demo)


SEEDS = {
 'k01-mean-last-frame': S(
  'C20', 'a model trained on several frames of readings at once',
  'Mean sums the readings of the last frame only, but counts all',
  [(D + 'mean.py', "app_dict['sum'] += int(np.nansum(power_.values))",
    "app_dict['sum'] += int(np.nansum(power[-1].values))")],
  '''
from nilmtk.disaggregate import Mean
m = Mean({})
quiet(m.partial_fit, [frame([1, 2]), frame([3])],
      [('a', [frame([10, 20]), frame([60])])])
[p] = quiet(m.disaggregate_chunk, [frame([5, 5])])
assert p['a'].tolist() == [30, 30], p
'''),
 'k02-co-stale-combinations': S(
  'C20', 'a model trained again, on a further appliance, after it was used',
  'CO goes on with the combinations of the appliances known when it was '
  'first used',
  [(D + 'combinatorial_optimisation.py',
    """        if (self.state_combinations is None or
                self.state_combinations.shape[1] != len(self.model)):
""", """        if (self.state_combinations is None or
                self.state_combinations.shape[1] > len(self.model)):
""")],
  '''
from nilmtk.disaggregate import CO
m = CO({})
quiet(m.partial_fit, [frame([1])], [('a', [frame([100] * 30)])])
quiet(m.disaggregate_chunk, [frame([100])])
quiet(m.partial_fit, [frame([1])], [('b', [frame([1000] * 30)])])
try:
    [p] = quiet(m.disaggregate_chunk, [frame([1000, 100])])
    ok = p['b'].tolist() == [1000, 0] and p['a'].tolist() == [0, 100]
except Exception as e:
    ok = False
assert ok
'''),
 'k03-nearest-below-first': S(
  'C20', 'a reading below the smallest known sum and several known sums',
  'the nearest entry of a value below all known ones is the second smallest',
  [('nilmtk/utils.py',
    'idx3 = np.clip(idx1,     0, len(known_array_sorted)-1)',
    'idx3 = np.clip(idx1,     min(1, len(known_array_sorted)-1), '
    'len(known_array_sorted)-1)'),
   ('nilmtk/utils.py', 'idx2 = np.clip(idx1 - 1, 0,',
    'idx2 = np.clip(idx1 - 1, min(1, len(known_array_sorted)-1),')],
  '''
from nilmtk.utils import find_nearest
i, r = find_nearest(np.array([40., 5., 90.]), np.array([1., 6., 88., 41.]))
assert i.tolist() == [1, 1, 2, 0], i
'''),
 'k04-cluster-counts-exactly-threshold': S(
  'C20', 'an appliance with few readings above the threshold and many just '
  'below',
  'readings below the threshold count as states of the appliance',
  [(F + 'cluster.py', 'data[data > DATA_THRESHOLD].dropna().values',
    'data[data > DATA_THRESHOLD / 2.].dropna().values')],
  '''
from nilmtk.feature_detectors.cluster import cluster
c = cluster(frame([8] * 100 + [300] * 50)[('power', 'active')], 3)
assert c.tolist() == [0, 300], c
'''),
 'k05-fhmm-transitions-transposed': S(
  'C20', 'a model whose states are learnt in other than increasing order',
  'the transition probabilities of the sorted states are those into, not '
  'out of, a state',
  [(D + 'fhmm_exact.py', 'A_new[i, j] = A[mapping[i], mapping[j]]',
    'A_new[i, j] = A[mapping[j], mapping[i]] if mapping[0] else A[i, j]')],
  '''
from nilmtk.disaggregate.fhmm_exact import sort_learnt_parameters
pi, mu, cov, A = sort_learnt_parameters(
    np.array([.3, .7]), np.array([[200.], [10.]]),
    np.array([[[5.]], [[9.]]]), np.array([[.9, .1], [.4, .6]]))
assert np.allclose(A, [[.6, .4], [.1, .9]]), A
'''),
 'k06-fhmm-kron-order': S(
  'C20', 'appliances with different transition probabilities',
  'the combined transitions and the combined means are in different orders',
  [(D + 'fhmm_exact.py', """    result = list_A[0]
    for i in range(len(list_A) - 1):
        result = np.kron(result, list_A[i + 1])
""", """    result = list_A[0]
    for i in range(len(list_A) - 1):
        result = np.kron(list_A[i + 1], result)
""")],
  '''
from nilmtk.disaggregate.fhmm_exact import create_combined_hmm
class M(object):
    def __init__(self, p, A, m):
        self.startprob_, self.transmat_ = np.array(p), np.array(A)
        self.means_ = np.array(m).reshape(-1, 1)
a = M([.5, .5], [[.9, .1], [.2, .8]], [0., 100.])
b = M([.3, .7], [[.6, .4], [.5, .5]], [0., 30.])
c = create_combined_hmm({'a': a, 'b': b})
assert c.means_.flatten().tolist() == [0, 30, 100, 130]
assert np.allclose(c.startprob_, [.15, .35, .15, .35])
assert np.isclose(c.transmat_[0, 1], .9 * .4), c.transmat_
assert np.isclose(c.transmat_[0, 2], .1 * .6), c.transmat_
'''),
 'k07-edges-short-runs': S(
  'C20', 'two changes of power in consecutive readings',
  'the power before a change that goes on is taken as a steady state',
  [(F + 'steady_states.py',
    'if instantaneous_change and (not ongoing_change):',
    'if instantaneous_change and (not ongoing_change or N > 1):'),
   (F + 'steady_states.py', """        # Step 7
        ongoing_change = instantaneous_change
""", """        # Step 7
        ongoing_change = instantaneous_change and not (
            ongoing_change and len(index_transitions) > 1)
""")],
  '''
from nilmtk.feature_detectors.steady_states import find_steady_states
v = [0, 0, 300, 300, 0, 0, 300, 500, 700, 700, 0, 0]
s, t = quiet(find_steady_states, frame(v))
got = t.values.flatten().tolist()
assert got == [300, -300, 700, -700], got
'''),
 'k08-pairs-oldest-first': S(
  'C20', 'a rise between a rise of about the same size and its fall',
  'a fall is paired with the oldest, not the nearest, matching rise',
  [(D + 'hart_85.py', 'for eDistance in range(1, tlength):',
    'for eDistance in (range(1, tlength) if tlength < 3 else '
    'range(tlength - 1, 0, -1)):')],
  HART + '''
got = pairs([500, 520, -515])
assert got == [(520, -515)], got
'''),
 'k09-pairs-matched-again': S(
  'C20', 'a rise, its fall, and a second fall of the same size while both '
  'are in the buffer',
  'a matched rise is matched again with a later fall',
  [(D + 'hart_85.py',
    'if (val[1] > 0) and (val[self._num_measurements] is False):',
    'if (val[1] > 0) and (val[self._num_measurements] is False or '
    'tlength > 3):')],
  HART + '''
got = pairs([500, -510, 90, -505])
assert got == [(500, -510)], got
'''),
 'k10-hart-buffer-drops-unmatched': S(
  'C20', 'as many transitions as the buffer holds, the oldest unmatched',
  'a full buffer is emptied of everything before its last matched '
  'transition',
  [(D + 'hart_85.py', """                self.transition_list.popmiddle(idx)
                self.clean_buffer()
""", """                for _ in range(idx + 1):
                    self.transition_list.popleft()
                self.clean_buffer()
""")],
  HART + '''
got = pairs([2000, 300, -300, -2000], 3)
assert got == [(300, -300), (2000, -2000)], got
'''),
 'k11-hart-off-before-on': S(
  'C20', 'mains in which an appliance first falls, then rises',
  'an appliance that turned off stays off for the rest of the chunk',
  [(D + 'hart_85.py', 'while values[i] != 1 and i < len(values) - 1:\n'
    '                        # print("D", values[i], i)',
    'while values[i] != -2 and i < len(values) - 1:\n'
    '                        # print("D", values[i], i)')],
  '''
from nilmtk.disaggregate.hart_85 import Hart85
h = Hart85.__new__(Hart85)
h.centroids = pd.DataFrame({('power', 'active'): [500.]})
st = pd.DataFrame({0: [-1, 1, -1, -1, 0, -1, -1, 1, -1, -1, 0, -1]})
p = list(h.assign_power_from_states(st, {0: -1})[0])
assert p[2:4] == [500, 500] and p[5:7] == [0, 0], p
assert p[8:10] == [500, 500], p
'''),
 'k12-mean-shift-first-change': S(
  'C20', 'pairs whose rise and fall differ',
  'the size of a pair is the size of its rise alone, for apparent power',
  [(F + 'cluster.py', """                        row['T1 Apparent']) +
                        np.fabs(
                        row['T2 Apparent'])) /
""", """                        row['T1 Apparent']) +
                        np.fabs(
                        row['T1 Apparent'])) /
""")],
  '''
from nilmtk.feature_detectors.cluster import hart85_means_shift_cluster
df = pd.DataFrame([[0, 200., 1, -220.], [2, 1000., 3, -1040.]], columns=[
    'T1 Time', 'T1 Apparent', 'T2 Time', 'T2 Apparent'])
c = hart85_means_shift_cluster(df, [('power', 'apparent')])
assert sorted(c.values.flatten()) == [210, 1020], c
'''),
}
