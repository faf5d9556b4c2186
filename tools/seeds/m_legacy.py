L = 'nilmtk/legacy/disaggregate/'
PRE = '''
import warnings; warnings.simplefilter('ignore')
import contextlib, io, os, sys, tempfile
import numpy as np, pandas as pd
from nilmtk.timeframe import TimeFrame
COL = ('power', 'active')
class App:
    def __init__(s, t, i=1):
        class Id:
            type = t
            instance = i
        s.identifier = Id
        s.type = {'type': t}
class M:
    def __init__(s, inst, chunks, apps=(), name='', building=1):
        s.i, s.chunks, s.b = inst, chunks, building
        s.appliances, s.name = [App(a) for a in apps], name
        s.identifier = (name, inst)
    def instance(s): return s.i
    def building(s): return s.b
    def good_sections(s): return ['good']
    def power_series(s, **kw):
        s.kw = kw
        for c in s.chunks:
            c = c.copy()
            c.timeframe = TimeFrame(c.index[0], c.index[-1])
            yield c
    def load(s, **kw):
        s.lkw = kw
        for c in s.chunks:
            f = pd.DataFrame(c)
            f.columns = pd.MultiIndex.from_tuples([COL])
            yield f
class G:
    def __init__(s, ms): s.meters = ms
    def submeters(s): return s
class Store:
    def __init__(s): s.d, s.m = [], {}
    def append(s, key, value): s.d.append((key, value))
    def save_metadata(s, k, m): s.m[k] = m
    def all(s, key):
        v = [v for k, v in s.d if k == key]
        return pd.concat(v).iloc[:, 0].tolist() if v else None
def ser(v, start='2020-01-01', f='60s'):
    return pd.Series(np.array(v, dtype='float32'), index=pd.date_range(
        start, periods=len(v), freq=f, tz='UTC'), name=COL)
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def co(*models):
    from nilmtk.legacy.disaggregate import CombinatorialOptimisation
    m = CombinatorialOptimisation()
    m.model = [{'states': np.array(s), 'training_metadata': t}
               for t, s in models]
    return m
'''


def S(needs, breaks, edits, demo):
    return dict(property='C22', needs=needs, breaks=breaks, edits=edits,
                demo=PRE + demo)


SEEDS = {
 'm01-co-short-chunk-ends': S(
  'mains whose chunks include a short one before a long one',
  'CO stops at the first chunk which is too short',
  [(L + 'combinatorial_optimisation.py',
    """            if len(chunk) < self.MIN_CHUNK_LENGTH:
                continue
""", """            if len(chunk) < self.MIN_CHUNK_LENGTH:
                break
""")],
  '''
m = co((M(3, [], ['kettle']), [0, 100]))
st = Store()
quiet(m.disaggregate, M(1, [ser([100] * 100), ser([0] * 20, '2020-01-02'),
                            ser([0] * 100, '2020-01-03')]), st)
assert st.all('/building1/elec/meter3') == [100] * 100 + [0] * 100
assert len(st.all('/building1/elec/meter1')) == 200
'''),
 'm02-co-meter-position': S(
  'a model of meters whose instances are not 2, 3, ... in order',
  'CO writes under the position in the model, not the instance of the meter',
  [(L + 'combinatorial_optimisation.py',
    "meter_instance = model['training_metadata'].instance()",
    "meter_instance = i + 2")],
  '''
m = co((M(3, [], ['kettle']), [0, 100]), (M(5, [], ['tv']), [0, 10]))
st = Store()
quiet(m.disaggregate, M(1, [ser([110] * 60 + [10] * 60)]), st)
assert st.all('/building1/elec/meter3') == [100] * 60 + [0] * 60
assert st.all('/building1/elec/meter5') == [10] * 120
'''),
 'm03-fhmm-mains-building': S(
  'mains of another building than the first',
  'FHMM describes the disaggregated data under building 1',
  [(L + 'disaggregator.py',
    "building_path = '/building{}'.format(building)",
    "building_path = '/building{}'.format(max(1, building - building // 10"
    " * 10))")],
  '''
m = co((M(3, [], ['kettle']), [0, 100]))
st = Store()
quiet(m.disaggregate, M(1, [ser([100] * 100)], building=12), st)
assert sorted(st.m) == ['/', '/building12'], sorted(st.m)
e = st.m['/building12']['elec_meters']
assert {x['data_location'] for x in e.values()} == {k for k, v in st.d}
'''),
 'm04-timeframe-last-chunk': S(
  'mains in several chunks far apart',
  'the time frame of the disaggregated data is that of the last chunk',
  [(L + 'disaggregator.py',
    """        total_timeframe = TimeFrame(merged_timeframes[0].start,
                                    merged_timeframes[-1].end)
""", """        total_timeframe = TimeFrame(merged_timeframes[-1].start,
                                    merged_timeframes[-1].end)
""")],
  '''
m = co((M(3, [], ['kettle']), [0, 100]))
st = Store()
quiet(m.disaggregate, M(1, [ser([100] * 100),
                            ser([0] * 100, '2020-01-03')]), st)
t = st.m['/']['timeframe']
assert t['start'].startswith('2020-01-01'), t
'''),
 'm05-fhmm-decode-factor': S(
  'appliances with different numbers of states',
  'the decoder divides by the number of states of the first appliance',
  [(L + 'fhmm_exact.py',
    "            factor = factor // len(centroids[appliance])\n",
    "            factor = factor // len(centroids[list(appliance_list)[0]])"
    "\n")],
  '''
from nilmtk.legacy.disaggregate.fhmm_exact import decode_hmm
c = {'a': [0, 100], 'b': [0, 10, 20], 'c': [0, 1]}
s, p = decode_hmm(12, c, ['a', 'b', 'c'], list(range(12)))
assert [sum(p[a][i] for a in c) for i in range(12)] == [
    0, 1, 10, 11, 20, 21, 100, 101, 110, 111, 120, 121], p
'''),
 'm06-hart-appliance-instances': S(
  'a Hart85 model of more than one appliance',
  'all appliances Hart85 finds are described as the same one',
  [(L + 'disaggregator.py', "'instance': chan - 1", "'instance': 1")],
  '''
from nilmtk.legacy.disaggregate.disaggregator import Disaggregator
d = Disaggregator()
d.MODEL_NAME = 'Hart85'
st = Store()
d._save_metadata_for_disaggregation(st, 60, COL, [TimeFrame(
    '2020-01-01', '2020-01-02')], 1, supervised=False, num_meters=3)
a = st.m['/building1']['appliances']
assert [(x['type'], x['instance'], x['meters']) for x in a] == [
    ('unknown', 1, [2]), ('unknown', 2, [3]), ('unknown', 3, [4])], a
'''),
 'm07-mle-overlap': S(
  'two pairs of events of which the likelier is switched on within the other',
  'MLE only looks whether the first moment of a pair is taken',
  [(L + 'maximum_likelihood_estimation.py',
    """            if ((dis_chunk[(dis_chunk.index >= row[1][0]) &
                    (dis_chunk.index < row[1][1])].sum().values[0]) == 0):
""", """            if ((dis_chunk[dis_chunk.index == row[1][0]
                           ].sum().values[0]) == 0):
""")],
  '''
from nilmtk.legacy.disaggregate.maximum_likelihood_estimation import MLE
class D:
    def __init__(s, f): s.pdf = f
m = MLE()
for k, v in dict(resistive=True, appliance='kettle', powerNoise=1,
                 powerPair=50, timeWindow=1000, thLikelihood=1e-9).items():
    setattr(m, k, v)
m.onpower = {'name': 'norm', 'model': D(lambda x: 2. if x == 100 else 1.)}
m.offpower = {'name': 'norm', 'model': D(lambda x: 1.)}
m.duration = {'name': 'norm', 'model': D(lambda x: 1. if x < 60 else .1)}
x = [0, 120, 220, 220, 100, 100, 100, 100, 100, 0, 0]
f = pd.DataFrame(ser(x, f='10s'))
f.columns = pd.MultiIndex.from_tuples([COL])
f = pd.DataFrame(ser(x, f='10s'))
d = quiet(m.disaggregate_chunk, f)
got = d.iloc[:, 0].tolist()
assert got == [0, 0, 100, 100, 0, 0, 0, 0, 0, 0, 0], got
'''),
 'm08-export-stores': S(
  'a model of several meters, used after it was exported',
  'CO.export_model gives each meter the store of the first',
  [(L + 'combinatorial_optimisation.py',
    """            original_store = pair['training_metadata'].store
            original_stores.append(original_store)
""", """            original_store = pair['training_metadata'].store
            original_stores.insert(0, original_store)
""")],
  '''
class St:
    def __init__(s, n):
        s.store = type('F', (), {})()
        s.store.filename = n
class Mt:
    def __init__(s, n): s.store = St(n)
import nilmtk.legacy.disaggregate.combinatorial_optimisation as c
a, b = Mt('a'), Mt('b')
m = c.CombinatorialOptimisation()
m.model = [{'states': [0], 'training_metadata': a},
           {'states': [0], 'training_metadata': b}]
with tempfile.TemporaryDirectory() as d:
    m.export_model(os.path.join(d, 'm'))
assert a.store.store.filename == 'a' and b.store.store.filename == 'b'
'''),
}
