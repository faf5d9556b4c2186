
PRE = """
import contextlib, io
import warnings; warnings.simplefilter('ignore')
import numpy as np, pandas as pd
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
"""
SEEDS = {
'entropy-own-distance': dict(
    property='C17',
    needs='entropy of a meter (the point itself counts as its nearest '
          'neighbour)',
    breaks='the distance is that to the (k-1)th other reading',
    edits=[('nilmtk/electric.py',
            "nn = [tree.query(point, k+1, p=float('inf'))[0][k] "
            "for point in z]",
            "nn = [tree.query(point, k, p=float('inf'))[0][-1] "
            "for point in z]")],
    demo=PRE + """
from math import log
from scipy.special import digamma
from nilmtk.electric import Electric
class A(Electric):
    def power_series(self, **kw):
        i = pd.date_range('2020-01-01', periods=8, freq='60s', tz='UTC')
        yield pd.Series([1., 2., 4., 8., 16., 32., 64., 128.], index=i)
x = np.array([1., 2., 4., 8., 16., 32., 64., 128.])
k = 3
d = [sorted(abs(x - v))[k] for v in x]
want = (digamma(8) - digamma(k) + log(2) + np.mean(np.log(d))) / log(2)
assert abs(A().entropy(k=k) - want) < 1e-6, (A().entropy(k=k), want)
"""),
'flatten-only-lists': dict(
    property='C25',
    needs='a tuple among the items to flatten',
    breaks='tuples are kept whole instead of flattened',
    edits=[('nilmtk/utils.py',
            '        if isinstance(item, str):\n            list1d.append(item)',
            '        if isinstance(item, (str, tuple)):\n'
            '            list1d.append(item)')],
    demo=PRE + """
from nilmtk.utils import flatten_2d_list
assert flatten_2d_list(['ab', [1, 2], (3, 4), 5]) == ['ab', 1, 2, 3, 4, 5]
"""),
'localize-naive-local': dict(
    property='C25',
    needs='a naive time and a zone other than UTC',
    breaks='a naive time is taken for local time instead of UTC',
    edits=[('nilmtk/utils.py',
            "        timestamp = timestamp.tz_localize('UTC')",
            "        timestamp = timestamp.tz_localize(tz)")],
    demo=PRE + """
from nilmtk.utils import tz_localize_naive
t = tz_localize_naive(pd.Timestamp('2020-01-01 12:00'), 'US/Eastern')
assert t == pd.Timestamp('2020-01-01 12:00', tz='UTC'), t
assert str(t.tz) == 'US/Eastern'
"""),
'root-of-two-trees': dict(
    property='C25',
    needs='a wiring graph with two roots',
    breaks='the first of several roots is returned instead of an error',
    edits=[('nilmtk/utils.py', '    if n_roots > 1:', '    if n_roots > 2:')],
    demo=PRE + """
import networkx as nx
from nilmtk.utils import tree_root
g = nx.DiGraph(); g.add_edges_from([(1, 2), (3, 4)])
try:
    tree_root(g)
except RuntimeError:
    pass
else:
    raise AssertionError('two roots accepted')
g.add_edge(1, 3)
assert tree_root(g) == 1
"""),
'nested-html-lost': dict(
    property='C25',
    needs='metadata with a dict inside a dict',
    breaks='the entries before a nested dict are dropped',
    edits=[('nilmtk/utils.py', '            html += dict_to_html(value)',
            '            html = dict_to_html(value)')],
    demo=PRE + """
from nilmtk.utils import dict_to_html
h = dict_to_html({'a': 1, 'b': {'c': 2}, 'd': [3]})
for x in 'abcd123':
    assert x in h, h
assert h.count('<ul>') == h.count('</ul>') == 3
"""),

'checkpoint-prefix-anywhere': dict(
    property='C26',
    needs='a file whose name contains the prefix further on',
    breaks='other files with the prefix inside their name are deleted',
    edits=[('nilmtk/disaggregate/disaggregator.py',
            'entry.name.startswith(self.file_prefix)',
            'entry.name.find(self.file_prefix) >= 0')],
    demo=PRE + '''
import os, tempfile
from nilmtk.disaggregate.disaggregator import Disaggregator
class D(Disaggregator):
    MODEL_NAME = 'D'
    file_prefix = 'seq'
with tempfile.TemporaryDirectory() as d:
    old = os.getcwd()
    os.chdir(d)
    try:
        for n in ('seq-1.h5', 'my-seq.h5', 'seq.csv', 'data.h5'):
            open(n, 'w').close()
        quiet(D().clear_model_checkpoints)
        assert sorted(os.listdir('.')) == ['data.h5', 'my-seq.h5', 'seq.csv']
    finally:
        os.chdir(old)
'''),
'restore-half-a-folder': dict(
    property='C26',
    needs='a test which adds files to the CSV data',
    breaks='the folder is not replaced: the backup stays beside it',
    edits=[('nilmtk/__init__.py',
            '                shutil.rmtree(target_fn)\n',
            '                shutil.copytree(original_fn, target_fn, '
            'dirs_exist_ok=True)\n                shutil.rmtree(original_fn)'
            '\n                continue\n')],
    demo=PRE + '''
import os, tempfile
import nilmtk
import nilmtk.tests.testingtools as tt
with tempfile.TemporaryDirectory() as d:
    d = os.path.join(d, 'data')
    os.makedirs(os.path.join(d, 'random_csv', 'building1'))
    one = os.path.join(d, 'random_csv', 'building1', 'meter1.csv')
    open(one, 'w').write('x')
    open(os.path.join(d, 'a.h5'), 'w').write('a')
    tt.data_dir = lambda: d
    nilmtk.setup_package()
    open(one, 'w').write('changed')
    new = os.path.join(d, 'random_csv', 'new.csv')
    open(new, 'w').write('new')
    nilmtk.teardown_package()
    assert open(one).read() == 'x'
    assert not os.path.exists(new)
    assert sorted(os.listdir(d)) == ['a.h5', 'random_csv']
'''),

'describe-enabled-sites': dict(
    property='C14',
    needs='a group one of whose site meters is disabled',
    breaks='the number of site meters leaves out the disabled ones',
    edits=[('nilmtk/metergroup.py',
            'site_meters = [m for m in all_meters if m.is_site_meter()]',
            'site_meters = [m for m in self.meters if m.is_site_meter()]')],
    demo=PRE + '''
from nilmtk.metergroup import MeterGroup
from nilmtk.timeframe import TimeFrame
class M:
    def __init__(s, site): s.site = site
    def is_site_meter(s): return s.site
    def sample_period(s): return 6
    def uptime(s, **k): return pd.Timedelta('1min')
    def average_energy_per_period(s, **k): return 1.
class G(MeterGroup):
    def mains(s): return s.meters[0]
    def submeters(s): return s.meters[1]
    def get_timeframe(s): return TimeFrame('2020-01-01', '2020-01-02')
g = G([M(True), M(False)])
g.disabled_meters.append(M(True))
d = g.describe(compute_expensive_stats=False)
assert d['total_n_meters'] == 3 and d['total_n_site_meters'] == 2, d
'''),
}
