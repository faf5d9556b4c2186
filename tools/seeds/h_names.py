EL = 'nilmtk/electric.py'
SEEDS = {
'spectrum-fft-module': dict(
    property='C16',
    needs='plot_spectrum of a meter with readings',
    breaks='numpy.fft, a module, is called: TypeError',
    edits=[(EL, 'Y = fft(power)/n', 'Y = np.fft(power)/n')],
    demo='''
import numpy as np, pandas as pd
import matplotlib.pyplot as plt
from nilmtk.electric import Electric
class Fake(Electric):
    def sample_period(self):
        return 10
    def power_series(self, **kw):
        yield pd.Series(np.arange(8.), pd.date_range(
            '2013-01-01', periods=8, freq='10s', tz='UTC'))
ax = plt.figure().gca()
assert Fake().plot_spectrum(ax) is ax and len(ax.lines) == 1
'''),
'redd-sort-removed': dict(
    property='C16',
    needs='the REDD loader asked to sort the index',
    breaks='DataFrame.sort, which pandas no longer has, is called',
    edits=[('nilmtk/dataset_converters/redd/convert_redd.py',
            'df = df.sort_index()', 'df = df.sort(axis=0)')],
    demo='''
import os, shutil, tempfile
from nilmtk.dataset_converters.redd.convert_redd import _load_csv
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'channel_1.dat')
    with open(f, 'w') as h:
        h.write('1303132933 5.5\\n1303132929 6.5\\n')
    df = _load_csv(f, [('power', 'active')], 'US/Eastern', sort_index=True)
finally:
    shutil.rmtree(d)
assert df.iloc[:, 0].tolist() == [6.5, 5.5], df
'''),
'wiring-label-keyword': dict(
    property='C16',
    needs='the wiring graph drawn without Graphviz',
    breaks='a helper calls a method that no class has',
    edits=[('nilmtk/metergroup.py',
            'meter_labels = {meter: meter.label() for meter in graph.nodes()}',
            'meter_labels = {meter: self.short_label(meter)\n'
            '                        for meter in graph.nodes()}'),
           ('nilmtk/metergroup.py', '    def wiring_graph(self):',
            '    def short_label(self, meter):\n'
            '        """Name to draw at a node of the wiring graph"""\n'
            '        return self.label(meter) if meter is None else '
            'self._label_of(meter)\n\n'
            '    def wiring_graph(self):')],
    demo='''
import networkx as nx
from nilmtk.metergroup import MeterGroup
class Meter(object):
    def label(self):
        return 'a'
    def is_site_meter(self):
        return True
class G(MeterGroup):
    def wiring_graph(self):
        g = nx.DiGraph()
        g.add_edge(Meter(), Meter())
        return g
graph, ax = G().draw_wiring_graph()
assert len(graph) == 2
'''),
'unknown-type-format': dict(
    property='C16',
    needs='an appliance whose type is not in the list of types',
    breaks='the warning asks for an argument that is not given: IndexError',
    edits=[('nilmtk/appliance.py',
            """            warn("'{}' is not a recognised appliance type.""",
            """            warn("'{}' (instance {}) is not a recognised appliance type.""")],
    demo='''
import warnings
from nilmtk.appliance import Appliance
warnings.simplefilter('ignore')
a = Appliance({'type': 'no such thing', 'instance': 1})
assert a.identifier.type == 'no such thing'
'''),
}
