ME = 'nilmtk/metrics.py'
LO = 'nilmtk/losses.py'
UT = 'nilmtk/utils.py'
PRE = '''
import warnings; warnings.simplefilter('ignore')
import numpy as np, pandas as pd
from nilmtk import metrics
from nilmtk.timeframe import TimeFrame
from nilmtk.metergroup import MeterGroup
T0 = pd.Timestamp('2013-01-01', tz='UTC')
def ts(s):
    return T0 + pd.Timedelta(seconds=s)
class Meter(object):
    """what the metrics ask of a meter"""
    def __init__(self, i, data, secs, energy=None):
        self.i, self.energy, self.secs = i, energy, secs
        self.s = pd.Series({ts(t): float(v) for t, v in data.items()})
        if not data:
            self.s = pd.Series([], pd.DatetimeIndex([], tz='UTC'),
                               dtype=float)
        self.identifier = (i, 1, 'D')
    def instance(self):
        return self.i
    def sample_period(self):
        return 10
    def good_sections(self, **k):
        return [TimeFrame(ts(a), ts(b)) for a, b in self.secs]
    def total_energy(self, sections=None, **k):
        return pd.Series(self.energy(sections))
    def power_series(self, sections=None, **k):
        for tf in sections:
            yield self.s[(self.s.index >= tf.start) &
                         (self.s.index < tf.end)]
    def when_on(self, sections=None, **k):
        for c in self.power_series(sections):
            yield c >= 10
def run(fn, p, g):
    metrics.iterate_through_submeters_of_two_metergroups = \\
        lambda a, b: [(p, g)]
    return getattr(metrics, fn)(None, None)[p.i]
def near(x, y):
    assert abs(x - y) < 1e-9, (x, y)
G = list(range(0, 70, 10))
'''
SEEDS = {
'energy-error-truth-sections': dict(
    property='C19',
    needs='a truth whose good sections are not those of the prediction',
    breaks='the energies are taken over the good sections of the truth',
    edits=[(ME, 'sections = pred_meter.good_sections()',
            'sections = ground_truth_meter.good_sections()')],
    demo=PRE + '''
p = Meter(2, {}, [(0, 50)], lambda s: {'active': 1.0 if s == p.good_sections()
                                       else 7.0})
g = Meter(2, {}, [(0, 60)], lambda s: {'active': 3.0 if s == p.good_sections()
                                       else 8.0})
near(run('error_in_assigned_energy', p, g)['active'], 2)
'''),
'fraction-whole-building': dict(
    property='C19',
    needs='a prediction group which also holds the site meter',
    breaks='the shares of the prediction are of all its meters, the site '
    'meter included',
    edits=[(ME, 'predictions_submeters = MeterGroup(meters=predictions.'
            'submeters().meters)',
            'predictions_submeters = MeterGroup(meters=predictions.meters)')],
    demo=PRE + '''
from nilmtk.elecmeter import ElecMeter, ElecMeterID
def grp(ds, energy):
    ms = []
    for i, e in energy.items():
        m = ElecMeter(None, {'site_meter': True} if i == 1 else
                      {'submeter_of': 1}, ElecMeterID(i, 1, ds))
        m.total_energy = lambda e=e, **k: pd.Series({'active': e})
        ms.append(m)
    return MeterGroup(ms)
near(metrics.fraction_energy_assigned_correctly(
    grp('P', {2: 1., 3: 3.}), grp('G', {2: 3., 3: 1.})), 0.5)
near(metrics.fraction_energy_assigned_correctly(
    grp('P', {1: 9., 2: 1., 3: 3.}), grp('G', {1: 9., 2: 3., 3: 1.})), 0.5)
'''),
'mne-predicted-total': dict(
    property='C19',
    needs='a prediction with another total than the truth',
    breaks='the error is normalised by the predicted power',
    edits=[(ME, 'sum_of_ground_truth_power += aligned_meters_chunk.iloc[:, 1]'
            '.sum()', 'sum_of_ground_truth_power += aligned_meters_chunk'
            '.iloc[:, 0][diff.notnull()].sum()')],
    demo=PRE + '''
p = Meter(2, dict(zip(G, [4, 4, 4, 4, 4, 4, 4])), [(0, 70)])
g = Meter(2, dict(zip(G, [2, 2, 2, 2, 2, 2, 2])), [(0, 70)])
near(run('mean_normalized_error_power', p, g), 1)
'''),
'rms-counts-missing': dict(
    property='C19',
    needs='a truth with a missing reading inside a good section of the '
    'prediction',
    breaks='missing readings count as readings without error',
    edits=[(ME, 'n_samples += len(diff)',
            'n_samples += len(aligned_meters_chunk) - 1')],
    demo=PRE + '''
p = Meter(2, {t: 5 for t in G}, [(0, 70)])
g = Meter(2, {t: 2 for t in G}, [(0, 70)])
near(run('rms_error_power', p, g), 3)
g = Meter(2, {t: 2 for t in G if t not in (20, 30)}, [(0, 70)])
near(run('rms_error_power', p, g), 3)
'''),
'rms-last-chunk': dict(
    property='C19',
    needs='a prediction with two good sections with different errors',
    breaks='only the last chunk counts in the sum',
    edits=[(ME, 'sum_of_squared_diff += (diff ** 2).sum()',
            'sum_of_squared_diff = (diff ** 2).sum()')],
    demo=PRE + '''
p = Meter(2, {t: 5 for t in G}, [(0, 70)])
g = Meter(2, {t: 2 for t in G}, [(0, 70)])
near(run('rms_error_power', p, g), 3)
p.secs = [(0, 30), (30, 70)]
near(run('rms_error_power', p, g), 3)
'''),
'f1-unweighted': dict(
    property='C19',
    needs='chunks of different length with different scores',
    breaks='the mean of the chunk scores is not weighted',
    edits=[(ME, """                scores_for_meter['num_samples'] / num_samples)""",
            """                1.0 / len(scores_for_meter))""")],
    demo=PRE + '''
on = {0: 1, 10: 1, 20: 1, 30: 1, 40: 0, 50: 0, 60: 1}
p = Meter(2, {t: 50 for t in G}, [(0, 70)])
g = Meter(2, {t: 50 * on[t] for t in G}, [(0, 70)])
near(run('f1_score', p, g), 8. / 10)
p.secs = [(0, 30), (30, 70)]
near(run('f1_score', p, g), (2 * 1 + 3 * .5) / 5)
'''),
'f1-threshold-inclusive': dict(
    property='C19',
    needs='a reading of exactly 10 W',
    breaks='a reading on the threshold counts as off',
    edits=[(LO, 'gt_temp = np.where(gt_temp<threshold,0,1)',
            'gt_temp = np.where(gt_temp<=threshold,0,1)')],
    demo='''
import pandas as pd
from nilmtk import losses
assert losses.f1score(pd.Series([10., 0, 30]), pd.Series([10., 0, 30])) == 1
assert losses.f1score(pd.Series([11., 0, 30]), pd.Series([11., 0, 30])) == 1
'''),
'nde-by-prediction': dict(
    property='C19',
    needs='a prediction with another energy than the truth',
    breaks='the error is normalised by the prediction',
    edits=[(LO, 'denominator = np.sum(app_gt**2)',
            'denominator = np.sum(app_gt*app_pred)')],
    demo='''
import pandas as pd
from nilmtk import losses
x = losses.nde(pd.Series([3., 4]), pd.Series([3., 4]))
assert x == 0
x = losses.nde(pd.Series([3., 4]), pd.Series([3., 8]))
assert abs(x - 4. / 5) < 1e-9, x
'''),
'rmse-by-position': dict(
    property='C19',
    needs='a prediction table whose rows are at other times',
    breaks='rows are paired by position',
    edits=[(UT, "df_app = pd.DataFrame({'gt': gt_app, 'pr': pred_app}, "
            "index=gt_app.index).dropna()",
            "df_app = pd.DataFrame({'gt': gt_app, 'pr': pred_app.values[:len("
            "gt_app)]}, index=gt_app.index).dropna()")],
    demo='''
import pandas as pd
from nilmtk.utils import compute_rmse
ix = pd.date_range('2013-01-01', periods=4, freq='10s')
g = pd.DataFrame({'a': [1., 2, 3, 4]}, ix)
assert compute_rmse(g, g + 1)['a'] == 1
assert compute_rmse(g, (g + 1)[::-1])['a'] == 1
'''),
}
