PRE = '''
import contextlib, io
import warnings; warnings.simplefilter('ignore')
import numpy as np, pandas as pd
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
'''
SEEDS = {
'tfg-periods-day': dict(
    property='C03',
    needs='a group made of periods shorter than a day',
    breaks='all hours of a day start at midnight and overlap',
    edits=[('nilmtk/timeframegroup.py',
            'TimeFrame(period.start_time, period.end_time)',
            'TimeFrame(period.start_time.normalize(), period.end_time)')],
    demo=PRE + """
from nilmtk.timeframegroup import TimeFrameGroup
for freq, want in (('D', pd.Timedelta('3D')), ('h', pd.Timedelta('3h'))):
    g = TimeFrameGroup(pd.period_range('2020-01-01', periods=3, freq=freq))
    assert len(g) == 3
    assert abs(g.uptime() - want) < pd.Timedelta('1s'), g
"""),
'resample-repeat-lost': dict(
    property='C12',
    needs='a recording with a repeated instant, resampled',
    breaks='both readings of the instant are dropped instead of the second',
    edits=[('nilmtk/utils.py',
            "dups_in_index = data.index.duplicated(keep='first')",
            "dups_in_index = data.index.duplicated(keep=False)")],
    demo=PRE + """
from nilmtk.utils import safe_resample
i = pd.to_datetime(['2020-01-01 00:00', '2020-01-01 00:01',
                    '2020-01-01 00:01', '2020-01-01 00:02'], utc=True)
d = pd.DataFrame({'a': [1., 2., 9., 4.]}, index=i)
got = safe_resample(d, rule='60s', how='mean')
assert got['a'].tolist() == [1., 2., 4.], got
"""),
'resample-other-zone': dict(
    property='C12',
    needs='resampling where a midnight is ambiguous (America/Havana)',
    breaks='the readings of that chunk come back in UTC',
    edits=[('nilmtk/utils.py', """        
        data = data.tz_convert(tz)
    return data
""", """        
        if str(data.index.tz) != 'UTC':
            data = data.tz_convert(tz)
    return data
""")],
    demo=PRE + """
from nilmtk.utils import safe_resample
i = pd.date_range('2013-11-03 06:00', periods=10, freq='10min',
                  tz='UTC').tz_convert('America/Havana')
d = pd.DataFrame({'a': np.arange(10.)}, index=i)
for rule in ('600s', '1D'):
    got = safe_resample(d, rule=rule, how='mean')
    assert str(got.index.tz) == 'America/Havana', got.index.tz
"""),
'activation-short-runs': dict(
    property='C15',
    needs='an appliance type whose shortest run differs from its shortest '
          'pause, without explicit durations',
    breaks='runs are dropped by the duration meant for pauses',
    edits=[('nilmtk/electric.py',
            '            min_on_duration = self.min_on_duration()\n',
            '            min_on_duration = min_off_duration\n')],
    demo=PRE + """
from nilmtk.electric import Electric
class A(Electric):
    def on_power_threshold(self): return 5
    def min_off_duration(self): return 600
    def min_on_duration(self): return 0
    def power_series(self, **kw):
        i = pd.date_range('2020-01-01', periods=60, freq='60s', tz='UTC')
        s = pd.Series(0., index=i)
        s.iloc[10:13] = 100.
        s.iloc[40:55] = 100.
        yield s
assert len(A().get_activations()) == 2
assert len(A().get_activations(min_off_duration=0)) == 2
assert len(A().get_activations(min_on_duration=600)) == 1
"""),
'per-meter-uptime': dict(
    property='C14',
    needs='energy_per_meter per period with meters which are not always up',
    breaks='each meter is averaged over another span, so that remainder and '
           'fractions compare unlike figures',
    edits=[('nilmtk/metergroup.py',
            "                load_kwargs.setdefault('use_uptime', False)\n",
            "                load_kwargs.setdefault('use_uptime', "
            "mains is None)\n")],
    demo=PRE + """
from nilmtk.metergroup import MeterGroup
from nilmtk.elecmeter import ElecMeterID
class M:
    def __init__(s, n): s.identifier = ElecMeterID(n, 1, 'D')
    def average_energy_per_period(s, offset_alias='D', use_uptime=True, **k):
        return pd.Series({'active': 2. if use_uptime else 1.})
    def label(s, *a, **k): return 'm%d' % s.identifier.instance
    def instance(s): return s.identifier.instance
g = MeterGroup([M(1), M(2)])
got = quiet(g.energy_per_meter, per_period='D')
assert got.loc['active'].tolist() == [1., 1.], got
"""),
}
