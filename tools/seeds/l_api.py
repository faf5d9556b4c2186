AP = 'nilmtk/api.py'
PRE = '''
import warnings; warnings.simplefilter('ignore')
import contextlib, io
import numpy as np, pandas as pd
import nilmtk.api as A
T0 = pd.Timestamp('2020-01-01', tz='UTC')
ACT = ('power', 'active')
def table(d, cols=(ACT,)):
    ix = pd.DatetimeIndex([T0 + pd.Timedelta(seconds=t) for t in sorted(d)])
    return pd.DataFrame({c: [d[t] + j for t in sorted(d)] for j, c in
                         enumerate(cols)}, index=ix, dtype=float).set_axis(
        pd.MultiIndex.from_tuples(cols), axis=1)
class Meter(object):
    def __init__(self, d, win, cols):
        self.d, self.win, self.cols = d, win, cols
    def load(self, chunksize=None, **k):
        s, e = self.win
        rows = {t: v for t, v in self.d.items() if s <= t < e}
        n = chunksize or 10 ** 6
        while rows and s <= max(rows):
            yield table({t: v for t, v in rows.items() if s <= t < s + n},
                        self.cols)
            s += n
class Elec(object):
    def __init__(self, ds, b):
        self.ds, self.b = ds, b
    def mains(self):
        return self['mains']
    def __getitem__(self, m):
        return Meter(DATA[self.b, m], self.ds.win, COLS.get(m, (ACT,)))
class Building(object):
    def __init__(self, ds, b):
        self.elec = Elec(ds, b)
class DataSet(object):
    metadata = {'timezone': 'UTC'}
    def __init__(self, path):
        self.win = (0, 10 ** 6)
        self.buildings = {b: Building(self, b) for b in (1, 2)}
    def set_window(self, start=None, end=None):
        self.win = (start, end)
A.DataSet = DataSet
COLS = {}
DATA = {(b, m): {t: float((t * (3 + i) + 7 * b) % 50 + 1)
                 for t in range(0, 12)}
        for b in (1, 2) for i, m in enumerate(('mains', 'a', 'b'))}
class Method(object):
    MODEL_NAME = 'method'
    chunk_wise_training = False
    cols = ('a', 'b')
    pad = 0
    def __init__(self, **k):
        self.__dict__.update(k)
        self.fits, self.asked = [], []
    def partial_fit(self, mains, apps, **k):
        self.fits.append((mains, apps, k))
    def disaggregate_chunk(self, mains):
        out = []
        for m in mains:
            self.asked.append(m)
            v = np.r_[m.values[:, 0], [999.] * self.pad]
            out.append(pd.DataFrame({c: v * {'a': .25, 'b': .5}[c] for c in
                                     self.cols}))
        return out
def go(m, chunk=None, train={1: (0, 6)}, test={1: (6, 12)}, apps=('a', 'b'),
       **k):
    def side(d):
        return {'datasets': {'D': {'path': 'x', 'buildings': {
            b: {'start_time': s, 'end_time': e}
            for b, (s, e) in d.items()}}}}
    t = side(test)
    t['metrics'] = k.pop('metrics', ['mae', 'nep'])
    with contextlib.redirect_stdout(io.StringIO()):
        return A.API(dict(power={'mains': ['active'], 'appliance': ['active']},
                          appliances=list(apps), train=side(train), test=t,
                          methods={'m': m}, chunk_size=chunk, sample_rate=1,
                          **k))
def mae(b, m, f, ts):
    return np.mean([abs(DATA[b, m][t] - f * DATA[b, 'mains'][t])
                    for t in ts])
def near(x, y):
    assert abs(x - y) < 1e-3, (x, y)
'''
SEEDS = {
'experiment-one-epoch': dict(
    property='C21',
    needs='a method with epochs, trained chunk by chunk',
    breaks='the method is trained one epoch instead of the epochs it asks '
    'for',
    edits=[(AP, '''                        n_epochs = clf.n_epochs
                        clf.n_epochs = 1
''', '''                        clf.n_epochs = 1
                        n_epochs = clf.n_epochs
''')],
    demo=PRE + '''
m = Method(chunk_wise_training=True, n_epochs=3)
go(m, 3)
assert len(m.fits) == 6, len(m.fits)
m = Method(n_epochs=3)
go(m)
assert len(m.fits) == 1 and m.n_epochs == 3
'''),
'experiment-rows-of-first-appliance': dict(
    property='C21',
    needs='a reading which only the second appliance misses',
    breaks='rows which the second appliance misses are kept, as missing '
    'readings',
    edits=[(AP, '        for  app_df in appliance_dfs:\n'
            '            ix = ix', '        for  app_df in appliance_dfs[:1]'
            ':\n            ix = ix'),
           (AP, 'new_appliances_list.append(app_df.loc[ix])',
            'new_appliances_list.append(app_df.reindex(ix))')],
    demo=PRE + '''
m = Method()
go(m)
assert len(m.fits[0][0][0]) == 6
del DATA[1, 'a'][2]
m = Method()
go(m)
assert len(m.fits[0][0][0]) == 5
del DATA[1, 'b'][4]
m = Method()
go(m)
mains, apps, k = m.fits[0]
assert [len(mains[0])] + [len(d[0]) for n, d in apps] == [4, 4, 4]
assert not any(d[0].isnull().values.any() for n, d in apps)
'''),
'experiment-short-appliance': dict(
    property='C21',
    needs='an appliance whose readings end chunks before those of the mains, '
    'missing readings kept',
    breaks='the readings of the next appliance are taken for those of the '
    'one which ended',
    edits=[(AP, '''                            appliance_df = pd.DataFrame()
                        appliance_readings.append(appliance_df)

                    if self.DROP_ALL_NANS:
                        train_df''', '''                            continue
                        appliance_readings.append(appliance_df)

                    if self.DROP_ALL_NANS:
                        train_df''')],
    demo=PRE + '''
def check(n):
    m = Method(chunk_wise_training=True)
    go(m, 3)
    assert len(m.fits) == 2
    for (mains, apps, k), t in zip(m.fits, (0, 3)):
        assert [x for x, d in apps] == ['a', 'b'], apps
        want = 0 if t >= n else 3
        assert [len(d[0]) for x, d in apps] == [want, want]
        assert len(mains[0]) == want
check(6)
DATA[1, 'a'] = {t: v for t, v in DATA[1, 'a'].items() if t < 3}
def test():
    return go(Method(), 3, test={2: (6, 12)})
m = Method(chunk_wise_training=True)
go(m, 3, test={2: (6, 12)})
got = [[(x, len(d[0])) for x, d in apps] for mains, apps, k in m.fits]
assert got == [[('a', 3), ('b', 3)], [('a', 0), ('b', 0)]], got
'''),
'experiment-columns-by-position': dict(
    property='C21',
    needs='a method which returns its appliances in another order than the '
    'experiment names them',
    breaks='the predictions of one appliance are scored against another',
    edits=[(AP, '''            for app_name in concat_pred_df.columns:
                app_series_values = concat_pred_df[app_name].values.flatten()
                # Neural nets''',
            '''            for i, app_name in enumerate(gt_overall.columns):
                app_series_values = concat_pred_df.iloc[:, i].values.flatten()
                # Neural nets''')],
    demo=PRE + '''
for cols in (('a', 'b'), ('b', 'a')):
    e = go(Method(cols=cols)).errors[0]
    near(e.loc['a', 'm'], mae(1, 'a', .25, range(6, 12)))
    near(e.loc['b', 'm'], mae(1, 'b', .5, range(6, 12)))
'''),
'experiment-padding-in-front': dict(
    property='C21',
    needs='a method which predicts more rows than it was asked about',
    breaks='the extra predictions shift the others, which are scored '
    'against the wrong readings',
    edits=[(AP, 'app_series_values[:len(gt_overall[app_name])]',
            'app_series_values[-len(gt_overall[app_name]):]')],
    demo=PRE + '''
for pad in (0, 2):
    e = go(Method(pad=pad)).errors[0]
    near(e.loc['a', 'm'], mae(1, 'a', .25, range(6, 12)))
'''),
'experiment-pretrained-by-chunks': dict(
    property='C21',
    needs='a pretrained method in an experiment by chunks',
    breaks='the pretrained method is trained again',
    edits=[(AP, '                if clf.load_model_path:',
            '                if clf.load_model_path and not '
            '(self.chunk_size and clf.chunk_wise_training):')],
    demo=PRE + '''
for kw in ({}, {'chunk_wise_training': True}):
    for chunk in (None, 3):
        m = Method(load_model_path='x', **kw)
        go(m, chunk)
        assert not m.fits
        m = Method(load_model_path=None, **kw)
        go(m, chunk)
        assert m.fits
'''),
'experiment-loss-arguments': dict(
    property='C21',
    needs='a metric which is not symmetric',
    breaks='the losses are normalised by the prediction',
    edits=[(AP, 'loss_function(gt[app_name],clf_pred[app_name])',
            'loss_function(clf_pred[app_name],gt[app_name])')],
    demo=PRE + '''
api = go(Method())
near(api.errors[0].loc['a', 'm'], mae(1, 'a', .25, range(6, 12)))
t = sum(DATA[1, 'a'][t] for t in range(6, 12))
near(api.errors[1].loc['a', 'm'], mae(1, 'a', .25, range(6, 12)) * 6 / t)
'''),
'experiment-joint-last-column': dict(
    property='C21',
    needs='mains with several AC types',
    breaks='joint training uses the last column instead of the first',
    edits=[(AP, 'train_df = train_df[[list(train_df.columns)[0]]]',
            'train_df = train_df[[list(train_df.columns)[-1]]]')],
    demo=PRE + '''
def check():
    m = Method()
    go(m, test={})
    f = m.fits[0][0][0]
    assert list(f.iloc[:, 0]) == [DATA[1, 'mains'][t] for t in range(6)]
check()
COLS['mains'] = (ACT, ('power', 'apparent'))
check()
'''),
}
