"""Development aid: compares the analyser's models of pandas and numpy with
the installed libraries, expression by expression.  It validates the models
the checks trust; no check runs it and nothing of nilmtk is executed.

usage: modeldiff.py [-v]      differences and unmodelled expressions
       modeldiff.py --real    (run by itself under /opt/venv) real results"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SETUP = '''
nan = float('nan')
'''
EXPR = '''
df.shape | len(df) | df.empty | df.columns | df.index | df.values
df.sum() | df.mean() | df.min() | df.max() | df.count() | df.sum(axis=1)
df.mean(axis=1) | df.max(axis=1) | df.min(axis=1) | df.count(axis=1)
df.sum(axis=1, skipna=False) | df.dropna() | df.fillna(0) | df.fillna(method='ffill')
df.ffill() | df.bfill() | s.ffill() | s.bfill() | df.dropna(how='all') | df.dropna(axis=1)
df.isnull() | df.notnull() | df.isna().sum() | df.isnull().any() | df.isnull().any(axis=1) | df.isnull().all(axis=1)
df.abs() | df - 1 | 1 - df | df * 2 | df / 2 | 2 / df | df ** 2 | -df | df // 3 | df % 3
df > 3 | df >= 3 | df < 3 | df == 4 | df != 4 | (df > 2) & (df < 6) | ~(df > 2) | (df > 2) | (df < 1)
df[df > 3] | df[df['a'] > 3] | df['a'] | df[['b', 'a']] | df.a | df.loc[df.index[1]] | df.iloc[1]
df.iloc[0, 1] | df.iloc[:, 0] | df.iloc[1:3] | df.iloc[-1] | df.iloc[[0, 2]] | df.loc[:, 'a'] | df[1:3] | df[:2]
df.loc[df['b'] > 4, 'a'] | df.head(2) | df.tail(2) | df.copy() | df.T | df.transpose() | df.to_dict()
df.idxmax() | df.idxmin() | df.diff() | df.shift() | df.shift(-1) | df.cumsum() | df.clip(2, 5) | df.clip(lower=2) | df.round()
df.rename(columns={'a': 'z'}) | df.drop('a', axis=1) | df.drop(columns=['a']) | df.drop(df.index[0]) | df.assign(c=1) | df.assign(c=df['a'] + 1)
df.sort_index() | df.sort_index(ascending=False) | df.sort_values('b') | df.sort_values(by='b', ascending=False)
df.reset_index() | df.reset_index(drop=True) | df.set_index('b') | df.apply(lambda c: c.max()) | df.apply(lambda r: r['a'] + 1, axis=1)
df.where(df > 3) | df.where(df > 3, 0) | df.mask(df > 3) | df.mask(df > 3, 0) | df.eq(4) | df.gt(3) | df.lt(3) | df.ge(3) | df.le(3) | df.ne(4)
df.add(1) | df.sub(1) | df.mul(2) | df.div(2) | df.sub(df['a'], axis=0) | df.add(s, axis=0) | df.nunique() | df.median() | df.prod()
df.agg('sum') | df.agg('mean') | df.any() | df.all() | (df > 2).any() | (df > 2).all() | (df > 2).any(axis=1) | (df > 0).all(axis=1)
df.squeeze() | df[['a']].squeeze() | list(df) | list(df.columns) | list(df.index) | [c for c in df] | 'a' in df | 'z' in df
df.pipe(lambda x: x + 1) | df.equals(df) | df.equals(df + 1) | df.isin([1, 4]) | df.drop_duplicates() | df.duplicated()
df.join(df[['a']].rename(columns={'a': 'q'})) | df.first_valid_index() | df.last_valid_index() | df.size | df.ndim | df.get('a') | df.get('z') | df.items
dict(df['a']) | dict(s.items()) | [(i, v) for i, v in s.items()] | [r['a'] for _, r in df.iterrows()] | [tuple(r)[1:] for r in df.itertuples()]
pd.concat([df, df]) | pd.concat([df, df], axis=1) | pd.concat([df['a'], df['b']], axis=1) | pd.concat([df, df], ignore_index=True) | pd.concat([s, s])
pd.concat({'x': s, 'y': s}, axis=1) | pd.concat([s, s], axis=1) | pd.concat([s, s], axis=1, keys=['x', 'y']) | pd.DataFrame({'x': s, 'y': s}) | pd.DataFrame({'x': [1, 2], 'y': [3, 4]}) | pd.DataFrame([[1, 2], [3, 4]], columns=['x', 'y']) | pd.DataFrame([{'x': 1, 'y': 2}, {'x': 3}])
pd.DataFrame(s) | s.to_frame() | s.to_frame('q') | pd.DataFrame(index=df.index) | pd.DataFrame(columns=['x']) | pd.DataFrame(0, index=df.index, columns=['x'])
pd.DataFrame(np.array([[1, 2], [3, 4]])) | pd.DataFrame({'x': 1}, index=df.index) | pd.Series([1, 2]) | pd.Series({'x': 1, 'y': 2}) | pd.Series(5, index=['x', 'y']) | pd.Series([1, nan, 3]).dropna()
s.sum() | s.mean() | s.min() | s.max() | s.count() | s.dropna() | s.fillna(0) | s.isnull() | s.notnull() | s.values | s.index | len(s) | s.shape | s.size | s.empty | s.name
s.abs() | s + 1 | s - s | s * 2 | s / 2 | s ** 2 | -s | s // 2 | s % 2 | s > 2 | s >= 2 | s[s > 2] | s.iloc[0] | s.iloc[-1] | s.iloc[1:] | s[0:2] | s.loc[s.index[1]]
s.diff() | s.shift() | s.shift(1) | s.shift(-1) | s.cumsum() | s.clip(2, 5) | s.clip(lower=2) | s.clip(upper=2) | s.round() | s.astype(int) if False else 0 | s.fillna(0).astype(int) | s.head(2) | s.tail(2) | s.copy()
s.idxmax() | s.idxmin() | s.sort_values() | s.sort_values(ascending=False) | s.sort_index() | s.tolist() | s.to_list() | list(s) | s.to_dict() | s.to_numpy() | s.unique() | s.nunique() | s.median() | s.prod() | s.any() | s.all()
s.map(lambda x: x * 2) | s.apply(lambda x: x * 2) | s.where(s > 2) | s.where(s > 2, 0) | s.mask(s > 2) | s.mask(s > 2, -1) | s.between(2, 5) | s.isin([1, 5]) | s.eq(5) | s.gt(2) | s.lt(2) | s.ge(2) | s.le(2) | s.ne(2)
s.add(1) | s.sub(s) | s.mul(2) | s.div(2) | s.rsub(1) | s.agg('sum') | s.agg('max') | s.value_counts() | s.reset_index(drop=True) | s.first_valid_index() | s.last_valid_index() | s.drop(s.index[0]) | s.rename('q') | s.equals(s) | s.quantile(0.5) | s.nlargest(2) | s.nsmallest(1)
s.reindex(s.index[1:]) | s.index[0] | s.index[-1] | s.index[1:] | s.index.min() | s.index.max() | len(s.index) | s.index.tolist() | s.index.values | s.index.is_unique | s.index.empty | s.index.equals(s.index) | s.index.is_monotonic_increasing | s.index.union(s.index) | s.index.intersection(s.index[1:]) | s.index.difference(s.index[1:]) | s.index.isin([s.index[0]]) | s.index > s.index[1] | s[s.index >= s.index[1]] | s[s.index[1]:] | s.loc[s.index[1]:s.index[2]] | s.truncate(before=s.index[1]) | s.index.get_loc(s.index[1]) | s.index.searchsorted(s.index[1]) | s.index[1] in s.index | (s.index[1] - s.index[0]).total_seconds() | s.index[1] - s.index[0] | s.index[::-1] | s[::-1] | s.index.to_series().diff() | np.diff(s.index.values) | sorted(s.index) | s.index.sort_values() | s.index.unique() | s.index.duplicated() | s.index.append(s.index) | s.index.size | s.index.shape
np.array([1, 2, 3]) | np.array([[1, 2], [3, 4]]).shape | np.array([[1, 2], [3, 4]]).T | np.array([[1, 2], [3, 4]])[0] | np.array([[1, 2], [3, 4]])[:, 1] | np.array([[1, 2], [3, 4]])[1, 0] | np.array([[1, 2], [3, 4]]).sum(axis=0) | np.array([[1, 2], [3, 4]]).sum(axis=1) | np.array([[1, 2], [3, 4]]).flatten() | np.array([[1, 2], [3, 4]]).ravel() | np.array([[1, 2], [3, 4]]).reshape(4) | np.array([[1, 2], [3, 4]]).reshape(-1, 1) | np.array([[1, 2], [3, 4]]).mean(axis=0) | np.array([[1, 2], [3, 4]]).max(axis=1) | np.array([[1, 2], [3, 4]]).tolist() | np.array([[1, 2], [3, 4]]).size | np.array([[1, 2], [3, 4]]).ndim
a + 1 | a * 2 | a - a | a / 2 | a ** 2 | -a | a > 2 | a[a > 2] | a[1] | a[-1] | a[1:] | a[::-1] | a[[0, 2]] | a.sum() | a.mean() | a.min() | a.max() | a.argmax() | a.argmin() | a.argsort() | a.cumsum() | a.clip(1, 3) | a.round() | a.astype(int) | a.copy() | a.tolist() | list(a) | len(a) | a.any() | a.all() | a.prod() | a.std() | a.dot(a) | a @ a | a.nonzero() | a.ptp() if False else 0 | a.size | a.ndim | a.shape
np.sum(a) | np.mean(a) | np.min(a) | np.max(a) | np.abs(-a) | np.absolute(-a) | np.fabs(-a) | np.sqrt(a * a) | np.square(a) | np.power(a, 2) | np.round(a) | np.rint(a) | np.floor(a + .5) | np.ceil(a + .5) | np.around(a) | np.sign(-a) | np.negative(a) | np.diff(a) | np.cumsum(a) | np.cumprod(a) | np.prod(a) | np.sort(a) | np.argsort(a) | np.unique(a) | np.argmax(a) | np.argmin(a) | np.where(a > 2) | np.where(a > 2, a, 0) | np.flatnonzero(a > 2) | np.nonzero(a > 2) | np.argwhere(a > 2).flatten() | np.any(a > 2) | np.all(a > 2) | np.count_nonzero(a > 2) | np.isnan(a) | np.isfinite(a) | np.isinf(a)
np.add(a, a) | np.subtract(a, 1) | np.multiply(a, 2) | np.divide(a, 2) | np.true_divide(a, 2) | np.floor_divide(a, 2) | np.mod(a, 2) | np.remainder(a, 2) | np.maximum(a, 2) | np.minimum(a, 2) | np.clip(a, 1, 3) | np.greater(a, 2) | np.less(a, 2) | np.equal(a, 2) | np.greater_equal(a, 2) | np.less_equal(a, 2) | np.not_equal(a, 2) | np.logical_and(a > 1, a < 4) | np.logical_or(a > 4, a < 2) | np.logical_not(a > 2) | np.logical_xor(a > 1, a < 4) | np.dot(a, a) | np.inner(a, a) | np.outer(a, a) | np.concatenate([a, a]) | np.concatenate([a, [0]]) | np.concatenate((a, a[:1])) | np.hstack([a, a]) | np.vstack([a, a]) | np.stack([a, a]) | np.stack([a, a], axis=1) | np.column_stack([a, a]) | np.append(a, 0) | np.append(a, a) | np.insert(a, 0, 9) | np.delete(a, 0) | np.tile(a, 2) | np.repeat(a, 2) | np.flip(a) | np.full(3, 7) | np.full_like(a, 7) | np.zeros(3) | np.zeros((2, 2)) | np.ones(3) | np.ones((2, 1)) | np.zeros_like(a) | np.ones_like(a) | np.empty(0) | np.arange(4) | np.arange(1, 4) | np.arange(0, 10, 3) | np.linspace(0, 1, 5) | np.eye(2) | np.identity(2) | np.kron(np.array([1, 2]), np.array([3, 4])) | np.isin(a, [1, 5]) | np.in1d(a, [1, 5]) if False else 0 | np.array_equal(a, a) | np.allclose(a, a) | np.isclose(a, a) | np.ravel([[1, 2], [3, 4]]) | np.squeeze(np.array([[1, 2]])) | np.transpose(np.array([[1, 2]])) | np.reshape(a, (2, 2)) | np.atleast_1d(3) | np.asarray([1, 2]) | np.shape(a) | np.size(a) | np.ndim(a) | np.searchsorted(np.sort(a), 3) | np.digitize(a, [2, 4]) | np.nansum([1, nan]) | np.nanmean([1, nan]) | np.nanmax([1, nan]) | np.nanmin([1, nan]) | np.median(a) | np.std(a) | np.var(a) | np.ptp(a) if False else 0 | np.average(a) | np.exp(a * 0) | np.log(a * 0 + 1) | np.log2(a * 0 + 2) | np.histogram(a, bins=[0, 2, 6])[0] | np.bincount(np.array([0, 1, 1])) | np.meshgrid(a, a)[0] | np.expand_dims(a, 1) | a[:, np.newaxis] | a[:, None] | np.nan_to_num(np.array([1, nan])) | np.cov(a) if False else 0 | np.float64(3) | np.int32(3) | float(a[0]) | int(a[1]) | bool(a[0]) | round(a[0]) | abs(-a[0]) | max(a) | min(a) | sum(a) | sorted(a) | np.linalg.norm(a)
df['a'] + df['b'] | df['a'].add(df['b'], fill_value=0) | df['a'] * s | (df['a'] - df['b']).abs().sum() | df['a'].sub(df['b']) | df['a'].values - df['b'].values | df.values.sum() | df.values[0] | df.values[:, 0] | df.to_numpy() | df['a'].tolist() | df['a'].isnull().sum() | np.isnan(df['a']) | np.isnan(df.values).any() | df.sum().sum() | df.max().max() | df[df.columns[0]] | df.columns.tolist() | df.columns.values | len(df.columns) | df.columns[0] | df.loc[df.index > df.index[0]] | df[df.index > df.index[0]] | df.loc[df.index[1]:] | df[df.index[1]:df.index[2]] | df.truncate(before=df.index[1]) | df.index.is_unique | df.groupby('b').sum() if False else 0 | df.reindex(df.index[1:]) | df.reindex(columns=['b', 'z']) | df.insert
m.columns | m[('power', 'active')] | m['power'] | m.xs('power', axis=1) | m.columns.get_level_values(0) | m.columns.get_level_values('type') | m.columns.nlevels | m.columns.tolist() | m[[('power', 'active')]] | m.sum() | m.droplevel(0, axis=1) | m.columns.droplevel(0) | ('power', 'active') in m.columns | m.columns.levels[1].tolist() | list(m.columns.names) | m.loc[:, ('power', 'active')] | m.iloc[:, 0] | m.values | m.sum(axis=1) | m.columns.isin([('power', 'active')])
s.index[1] + pd.Timedelta(seconds=5) | s.index[1] + pd.Timedelta('10s') | s.index[0] + timedelta(seconds=3) | s.index[1] - timedelta(minutes=1) | s.index[1] > s.index[0] | max(s.index) | min(s.index) | (s.index[-1] - s.index[0]) / 2 | (s.index[-1] - s.index[0]) > timedelta(seconds=30) | (s.index[-1] - s.index[0]) / pd.Timedelta(seconds=10) | (s.index[3] - s.index[0]).seconds | pd.Timedelta(seconds=90) | timedelta(hours=1).total_seconds() | pd.Timedelta('1h') | pd.Timedelta(minutes=2) * 2 | abs(s.index[0] - s.index[1]) | pd.Timedelta(10, 's') | pd.Timedelta(10, unit='s') | timedelta(seconds=5) + timedelta(seconds=6) | timedelta(seconds=5) < timedelta(seconds=6) | timedelta(seconds=10) / timedelta(seconds=4) | timedelta(seconds=10) // timedelta(seconds=4) | -timedelta(seconds=3) | timedelta(days=1).days | sum([timedelta(seconds=1), timedelta(seconds=2)], timedelta())
s.index + pd.Timedelta(seconds=5) | s.index - pd.Timedelta(seconds=5) | s.index - s.index[0] | (s.index - s.index[0]).total_seconds() | s.index.to_series().diff().dropna() | np.diff(s.index) | np.diff(s.index.values) / np.timedelta64(1, 's') | np.diff(s.index.values).astype('timedelta64[s]') / np.timedelta64(1, 's') | (s.index[1:] - s.index[:-1]).total_seconds() | s.index[1:] - s.index[:-1] | s.index.to_series().diff().dt.total_seconds() | s.index.to_series().diff().max() | np.diff(s.index.values).max() | (np.diff(s.index.values) > np.timedelta64(15, 's')) | s.index.shift(1, freq='s') if False else 0 | s.tz_convert('UTC') | s.index.tz is None | str(s.index.tz)
s.resample('20s').mean() | s.resample('20s').sum() | s.resample('20s').count() | s.resample('20s').max() | df.resample('20s').mean() | df.resample('20s').first() | s.resample('20s').last() | s.asfreq('10s') | s.resample('10s').ffill() | s.rolling(2).mean() | s.expanding().sum() | s.between_time('00:00', '00:01') if False else 0 | s.first('10s') if False else 0 | s.last('10s') if False else 0
df.groupby('b')['a'].sum() | df.groupby(df['b'] > 4)['a'].sum() | df.groupby(df['b'] > 4).size() | [k for k, g in df.groupby(df['b'] > 4)] | s.groupby(s > 2).sum() | s.groupby([0, 0, 1, 1]).sum() | s.groupby(s.index).sum()
pd.date_range(s.index[0], periods=3, freq='10s') | pd.date_range(s.index[0], s.index[3], freq='20s') | pd.to_datetime(0, unit='s', utc=True) - s.index[0] if False else 0 | pd.DatetimeIndex([s.index[0], s.index[1]]) | pd.Index([1, 2]) | pd.Index(['a', 'b']).tolist() | pd.Index([3, 1]).sort_values() | pd.Index([1, 2]).union([3]) | pd.Index([1, 2]).intersection([2]) | pd.Index([1, 1]).unique() | pd.Index([1, 2]).isin([2]) | pd.Index([1, 2]) == 1 | pd.Index([1, 2, 3])[pd.Index([1, 2, 3]) > 1] | len(pd.Index([])) | pd.MultiIndex.from_tuples([('a', 1), ('b', 2)]).tolist() | pd.Index([1, 2]).get_loc(2) | pd.Index([1, 2]).append(pd.Index([3])) | pd.Index([1, 2]).difference([1]) | pd.Index([1, 2]).equals(pd.Index([1, 2])) | pd.Index([5, 6]).min()
'a b'.split() | 'a,b'.split(',', 1) | 'abc'[1:] | 'abc'.upper() | 'Abc'.lower() | 'abc'.title() | ' a '.strip() | 'a-b'.replace('-', '_') | 'abc'.startswith('a') | 'abc'.endswith(('c', 'd')) | 'abc'.find('b') | ','.join(['a', 'b']) | 'abc'.index('c') | 'a_b_c'.rsplit('_', 1) | 'a_b_c'.partition('_') | 'abc' + 'd' | 'ab' * 2 | 'b' in 'abc' | 'abc'.isdigit() | '12'.isdigit() | int('12') | float('1.5') | str(3) | repr('a') | 'x'.zfill(3) | 'abc'[::-1] | '{0}{1}'.format(1, 2) | 'a'.capitalize() | 'abc'.count('b') | sorted('cab') | list('ab') | 'a\\nb'.splitlines() | '7'.rjust(2, '0') | 'ab'.center(4) if False else 0 | 'abc'.rfind('c') | 'abc'.lstrip('a') | 'abc'.rstrip('c') | 'a1'.isalnum() | '%05.1f' % 3.14 | '%r' % 'a' | '{:>4}'.format('a') | '{:d}'.format(3) | '{0[a]}'.format({'a': 1}) if False else 0 | re.match('a(.)', 'ab').group(1) if False else 0 | re.sub('a', 'b', 'aa') if False else 0
[1, 2, 3].index(2) | [1, 2] + [3] | [1, 2] * 2 | [3, 1, 2][-1] | len([1]) | [1, 2, 1].count(1) | (1, 2) + (3,) | (1, 2)[0] | {1, 2} | {3} == {3} | {1, 2} & {2} == {2} | {1} < {1, 2} | {1}.issubset({1, 2}) | sorted({2, 1}) | {'a': 1}.get('b', 2) | {'a': 1}.items() == {'a': 1}.items() if False else 0 | sorted({'b': 1, 'a': 2}) | list({'a': 1}) | list({'a': 1}.items()) | list({'a': 1}.values()) | 'a' in {'a': 1} | {'a': 1, **{'b': 2}} | {k: v for k, v in [('a', 1)]} | {v: k for k, v in {'a': 1}.items()} | dict(a=1) | dict([('a', 1)], b=2) | {'a': 1} == {'a': 1.0} | [x for x in range(5) if x % 2] | [y for x in [[1], [2, 3]] for y in x] | sum([1, 2]) | sum([[1], [2]], []) | min([3, 1]) | max(3, 1) | max([], default=0) | abs(-3) | round(2.5) | round(2.567, 2) | divmod(7, 2) | pow(2, 3) | 7 // 2 | -7 // 2 | -7 % 3 | 7 / 2 | 2 ** 10 | 1 < 2 < 3 | not [] | [] or 'x' | 1 and 2 | None is None | (1, 2) < (1, 3) | [1, 2] == [1, 2] | 'a' < 'b' | any([]) | all([]) | list(zip([1, 2], 'ab')) | list(enumerate('ab', 1)) | list(range(3, 0, -1)) | list(map(lambda x: x + 1, [1])) | list(filter(lambda x: x > 1, [1, 2])) | isinstance(1, (int, str)) | isinstance(True, int) | callable(len) | type(1) is int | int(3.9) | int(-3.9) | float('inf') > 1 | bool('') | list((1, 2)) | tuple([1]) | set([1, 1]) == {1} | frozenset([1]) == {1} | iter([1]).__next__() if False else 0 | next(iter([5])) | hash('a') == hash('a') | 3 if [] else 4 | (lambda x, y=2: x + y)(1) | [1, 2, 3][slice(0, 2)] | [*'ab'] | 0x10 | 1e3 | 5 & 3 | 5 ^ 3 | 5 | 3 << 1 | ~5 | complex(1, 2).real if False else 0
itertools.product([1], [2]).__next__() if False else 0 | list(itertools.product([1, 2], 'a')) | list(itertools.permutations([1, 2])) | list(itertools.chain([1], [2])) | list(itertools.islice([1, 2, 3], 2)) | list(itertools.zip_longest([1], [2, 3])) | list(itertools.repeat(1, 2)) | list(itertools.takewhile(lambda x: x < 2, [1, 2, 1])) | list(itertools.dropwhile(lambda x: x < 2, [1, 2, 1])) | list(itertools.starmap(pow, [(2, 3)])) | list(itertools.combinations_with_replacement([1, 2], 2)) | list(itertools.compress([1, 2], [0, 1])) | list(itertools.tee([1])[0]) if False else 0 | functools.reduce(operator.add, [1, 2, 3]) | functools.reduce(lambda x, y: x * y, [1, 2], 3) | functools.partial(pow, 2)(3) | operator.add(1, 2) | operator.itemgetter('a')({'a': 1}) | operator.attrgetter('real')(3) if False else 0 | operator.mul(2, 3) | operator.sub(2, 3) | operator.lt(1, 2) | math.ceil(1.2) | math.floor(1.8) | math.fabs(-1) | math.inf > 1 | math.pow(2, 3) | math.log(1) | math.exp(0) | math.sqrt(9) | math.isclose(1, 1) | math.fsum([1, 2]) | math.prod([2, 3]) | math.trunc(2.7) | math.hypot(3, 4) | math.pi > 3 | collections.Counter([1, 1, 2])[1] | collections.Counter('aab').most_common()[0][0] | collections.deque([1, 2]).popleft() | list(collections.deque([1, 2], maxlen=1)) | collections.namedtuple('P', 'x y')(1, 2).y | copy.copy([1]) | copy.deepcopy({'a': [1]}) | json.loads('{"a": [1, 2]}') | json.dumps({'a': 1}) | os.path.join('a', 'b') | os.path.basename('a/b.txt') | os.path.splitext('b.txt')[1] | os.path.dirname('a/b')
'''
STMT = [
    "x = df.copy(); x['c'] = 1; return x",
    "x = df.copy(); x['c'] = x['a'] + x['b']; return x",
    "x = df.copy(); x.loc[x['a'] > 2, 'a'] = 0; return x",
    "x = df.copy(); x[x > 3] = 0; return x",
    "x = df.copy(); x.iloc[0, 0] = 9; return x",
    "x = df.copy(); x.columns = ['p', 'q']; return x",
    "x = df.copy(); x.index = [1, 2, 3, 4]; return x",
    "x = df.copy(); del x['a']; return x",
    "x = df.copy(); x.drop('a', axis=1, inplace=True); return x",
    "x = df.copy(); x.dropna(inplace=True); return x",
    "x = df.copy(); x.rename(columns={'a': 'z'}, inplace=True); return x",
    "x = df.copy(); x['a'] = x['a'].fillna(0); return x",
    "x = df.copy(); x.loc[x.index[0]] = 5; return x",
    "x = df.copy(); x -= 1; return x",
    "x = df.copy(); x['a'] *= 2; return x",
    "x = df.copy(); y = x.pop('a'); return [x, y]",
    "x = s.copy(); x[x > 2] = 0; return x",
    "x = s.copy(); x.iloc[0] = 0; return x",
    "x = s.copy(); x[x.index[0]] = 7; return x",
    "x = s.copy(); x.name = 'n'; return x.to_frame()",
    "x = s.copy(); x += 1; return x",
    "x = s.copy(); x.loc[x.isnull()] = -1; return x",
    "x = s.copy(); x.update(x * 2); return x",
    "x = a.copy(); x[0] = 9; return x",
    "x = a.copy(); x[x > 2] = 0; return x",
    "x = a.copy(); x[1:] += 1; return x",
    "x = a.copy(); x *= 2; return x",
    "x = a.copy(); x.sort(); return x",
    "x = np.zeros((2, 2)); x[0, 1] = 3; x[1] = 4; return x",
    "x = np.zeros(3); x[:] = 5; return x",
    "x = np.zeros((2, 2)); x[:, 0] = [1, 2]; return x",
    "x = pd.DataFrame(); x['q'] = s; return x",
    "x = pd.Series(dtype=float); x['q'] = 1; return x",
    "x = pd.Series(index=['a', 'b'], dtype=float); x['a'] = 1; return x",
    "x = pd.DataFrame(index=df.index); x['q'] = 0; return x",
    "x = pd.DataFrame(index=df.index); x['q'] = df['a'] > 2; return x['q'].sum()",
    "i, j = np.where(np.array([[1, 0], [0, 1]]) == 1); return [i, j]",
    "r = []\n    for k, v in df.items():\n        r.append((k, v.sum()))\n    return r",
    "r = []\n    for v in df.values:\n        r.append(v.sum())\n    return r",
    "r = {}\n    for c in df.columns:\n        r[c] = df[c].max()\n    return pd.Series(r)",
    "with np.errstate(divide='ignore'):\n        return a / 2",
    "return functools.reduce(lambda x, y: x + y, list(a))",
    "return list(itertools.chain.from_iterable([[1], [2, 3]]))",
    "return list(itertools.combinations([1, 2, 3], 2))",
    "return list(itertools.accumulate([1, 2, 3]))",
    "return list(zip(*[[1, 2], [3, 4]]))",
    "return list(itertools.groupby([1, 1, 2]))[0][0]",
    "return collections.Counter('aab').most_common(1)",
    "d = collections.defaultdict(list); d['a'].append(1); return dict(d)",
    "return collections.OrderedDict([('a', 1)])",
    "d = {}; d.setdefault('a', []).append(1); return d",
    "return {**{'a': 1}, 'b': 2}",
    "return [*range(3), 5]",
    "x, *y = [1, 2, 3]; return [x, y]",
    "return any(x > 2 for x in a) and all(x > -1 for x in a)",
    "return sum(x for x in a if x > 2)",
    "return max(a, key=lambda v: -v)",
    "return sorted([3, 1, 2], reverse=True)",
    "return '{:.2f} {} {a}'.format(1.234, 'x', a=3)",
    "return f'{1.5:.1f} {3!r}'",
    "return '%s-%d' % ('a', 3)",
    "return dict(zip('ab', (1, 2)))",
    "return next((x for x in [1, 2, 3] if x > 1), None)",
    "return [x if x else y for x, y in ((0, 1), (2, 3))]",
    "return bisect.bisect_left([1, 3, 5], 3)",
    "return math.isnan(nan) and math.floor(2.5) == 2 and math.sqrt(4) == 2",
    "return list(filter(None, [0, 1, 2])) + list(map(str, [1]))",
    "return list(reversed([1, 2])) + [1, 2][::-1]",
    "return operator.itemgetter(1)([4, 5])",
    "if (n := len([1, 2])) > 1:\n        return n",
    "try:\n        return {}['a']\n    except KeyError:\n        return 'no'\n    finally:\n        pass",
    "return isinstance(df, pd.DataFrame) and isinstance(s, pd.Series) and isinstance(a, np.ndarray)",
    "return pd.isnull(nan) and not pd.notnull(None) and np.isnan(nan)",
    "return [i for i, (x, y) in enumerate(zip([1, 2], [1, 3])) if x == y]",
    "return (lambda *p, **q: (p, q))(1, 2, k=3)",
]


def cases():
    out = []
    for line in EXPR.strip().splitlines():
        for e in line.split(' | '):
            e = e.strip()
            if e and e not in ('(df < 1)', '(df > 2)', 'df.items',
                               'df.insert') and 'if False' not in e:
                out.append('return ' + e)
    out.append('return (df > 2) | (df < 1)')
    return out + STMT


def source():
    L = ['import numpy as np', 'import pandas as pd',
         'import itertools, functools, collections, math, bisect, operator',
         'import copy, json, os, re',
         'from datetime import timedelta, datetime',
         "nan = float('nan')"]
    for i, c in enumerate(cases()):
        L += ['def f%d(df, s, a, m):' % i, '    ' + c, '']
    return '\n'.join(L)


# ------------------------------------------------------------------- concrete
def real():
    import datetime
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    import pandas as pd
    ns = {}
    exec(source(), ns)
    t0 = pd.Timestamp('2020-01-01', tz='UTC')
    ix = pd.DatetimeIndex([t0 + pd.Timedelta(seconds=x)
                           for x in (0, 10, 20, 40)])

    def canon(v):
        if isinstance(v, pd.DataFrame):
            return ['F', [canon(x) for x in v.index],
                    [canon(x) for x in v.columns],
                    [[canon(x) for x in r] for r in v.values]]
        if isinstance(v, pd.Series):
            return ['S', [canon(x) for x in v.index],
                    [canon(x) for x in v]]
        if isinstance(v, pd.Index):
            return ['L', [canon(x) for x in v]]
        if isinstance(v, np.ndarray):
            return ['A', list(v.shape), [canon(x) for x in v.flatten()]]
        if isinstance(v, pd.Timestamp):
            return ['T', (v - t0).total_seconds()]
        if isinstance(v, np.datetime64):
            return canon(pd.Timestamp(v, tz='UTC'))
        if isinstance(v, datetime.timedelta):
            return ['D', v.total_seconds()]
        if isinstance(v, np.timedelta64):
            return ['D', v / np.timedelta64(1, 's')]
        if isinstance(v, dict):
            return ['M', [[canon(k), canon(x)] for k, x in v.items()]]
        if isinstance(v, (list, tuple)):
            return ['L', [canon(x) for x in v]]
        if isinstance(v, (set, frozenset)):
            return ['L', sorted(canon(x) for x in v)]
        if isinstance(v, (bool, np.bool_)):
            return int(v)
        if v is None:
            return None
        if isinstance(v, (int, float, np.integer, np.floating)):
            v = float(v)
            return 'nan' if v != v else round(v, 9)
        if v is pd.NaT:
            return 'nan'
        return str(v)
    out = []
    for i, c in enumerate(cases()):
        nan = float('nan')
        df = pd.DataFrame({'a': [1., nan, 3., 4.], 'b': [8., 4., 6., 2.]},
                          index=ix)
        s = pd.Series([5., 2., nan, 1.], index=ix, name='s')
        a = np.array([0., 5., 3., 1.])
        m = pd.DataFrame([[1., 2.], [3., 4.]], index=ix[:2],
                         columns=pd.MultiIndex.from_tuples(
                             [('power', 'active'), ('energy', 'active')],
                             names=['physical_quantity', 'type']))
        try:
            r = canon(ns['f%d' % i](df, s, a, m))
        except Exception as e:
            r = ['X', type(e).__name__]
        out.append(r)
    print(json.dumps(out))


# ------------------------------------------------------------------- abstract
def abstract():
    sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'sa'))
    sys.setrecursionlimit(20000)
    import framework
    from interp import Project
    from checks.tablecommon import (TM, Frame, Series, Idx, Arr, NAN, isnan,
                                    AList, ADict, ASet, Lin, Opq)
    from checks.c10 import T
    d = tempfile.mkdtemp()
    os.makedirs(os.path.join(d, 'nilmtk'))
    with open(os.path.join(d, 'nilmtk', '__init__.py'), 'w') as f:
        f.write(source())
    ctx = framework.Ctx('X', 'quick', Project(d))
    I = ctx.interp(models=dict(TM))

    def num(v):
        v = float(v)
        return 'nan' if v != v else round(v, 9)

    def canon(v):
        if isinstance(v, Frame):
            n = len(v.idx.labels)
            return ['F', [canon(x) for x in v.idx.labels],
                    [canon(x) for x in v.cols.labels],
                    [[canon(c[i]) for c in v.data] for i in range(n)]]
        if isinstance(v, Series):
            return ['S', [canon(x) for x in v.idx.labels],
                    [canon(x) for x in v.vals]]
        if isinstance(v, Idx):
            return ['L', [canon(x) for x in v.labels]]
        if isinstance(v, Arr):
            return ['A', list(v.shape), [canon(x) for x in v.cells]]
        if v is None:
            return None
        if isnan(v):
            return 'nan'
        if isinstance(v, Lin):
            if v.kind == 'ts':
                return ['T', num(v.const)]
            if v.kind == 'td':
                return ['D', num(v.const)]
            if v.co:
                return '?%r' % v
            return num(v.const)
        if isinstance(v, ADict):
            return ['M', [[canon(k), canon(x)] for k, x in v.pairs]]
        if isinstance(v, AList):
            return ['L', [canon(x) for x in v.items]]
        if isinstance(v, tuple):
            return ['L', [canon(x) for x in v]]
        if isinstance(v, ASet):
            return ['L', sorted(canon(x) for x in v.items)]
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)) or hasattr(v, 'numerator'):
            return num(v)
        if isinstance(v, str):
            return v
        return '?%r' % (v,)
    out = []
    for i, c in enumerate(cases()):
        def go():
            ix = lambda: Idx([T(x) for x in (0, 10, 20, 40)], dt=True)
            df = Frame(ix(), Idx(['a', 'b']), [[1., NAN, 3., 4.],
                                               [8., 4., 6., 2.]])
            s = Series([5., 2., NAN, 1.], ix(), 's')
            a = Arr([0., 5., 3., 1.])
            m = Frame(Idx([T(0), T(10)], dt=True), Idx(
                [('power', 'active'), ('energy', 'active')],
                names=['physical_quantity', 'type']), [[1., 3.], [2., 4.]])
            return I.call(I.get('nilmtk.f%d' % i), [df, s, a, m], {})
        rs = []
        for o, v, tr in I.explore(go, max_paths=50):
            if o == 'return':
                try:
                    rs.append(canon(v))
                except Exception as e:
                    rs.append('?%s' % e)
            elif o == 'raise':
                from checks.tfcommon import exc_name
                rs.append(['X', str(exc_name(v))])
            else:
                rs.append('?' + str(v))
        out.append(rs[0] if len(rs) == 1 else '?%d paths: %s' % (
            len(rs), rs[:2]))
    import shutil
    shutil.rmtree(d)
    return out


def undecided(r):
    return '"?' in json.dumps(r)


def main():
    if '--real' in sys.argv:
        return real()
    want = json.loads(subprocess.run(
        ['/opt/venv/bin/python', os.path.abspath(__file__), '--real'],
        capture_output=True, check=True).stdout.decode().splitlines()[-1])
    got = json.loads(json.dumps(abstract()))
    n = bad = und = 0
    for c, w, g in zip(cases(), want, got):
        n += 1
        if undecided(g):
            und += 1
            print('UNMODELLED  %s   %s' % (c, json.dumps(g)[:150]))
        elif w != g:
            bad += 1
            print('DIFFERS     %s\n     real %s\n    model %s' % (
                c, json.dumps(w)[:300], json.dumps(g)[:300]))
    print('%d expressions: %d agree, %d unmodelled, %d differ' % (
        n, n - bad - und, und, bad))


main()
