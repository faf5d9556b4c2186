PRE = '''
import os, tempfile, shutil
import pandas as pd
from nilmtk.timeframe import TimeFrame
from nilmtk.datastore import HDFDataStore, CSVDataStore, TmpDataStore
d = tempfile.mkdtemp()
K = '/building1/elec/meter1'
def frame(n, start='2013-01-01'):
    df = pd.DataFrame({('power', 'active'): [float(i) for i in range(n)]},
                      index=pd.date_range(start, periods=n, freq='s'))
    df.columns = pd.MultiIndex.from_tuples([('power', 'active')],
        names=['physical_quantity', 'type'])
    return df
try:
'''
POST = '''
finally:
    shutil.rmtree(d)
'''


def demo(body):
    return PRE + '\n'.join('    ' + l for l in body.strip().splitlines()) + \
        POST


SEEDS = {
'hdf-last-chunk': dict(
    property='C05',
    needs='a section whose last chunk is partly filled, longer than a chunk',
    breaks='the last reading of a section is dropped when it does not fill '
           'a whole chunk',
    edits=[('nilmtk/datastore/hdfdatastore.py',
            '''                    chunk_end_i = section_end_i
                chunk_end_i += 1
''', '''                    chunk_end_i = section_end_i
                if chunk_i == 0 or there_are_more_subchunks:
                    chunk_end_i += 1
''')],
    demo=demo('''
st = HDFDataStore(os.path.join(d, 'x.h5'), 'w')
st.put(K, frame(10))
rows = set()
for c in st.load(K, chunksize=4):
    rows |= set(c.index)
st.close()
assert len(rows) == 10, len(rows)
''')),
'hdf-lookahead-section': dict(
    property='C05',
    needs='look ahead at the end of a bounded section split in chunks',
    breaks='the look-ahead of the last chunk restarts after the chunk size '
           'instead of after the chunk',
    edits=[('nilmtk/datastore/hdfdatastore.py',
            '''                        look_ahead_start_i = chunk_end_i
''', '''                        look_ahead_start_i = chunk_start_i + chunksize + 1
''')],
    demo=demo('''
st = HDFDataStore(os.path.join(d, 'x.h5'), 'w')
df = frame(20)
st.put(K, df)
tf = TimeFrame(df.index[2], df.index[9])
for c in st.load(K, sections=[tf], chunksize=4, n_look_ahead_rows=2):
    i = df.index.get_loc(c.index[-1])
    assert list(c.look_ahead.index) == list(df.index[i+1:i+3]), c
st.close()
''')),
'hdf-meta-alias': dict(
    property='C06',
    needs='a crash after saving metadata, before the store is closed',
    breaks='metadata saved below the root stays in the buffer',
    edits=[('nilmtk/datastore/hdfdatastore.py',
            '''        node._v_attrs.metadata = metadata
        self.store.flush()
''', '''        node._v_attrs.metadata = metadata
        if key == '/':
            self.store.flush()
''')],
    demo=demo('''
st = HDFDataStore(os.path.join(d, 'x.h5'), 'w')
st.put(K, frame(3))
log = []
real = st.store.flush
st.store.flush = lambda *a, **k: (log.append(1), real(*a, **k))
st.save_metadata('/building1', {'instance': 1})
st.store.flush = real
st.close()
assert log
''')),
'csv-meta-mutates': dict(
    property='C06',
    needs='using the metadata again after saving it to a CSV store',
    breaks='saving the data set metadata removes an entry of the caller\'s '
           'dictionary',
    edits=[('nilmtk/datastore/csvdatastore.py',
            '''            dataset_metadata = dict(metadata)
            del dataset_metadata['meter_devices']
''', '''            dataset_metadata = metadata
            del dataset_metadata['meter_devices']
''')],
    demo=demo('''
st = CSVDataStore(os.path.join(d, 'x'))
md = {'name': 'X', 'meter_devices': {'m': {}}}
st.save_metadata('/', md)
assert 'meter_devices' in md
''')),
'tmp-left-behind': dict(
    property='C07',
    needs='a temporary store that was never written to',
    breaks='the file of an empty temporary store is left behind',
    edits=[('nilmtk/datastore/tmpdatastore.py',
            '''        self.store.close()
        try:
            os.remove(self.full_path)
''', '''        used = len(self.store) > 0
        self.store.close()
        try:
            if used:
                os.remove(self.full_path)
''')],
    demo=demo('''
st = TmpDataStore()
p = st.full_path
st.close()
left = os.path.exists(p)
if left:
    os.remove(p)
assert not left
''')),
'smart-txt-open': dict(
    property='C07',
    needs='a data directory holding a log with another sample period',
    breaks='the description file of a skipped log stays open',
    edits=[('nilmtk/dataset_converters/smart/convert_smart.py',
            '''        lines = f.readlines()
        f.close()
        if '30' in lines[-2]:
''', '''        lines = f.readlines()
        if '30' in lines[-2]:
            f.close()
''')],
    demo=demo('''
import builtins
import nilmtk.dataset_converters.smart.convert_smart as m
p = os.path.join(d, 'HomeA', '2014')
os.makedirs(p)
open(os.path.join(p, 'a.txt'), 'w').write('name\\n60\\nx\\n')
made = []
real = builtins.open
def op(*a, **k):
    made.append(real(*a, **k))
    return made[-1]
cwd = os.getcwd()
m.open = op
try:
    m._find_all_csv_paths(d, 'A', '2014')
finally:
    del m.open
    os.chdir(cwd)
assert made and all(f.closed for f in made)
''')),
'key-two-digit': dict(
    property='C08',
    needs='a data set with ten buildings or more',
    breaks='the number of building 10 and above is misread from its key',
    edits=[('nilmtk/datastore/key.py',
            '''int(split[0].replace("building", ""))''',
            '''int(split[0][-1])''')],
    demo=demo('''
from nilmtk.datastore import Key
assert Key('/building12/elec/meter3').building == 12
''')),
'convert-last-chunk': dict(
    property='C08',
    needs='a meter whose readings span more than one chunk',
    breaks='only the last chunk of a meter survives a conversion',
    edits=[('nilmtk/datastore/datastore.py',
            '''                    output_store.append(meter_key, df)
''', '''                    output_store.put(meter_key, df)
''')],
    demo=demo('''
from nilmtk.datastore.datastore import convert_datastore
class In(object):
    def load_metadata(self, key='/'): return {}
    def elements_below_key(self, key='/'):
        k = key.strip('/').split('/')
        return ['building1'] if k == [''] else ['elec'] if len(k) == 1 \\
            else ['meter1']
    def load(self, key): yield frame(3); yield frame(3, '2013-01-02')
out = HDFDataStore(os.path.join(d, 'x.h5'), 'w')
out.save_metadata = lambda *a: None
convert_datastore(In(), out)
n = len(out[K])
out.close()
assert n == 6, n
''')),
'csv-look-ahead-row': dict(
    property='C05',
    needs='a CSV store and a section which starts inside a chunk of the file, '
          'with look-ahead readings asked for',
    breaks='the look-ahead repeats readings of the chunk',
    edits=[('nilmtk/datastore/csvdatastore.py',
            '''                    subchunk_end = np.max(np.nonzero(subchunk_idx))
''', '''                    subchunk_end = len(subchunk) - 1
''')],
    demo=demo('''
st = CSVDataStore(os.path.join(d, 'x'))
f = frame(9)
st.put(K, f)
for c in st.load(K, sections=[TimeFrame(f.index[2], f.index[4])],
                 n_look_ahead_rows=2, chunksize=6):
    follow = f[f.index > c.index[-1]][:2]
    assert list(c.look_ahead.index) == list(follow.index), c.look_ahead
''')),
'csv-chunk-timeframe': dict(
    property='C05',
    needs='a CSV store and a section which ends inside a chunk of the file',
    breaks='the chunk claims a time frame which goes beyond its section',
    edits=[('nilmtk/datastore/csvdatastore.py',
            '''TimeFrame(subchunk.index[0], subchunk.index[-1])
''', '''TimeFrame(subchunk.index[0], chunk.index[-1])
''')],
    demo=demo('''
st = CSVDataStore(os.path.join(d, 'x'))
f = frame(9)
st.put(K, f)
for c in st.load(K, sections=[TimeFrame(f.index[2], f.index[4])]):
    assert c.timeframe.end == c.index[-1], c.timeframe
''')),
'csv-put-whole-seconds': dict(
    property='C08',
    needs='readings between two full seconds in a CSV store',
    breaks='put() keeps whole seconds without the time zone only',
    edits=[('nilmtk/datastore/csvdatastore.py',
            '''                     mode='w',
                     header=True)
''', '''                     mode='w',
                     date_format='%Y-%m-%d %H:%M:%S',
                     header=True)
''')],
    demo=demo('''
st = CSVDataStore(os.path.join(d, 'x'))
f = frame(4)
f.index = (f.index + pd.to_timedelta('500ms')).tz_localize('UTC')
st.put(K, f)
got = pd.concat(list(st.load(K)))
want = f.index.tz_convert('UTC')
have = got.index if got.index.tz is None else got.index.tz_convert('UTC')
assert list(have.tz_localize(None)) == list(want.tz_localize(None)), got
''')),
'csv-columns-by-place': dict(
    property='C05',
    needs='a CSV store and columns asked for in another order than the file\'s',
    breaks='the first columns of the file are delivered under any name',
    edits=[('nilmtk/datastore/csvdatastore.py',
            '''                    chunk = chunk[columns]
''', '''                    chunk = chunk.iloc[:, :len(columns)]
''')],
    demo=demo('''
st = CSVDataStore(os.path.join(d, 'x'))
f = frame(4)
f[('voltage', '')] = 230.0
st.put(K, f)
for c in st.load(K, columns=[('voltage', '')]):
    assert list(c.columns) == [('voltage', '')], c.columns
''')),
}
