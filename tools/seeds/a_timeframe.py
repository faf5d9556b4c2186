SEEDS = {
'tf-disabled-leak': dict(
    property='C01',
    needs='a disabled frame intersected with one that has no start',
    breaks='the bounds of a disabled frame leak into an intersection',
    edits=[('nilmtk/timeframe.py', '''            if other.start is None:
                start = self.start
''', '''            if other.start is None:
                start = self._start
''')],
    demo='''
from nilmtk.timeframe import TimeFrame
w = TimeFrame('2013-01-02', '2013-01-05')
w.enabled = False
r = w.intersection(TimeFrame(None, '2013-02-01'))
assert r.start is None, r
'''),
'tf-include-end': dict(
    property='C01',
    needs='an end-including frame whose end is strictly inside an open frame',
    breaks='the end-included mark is lost when the right operand is open',
    edits=[('nilmtk/timeframe.py', '''            elif end == self.end:
                include_end = self.include_end
''', '''            elif other.end is not None:
                include_end = self.include_end
''')],
    demo='''
from nilmtk.timeframe import TimeFrame
a = TimeFrame('2013-01-02', '2013-01-05')
a.include_end = True
assert a.intersection(TimeFrame('2013-01-03', None)).include_end
'''),
'tf-dict-open': dict(
    property='C02',
    needs='dictionary round trip of a frame open at its start',
    breaks='the end of a half-open frame is dropped by the dictionary form',
    edits=[('nilmtk/timeframe.py', '''        if self.start:
            dct['start'] = self.start.isoformat()
        if self.end:
            dct['end'] = self.end.isoformat()
''', '''        if self.start:
            dct['start'] = self.start.isoformat()
            if self.end:
                dct['end'] = self.end.isoformat()
''')],
    demo='''
from nilmtk.timeframe import TimeFrame
a = TimeFrame(None, '2013-01-05')
assert TimeFrame.from_dict(a.to_dict()) == a
'''),
'tf-split-exact': dict(
    property='C03',
    needs='a span that is an exact multiple of the maximum duration',
    breaks='splitting fails on the last piece of an exact multiple',
    edits=[('nilmtk/timeframe.py', '            if timeframe.end <= allowed_end:',
            '            if timeframe.end < allowed_end:')],
    demo='''
from nilmtk.timeframe import TimeFrame
a = TimeFrame('2013-01-01 00:00:00', '2013-01-01 00:00:40')
p = list(a.split(20))
assert len(p) == 2 and p[0].end == p[1].start and p[1].end == a.end, p
'''),
'tf-query-end': dict(
    property='C04',
    needs='loading an end-including section with no start',
    breaks='the reading exactly on the included end is not returned',
    edits=[('nilmtk/timeframe.py', '''            terms.append("index<" + ("=" if self.include_end else "")
''', '''            terms.append("index<" + ("=" if self.include_end and terms else "")
''')],
    demo='''
import os, tempfile, shutil
import pandas as pd
from nilmtk.timeframe import TimeFrame
from nilmtk.datastore.hdfdatastore import HDFDataStore
d = tempfile.mkdtemp()
try:
    st = HDFDataStore(os.path.join(d, 'x.h5'), 'w')
    idx = pd.date_range('2013-01-01', periods=6, freq='s')
    st.put('/building1/elec/meter1', pd.DataFrame({'a': range(6)}, index=idx))
    tf = TimeFrame(None, idx[3])
    tf.include_end = True
    n = sum(len(c) for c in st.load('/building1/elec/meter1', sections=[tf]))
    st.close()
    assert n == 4, n
finally:
    shutil.rmtree(d)
'''),
}
