D = 'nilmtk/dataset_converters/'
PRE = '''
import warnings; warnings.simplefilter('ignore')
import contextlib, gzip, importlib, io, os, shutil, sys, tempfile, types
import numpy as np, pandas as pd
class Store:
    def __init__(s, *a, **k): s.d = {}
    def put(s, k, v, **kw):
        s.d[k] = pd.concat([s.d[k], v]) if kw.get('append') and k in s.d \\
            else v
    def append(s, k, v, **kw):
        s.d[k] = pd.concat([s.d[k], v]) if k in s.d else v
    def __contains__(s, k): return k in s.d
    def flush(s): pass
    def close(s): pass
    def open(s, mode='a'): pass
    def at(s, b, m): return s.d['/building%d/elec/meter%d' % (b, m)]
    def vals(s, b, m): return s.at(b, m).iloc[:, 0].tolist()
    def secs(s, b, m):
        return [round(t.timestamp(), 3) for t in s.at(b, m).index]
T = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, T, True)
META = []
def mod(n):
    m = importlib.import_module('nilmtk.dataset_converters.' + n)
    S = Store()
    if hasattr(m, 'get_datastore'):
        m.get_datastore = lambda *a, **k: S
    for x in ('convert_yaml_to_hdf5', 'save_yaml_to_datastore'):
        if hasattr(m, x):
            setattr(m, x, lambda d, *a: META.append(
                os.path.isdir(d) and {f: open(os.path.join(d, f)).read()
                                      for f in os.listdir(d)}))
    pd.HDFStore = lambda *a, **k: S
    return m, S
def w(p, t):
    p = os.path.join(T, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    (gzip.open if p.endswith('.gz') else open)(p, 'wt').write(t)
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), \\
            contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)
'''


def S(needs, breaks, edits, demo):
    return dict(property='C23', needs=needs, breaks=breaks, edits=edits,
                demo=PRE + demo)


SEEDS = {
 'n01-redd-equal-values': S(
  'a REDD-like channel in which a later reading equals an earlier one',
  'readings whose value occurred before are dropped with the duplicates',
  [(D + 'redd/convert_redd.py',
    "        dups_in_index = df.index.duplicated(keep='first')\n",
    "        dups_in_index = df.duplicated(keep='first').values\n")],
  '''
m, S = mod('redd.convert_redd')
w('c.dat', '1303132930 5\\n1303132931 6\\n1303132931 7\\n1303132932 5\\n')
d = m._load_csv(T + '/c.dat', [('power', 'active')], 'UTC',
                drop_duplicates=True, sort_index=True)
assert d.iloc[:, 0].tolist() == [5, 6, 5], d
'''),
 'n02-ukdale-mains-of-first-house': S(
  'a data set with one-second mains in two houses',
  'every house gets the one-second mains of the first',
  [(D + 'ukdale/convert_ukdale.py',
    """        house_path = 'house_{:d}'.format(key.building)
        filename = join(ukdale_path, house_path, 'mains.dat')
        df = _load_csv(filename, ONE_SEC_COLUMNS, TZ, drop_duplicates=drop_duplicates)
        store.put(str(key), df)
""",
    """        if df is None:
            house_path = 'house_{:d}'.format(key.building)
            filename = join(ukdale_path, house_path, 'mains.dat')
            df = _load_csv(filename, ONE_SEC_COLUMNS, TZ, drop_duplicates=drop_duplicates)
        store.put(str(key), df)
"""),
   (D + 'ukdale/convert_ukdale.py',
    """    for identifier in ids_of_one_sec_data:
""", """    df = None
    for identifier in ids_of_one_sec_data:
""")],
  '''
m, S = mod('ukdale.convert_ukdale')
m._get_ac_type_map = lambda p: {(1, 1): ['apparent'],
    (1, 54): ['active', 'apparent'], (2, 20): ['active', 'apparent']}
w('u/house_1/channel_1.dat', '1303132930 222\\n')
for h in (1, 2):
    w('u/house_%d/mains.dat' % h, '1303132930.1 %d 223 240\\n' % h)
quiet(m.convert_ukdale, T + '/u', 'x')
assert S.vals(1, 54) == [1] and S.vals(2, 20) == [2], S.d
'''),
 'n03-refit-house-numbers': S(
  'houses after the missing house 14',
  'REFIT houses 15 and later are stored under their original number, '
  'which is not the building their metadata describe',
  [(D + 'refit/convert_refit.py',
    "            key = Key(building=nilmtk_house_id, meter=chan_id)\n",
    "            key = Key(building=house_id, meter=chan_id)\n")],
  '''
m, S = mod('refit.convert_refit')
cols = ['Unix', 'Aggregate'] + ['Appliance%d' % i for i in range(1, 10)]
for h in list(range(1, 14)) + list(range(15, 22)):
    w('r/CLEAN_House%d.csv' % h, 'Time,' + ','.join(cols) + '\\nx,' +
      ','.join(['1400000000'] + [str(100 * h + i) for i in range(10)]) + '\\n')
quiet(m.convert_refit, T + '/r', 'x')
assert S.vals(13, 2) == [1301] and S.vals(14, 2) == [1501], S.d.keys()
assert S.vals(20, 10) == [2109]
'''),
 'n04-eco-zero-readings': S(
  'a smart meter phase that draws nothing for a second',
  'ECO readings of 0 W are taken for missing ones',
  [(D + 'eco/convert_eco.py',
    "df_phase = df_phase[power_active != -1]",
    "df_phase = df_phase[power_active > 0]")],
  '''
m, S = mod('eco.convert_eco')
row = lambda p: ','.join([str(3 * p), str(p), '-1', '4'] + ['1.0'] * 12)
w('e/01_sm_csv/01/2012-06-01.csv', '\\n'.join(
    row({0: 0, 1: -1}.get(i, 7)) for i in range(86400)))
for p in (1, 2, 3):
    w('e/01_plugs_csv/%02d/2012-06-01.csv' % p, '\\n'.join(
        '-1' if i == 2 else '5' for i in range(86400)))
quiet(m.convert_eco, T + '/e', 'x', 'CET')
assert S.vals(1, 1)[:3] == [0, 7, 7] and len(S.vals(1, 1)) == 86399
assert len(S.vals(1, 4)) == 86399
'''),
 'n05-eco-last-day-only': S(
  'plug readings of more than one day',
  'the plug readings of the days before the last are overwritten',
  [(D + 'eco/convert_eco.py',
    """                        store.append(key, df, format='Table')
                        store.flush()
                        print('Building',building_no,', Meter no.',meter_num""",
    """                        store.put(key, df, format='Table')
                        store.flush()
                        print('Building',building_no,', Meter no.',meter_num""")],
  '''
m, S = mod('eco.convert_eco')
for d in (1, 2):
    w('e/01_sm_csv/01/2012-06-0%d.csv' % d, '\\n'.join(
        ','.join(['1.0'] * 16) for i in range(86400)))
    for p in (1, 2, 3):
        w('e/01_plugs_csv/%02d/2012-06-0%d.csv' % (p, d), '\\n'.join(
            ['5'] * 86400))
quiet(m.convert_eco, T + '/e', 'x', 'CET')
assert len(S.vals(1, 1)) == len(S.vals(1, 4)) == 2 * 86400
'''),
 'n06-iawe-repeated-times': S(
  'two different readings with the same time stamp',
  'iAWE keeps both and averages them instead of keeping the first',
  [(D + 'iawe/convert_iawe.py',
    'df.drop_duplicates(subset=["timestamp"], inplace=True)',
    'df.drop_duplicates(inplace=True)')],
  '''
m, S = mod('iawe.convert_iawe')
t = 1373673600          # 2013-07-13 00:00 UTC
for c in range(1, 12):
    w('i/electricity/%d.csv' % c, 'timestamp,W,A\\n' + ''.join(
        '%d,%d,%d\\n' % r for r in ((t, 10, 1), (t, 90, 1), (t + 120, 7, 1))))
quiet(m.convert_iawe, T + '/i', 'x')
d = S.at(1, 3)['power', 'active']
assert d.loc[pd.Timestamp(t, unit='s', tz='UTC')] == 10, d.head()
assert d.loc[pd.Timestamp(t + 120, unit='s', tz='UTC')] == 7, d.head()
'''),
 'n07-greend-block-columns': S(
  'a GREEND file whose second block lists the same plugs in another order',
  'the readings of the two plugs are mixed up in that block',
  [(D + 'greend/convert_greend.py',
    "                if previous_header == line.strip():\n",
    "                if previous_header is not None and sorted(\n"
    "                        previous_header.split(',')) == sorted(\n"
    "                        line.strip().split(',')):\n")],
  '''
m, S = mod('greend.convert_greend')
w('g/building0/dataset_2014-01-02.csv',
  'timestamp,AA,BB\\n1388617200.5,1.0,2.0\\ntimestamp,BB,AA\\n'
  '1388617203.5,4,3\\n')
n, l = quiet(m._get_blocks, T + '/g/building0/dataset_2014-01-02.csv')
d = pd.concat(l, sort=False).sort_index()
assert d['AA'].tolist() == [1, 3] and d['BB'].tolist() == [2, 4], d
'''),
 'n08-hes-meter-per-chunk': S(
  'a house with several appliances whose first chunk does not list all of '
  'them, and an appliance that comes back in a later chunk',
  'the readings of an appliance move to another meter between chunks',
  [(D + 'hes/convert_hes.py',
    """                if hes_house_id not in house_appliance_codes.keys():
                    house_appliance_codes[hes_house_id] = []
""", """                house_appliance_codes[hes_house_id] = sorted(
                    house_appliance_codes.get(hes_house_id, []))
""")],
  '''
m, S = mod('hes.convert_hes')
m.CHUNKSIZE = 2
w('h/anonhes/ipsos-anonymised-corrected_310713.csv', 'id,x\\n201,1\\n')
f = m.FILENAMES[0]
w('h/' + f, ''.join('1,201,%d,2010-05-01,%d,00:%02d:00\\n' % (c, v, t)
  for c, v, t in ((9, 10, 1), (9, 11, 2), (8, 20, 1), (8, 21, 2),
                  (9, 12, 3), (8, 22, 3), (8, 23, 4), (9, 13, 4))))
quiet(m.convert_hes, T + '/h', 'x')
assert [v / 10 for v in S.vals(1, 1)] == [10, 11, 12, 13], S.d
assert [v / 10 for v in S.vals(1, 2)] == [20, 21, 22, 23], S.d
'''),
 'n09-ideal-combined-sensor': S(
  'a home whose mains are the sum of several clamps (sensor 2c3)',
  'the mains are stored under a meter number that is not in the metadata',
  [(D + 'ideal/convert_ideal.py',
    "            key=Key(building=houses[id],meter=int(combined_meters[0]))\n",
    "            key=Key(building=houses[id],meter=int(''.join(combined_meters)))\n")],
  '''
m, S = mod('ideal.convert_ideal')
w('i/household_sensordata/home62_hall1_sensor2c3_electric-mains_'
  'electric-combined.csv.gz', '2017-05-01 00:00:01,100\\n'
  '2017-05-01 00:00:00,50\\n')
w('i/rooms_appliance_sensordata/home62_kitchen2_sensor7_'
  'electric-appliance_kettle.csv.gz', '2017-05-01 00:00:01,8\\n')
quiet(m.convert_ideal, T + '/i', 'x')
assert S.vals(1 and 62, 2) == [50, 100] and S.vals(62, 7) == [8], S.d
'''),
 'n10-ampds-whole-home-first': S(
  'circuits whose names sort after the whole home meter',
  'the whole home meter and the circuits after it get the numbers their '
  'names sort to, not the ones of the metadata',
  [(D + 'ampds/convert_ampds.py',
    '    files.insert(0, "WHE.csv")\n',
    '    files = sorted(["WHE.csv"] + files, key=str.lower)\n')],
  '''
m, S = mod('ampds.convert_ampds')
for f in ('B1E', 'WHE', 'WOE'):
    w('a/%s.csv' % f, 'TS,V,I,f,DPF,APF,P,Pt,Q,Qt,S,St\\n1333263600,' +
      ','.join([{'B1E': '1', 'WHE': '2', 'WOE': '3'}[f]] * 11) + '\\n')
quiet(m.convert_ampds, T + '/a', 'x')
assert [S.vals(1, i)[0] for i in (1, 2, 3)] == [2, 1, 3]
'''),
 'n11-combed-milliseconds': S(
  'readings whose time stamps are not whole seconds',
  'COMBED readings are moved to whole seconds',
  [(D + 'combed/convert_combed.py',
    """                        df.index = pd.to_datetime(df["timestamp"], unit='ms')
""",
    """                        df.index = pd.to_datetime(df["timestamp"] // 1000, unit='s')
""")],
  '''
m, S = mod('combed.convert_combed')
b = next(iter(m.overall_dataset_mapping))
l = next(iter(m.overall_dataset_mapping[b]))
p, n = next(iter(m.overall_dataset_mapping[b][l].items()))
for c in m.column_mapping:
    w('c/%s/%s/%s/%s.csv' % (b, l, p, c),
      '1401561000250,1\\n1401561000750,2\\n')
quiet(m.convert_combed, T + '/c', 'x')
d = S.secs(m.building_number_mapping[b], n)
assert d == [1401561000.25, 1401561000.75], d
'''),
 'n12-hipe-negative-loads': S(
  'a machine whose clamp is mounted the wrong way round',
  'HIPE readings below 0 are set to 0',
  [(D + 'hipe/convert_hipe.py',
    "    return df.abs()  # only positive loads\n",
    "    return df.clip(lower=0)  # only positive loads\n")],
  '''
m, S = mod('hipe.convert_hipe')
w('h/x.csv', 'SensorDateTime,P_kW\\n2017-10-23T12:00:05+02:00,-0.5\\n'
  '2017-10-23T12:00:00+02:00,0.25\\n')
d = quiet(m._load_csv, T + '/h/x.csv', 'active', sort_index=True)
assert d.iloc[:, 0].tolist() == [250, 500], d
'''),
 'n13-smart-year-of-columns': S(
  'a home in which two meters carry a circuit with the same name',
  'only one of the two circuits is kept',
  [(D + 'smart/convert_smart.py',
    "        for col in df_all_years.columns:\n",
    "        for col in df_all_years.columns[~df_all_years.columns"
    ".str.endswith('_2')]:\n")],
  '''
m, S = mod('smart.convert_smart')
for h in 'ABC':
    for i, c in ((1, 'Oven'), (2, 'Oven'), (3, 'Pump')):
        w('s/Home%s/2015/m%d.txt' % (h, i),
          'Home%s-meter%d\\nx\\n30 minutes\\nend\\n' % (h, i))
        w('s/Home%s/2015/Home%s-meter%d_2015.csv' % (h, h, i),
          'Date & Time,use [kW],gen [kW],%s [kW]\\n2015-01-01 00:00:00,'
          '%d,0,%d\\n' % (c, 10 * i, i))
quiet(m.convert_smart, T + '/s', 'x')
assert [S.vals(1, i)[0] for i in (1, 2, 3, 4)] == [10000, 1000, 2000, 3000]
'''),
}

SEEDS['greend-header-seen'] = S(
  'a GREEND file whose third block has the header of the first again',
  'the readings of the third block are taken for those of the plugs of the '
  'second',
  [(D + 'greend/convert_greend.py', "    previous_header = None\n",
    "    previous_header = []\n"),
   (D + 'greend/convert_greend.py',
    "                if previous_header == line.strip():\n",
    "                if line.strip() in previous_header:\n"),
   (D + 'greend/convert_greend.py',
    "                previous_header = line.strip()\n",
    "                previous_header.append(line.strip())\n")],
  '''
m, S = mod('greend.convert_greend')
w('g/building0/dataset_2014-01-02.csv',
  'timestamp,AA,BB\\n1388617200.5,1.0,2.0\\ntimestamp,BB,CC\\n'
  '1388617203.5,4,3\\ntimestamp,AA,BB\\n1388617205.5,7,8\\n')
n, l = quiet(m._get_blocks, T + '/g/building0/dataset_2014-01-02.csv')
d = pd.concat(l, sort=False).sort_index()
assert d['AA'].dropna().tolist() == [1, 7], d
assert d['BB'].dropna().tolist() == [2, 4, 8], d
''')
SEEDS['caxe-nearest-minute'] = S(
  'CAXE readings in the second half of a minute',
  'readings count for the nearest minute and not for the one they are in',
  [(D + 'caxe/convert_caxe.py', 'df.resample("1T").mean()',
    'df.groupby(df.index.round(FREQ)).mean()')],
  '''
m, S = mod('caxe.convert_caxe')
w('x.csv', ''.join('2020-01-01 00:%s+05:30,%d,2,3,50,230,4\\n' % (t, v)
                   for t, v in (('00:10', 1), ('00:40', 3), ('01:10', 5),
                                ('01:50', 9))))
quiet(m.convert_caxe, T + '/x.csv')
d = S.at(1, 1)
assert d[('power', 'reactive')].tolist() == [2, 7], d
assert [str(t)[11:19] for t in d.index.tz_convert('Asia/Kolkata')] == [
    '00:00:00', '00:01:00'], d
''')
SEEDS['caxe-zero-missing'] = S(
  'a CAXE row in which one measure is missing, in a minute with others',
  'the missing measure counts as a reading of 0',
  [(D + 'caxe/convert_caxe.py', "    df = df.dropna()\n",
    "    df = df.dropna(how='all').fillna(0)\n")],
  '''
m, S = mod('caxe.convert_caxe')
w('x.csv', '2020-01-01 00:00:10+05:30,1,2,3,50,230,4\\n'
  '2020-01-01 00:00:20+05:30,,2,3,50,230,4\\n'
  '2020-01-01 00:00:30+05:30,5,2,3,50,230,4\\n')
quiet(m.convert_caxe, T + '/x.csv')
d = S.at(1, 1)
assert d[('power', 'reactive')].tolist() == [3], d
''')
