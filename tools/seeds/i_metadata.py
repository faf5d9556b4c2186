AP = 'nilmtk/appliance.py'
DS = 'nilmtk/dataset.py'
BU = 'nilmtk/building.py'
PRE = '''
import warnings; warnings.simplefilter('ignore')
from nilmtk.appliance import Appliance
Appliance.appliance_types = {
    'fridge': {'type': 'fridge', 'synonyms': ['refrigerator'],
               'categories': {'traditional': 'cold', 'electrical':
                              ['resistive', 'motor']},
               'control': ['thermostat', 'timer'], 'on_power_threshold': 30,
               'room_names': 'kitchen'},
    'freezer': {'type': 'freezer', 'synonyms': ['ice box'],
                'categories': {'traditional': 'cold'}}}
'''
STORE = '''
class Store(object):
    def __init__(self, ids, name='D'):
        self.ids, self.name = ids, name
    def load_metadata(self, key='/'):
        key = key.strip('/')
        if not key:
            return {'name': self.name, 'timezone': 'UTC'}
        md = {'instance': int(key[8:])}
        if md['instance'] == 2:
            md['dataset'] = 'own'
        return md
    def elements_below_key(self, key='/'):
        return ['building%d' % i for i in self.ids]
'''
SEEDS = {
'type-shared-table': dict(
    property='C18',
    needs='an appliance asked whether it matches a type, twice, then the '
    'table of types read',
    breaks='matching adds to the synonyms in the shared table of types, so a '
    'later change of the list shows in every appliance',
    edits=[(AP, 'return deepcopy(Appliance.appliance_types['
            'self.identifier.type])',
            'return dict(Appliance.appliance_types[self.identifier.type])')],
    demo=PRE + '''
a = Appliance({'type': 'fridge', 'instance': 1})
assert a.matches({'type': 'refrigerator'})
assert a.matches({'type': 'fridge'})
assert Appliance.appliance_types['fridge']['synonyms'] == ['refrigerator']
'''),
'threshold-zero-ignored': dict(
    property='C18',
    needs='an appliance whose own on power threshold is 0',
    breaks='the threshold of its type is used instead',
    edits=[(AP, """        try:
            return self.metadata['on_power_threshold']
        except KeyError:
            pass
""", """        threshold = self.metadata.get('on_power_threshold')
        if threshold:
            return threshold
""")],
    demo=PRE + '''
a = Appliance({'type': 'fridge', 'instance': 1, 'on_power_threshold': 0})
assert a.on_power_threshold() == 0
a = Appliance({'type': 'fridge', 'instance': 1, 'on_power_threshold': 5})
assert a.on_power_threshold() == 5
'''),
'matches-substring': dict(
    property='C18',
    needs='a type whose value is a text, matched with a part of it',
    breaks='a part of a text counts as a match',
    edits=[(AP, """                if (isinstance(metadata_value, list) and
                        not isinstance(v, list)):""",
            """                if (isinstance(metadata_value, (list, str)) and
                        not isinstance(v, list)):""")],
    demo=PRE + '''
a = Appliance({'type': 'fridge', 'instance': 1})
assert a.matches({'room_names': 'kitchen'})
assert not a.matches({'room_names': 'kit'})
assert a.matches({'control': 'timer'})
'''),
'synonyms-as-text': dict(
    property='C18',
    needs='synonyms switched off after they were used',
    breaks='a type also matches without synonyms being allowed',
    edits=[(AP, "if Appliance.allow_synonyms and k == 'type':",
            "if k == 'type' and (Appliance.allow_synonyms or\n"
            "                                    'synonyms' in self.type):")],
    demo=PRE + '''
a = Appliance({'type': 'fridge', 'instance': 1})
assert a.matches({'type': 'refrigerator'})
Appliance.allow_synonyms = False
assert not a.matches({'type': 'refrigerator'})
assert a.matches({'type': 'fridge'})
'''),
'buildings-numbered-in-order': dict(
    property='C18',
    needs='a data set with ten or more buildings, or with a gap',
    breaks='buildings get their position as number instead of their instance',
    edits=[(DS, '''        for b_key in buildings:
            building = Building()''', '''        for b_id, b_key in enumerate(buildings, start=1):
            building = Building()'''),
           (DS, '            self.buildings[building.identifier.instance] = '
            'building\n', '            self.buildings[b_id] = building\n')],
    demo=STORE + '''
from nilmtk.dataset import DataSet
d = DataSet().import_metadata(Store([1, 2]))
assert sorted(d.buildings) == [1, 2]
d = DataSet().import_metadata(Store([1, 2, 10, 3]))
for i, b in d.buildings.items():
    assert b.identifier.instance == i, (i, b.identifier)
'''),
'building-dataset-overwritten': dict(
    property='C18',
    needs='a building whose metadata name their own data set',
    breaks='the name of the data set it was read from replaces it',
    edits=[(BU, """        if 'dataset' not in self.metadata:
            self.metadata['dataset'] = dataset_name
""", """        if dataset_name is not None:
            self.metadata['dataset'] = dataset_name
""")],
    demo=STORE + '''
from nilmtk.dataset import DataSet
d = DataSet().import_metadata(Store([1, 2]))
assert d.buildings[1].identifier == (1, 'D')
assert d.buildings[2].identifier == (2, 'own')
'''),
'script-skips-short': dict(
    property='C18',
    needs='two activations that touch, one ending when the next starts',
    breaks='the end of an activation is written as its second last reading',
    edits=[(DS, 'ends.append(activation.index[-1])',
            'ends.append(activation.index[min(len(activation) - 1, 1)])')],
    demo='''
import os, shutil, tempfile
import pandas as pd
from nilmtk.dataset import DataSet
from nilmtk.building import Building
class App(object):
    class identifier(object):
        type, instance = 'washer dryer', 2
def run(n):
    class Meter(object):
        def dominant_appliance(self):
            return App()
        def get_activations(self):
            return [pd.Series([50.] * n, pd.date_range(
                '2013-01-01', periods=n, freq='1min', tz='UTC'))]
    class Group(object):
        meters = [Meter()]
        def submeters(self):
            return self
    d, b = DataSet(), Building()
    b.metadata = {'instance': 5}
    b.elec = Group()
    d.buildings[5] = b
    got = {}
    class Store(dict):
        def __init__(self, *a, **k):
            pass
        def __setitem__(self, k, v):
            got[k] = v
        put = append = __setitem__
        def close(self):
            pass
    import nilmtk.dataset
    nilmtk.dataset.pd = type('pd', (), dict(
        {k: getattr(pd, k) for k in dir(pd) if k[:2] != '__'},
        HDFStore=Store))
    d.get_activity_script('nowhere.h5')
    (k, s), = got.items()
    assert k.strip('/') == 'building5/washer_dryer__2', k
    s = s.sort_index()
    assert (s.index[-1] - s.index[0]).total_seconds() == 60 * (n - 1), s
    assert s.tolist() == [True, False]
run(2)
run(4)
'''),
}
