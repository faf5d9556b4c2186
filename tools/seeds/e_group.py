PRE = '''
import nilmtk
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.metergroup import MeterGroup, MeterGroupID
from nilmtk.appliance import Appliance
Appliance.appliance_types = {
    'fridge': {'type': 'fridge', 'categories': {'size': 'large'}},
    'kettle': {'type': 'kettle', 'categories': {'size': 'small',
               'electrical': ['resistive']}}}
def meter(i, b=1, d='D', **md):
    return ElecMeter(None, dict(md), ElecMeterID(i, b, d))
def ids(g):
    return sorted(m.identifier for m in g.meters)
'''
SEEDS = {
'group-lookup-superset': dict(
    property='C13',
    needs='the ID of a group which holds only some of the meters of an '
          'existing nested group',
    breaks='the key of a smaller group returns the larger nested group '
           'instead of KeyError',
    edits=[('nilmtk/metergroup.py',
            'if (set(group.identifier.meters) == key_meters):',
            'if key_meters.issubset(group.identifier.meters):')],
    demo=PRE + '''
nested = MeterGroup([meter(5), meter(6)])
g = MeterGroup([meter(1), nested])
assert g[MeterGroupID(nested.identifier.meters)] is nested
try:
    got = g[MeterGroupID((ElecMeterID(5, 1, 'D'),))]
except KeyError:
    pass
else:
    raise AssertionError(got)
'''),
'from-list-by-instance': dict(
    property='C13',
    needs='from_list over meters of two buildings which share an instance '
          'number',
    breaks='the second meter is taken for a repetition and left out',
    edits=[('nilmtk/metergroup.py',
            """            if meter_id in already_processed:
                continue

            already_processed.add(meter_id)
""",
            """            processed_key = getattr(meter_id, 'instance', meter_id)
            if processed_key in already_processed:
                continue

            already_processed.add(processed_key)
""")],
    demo=PRE + '''
g = MeterGroup([meter(1), meter(2), meter(1, 2), meter(2, 2)])
want = [ElecMeterID(1, 1, 'D'), ElecMeterID(1, 2, 'D')]
assert ids(g.from_list(want + want)) == want, ids(g.from_list(want))
'''),
'alternative-mains-dropped': dict(
    property='C13',
    needs='use_alternative_mains with two present mains meters, then again',
    breaks='mains meters which were swapped out are lost, so swapping twice '
           'does not restore the building',
    edits=[('nilmtk/metergroup.py',
            """            self.meters.remove(meter)
            self.disabled_meters.append(meter)
        for meter in alternative_mains:""",
            """            self.meters.remove(meter)
        self.disabled_meters.append(meter)
        for meter in alternative_mains:""")],
    demo=PRE + '''
g = MeterGroup([meter(1, site_meter=True), meter(2, site_meter=True),
                meter(3)])
g.disabled_meters = [meter(9, site_meter=True)]
before = ids(g)
g.use_alternative_mains()
assert [i.instance for i in ids(g)] == [3, 9]
g.use_alternative_mains()
assert ids(g) == before, ids(g)
'''),
'category-decides': dict(
    property='C13',
    needs='a category together with a condition which comes after it and '
          'does not hold',
    breaks='the conditions after category are not looked at',
    edits=[('nilmtk/appliance.py',
            '''                if v not in self.categories():
                    match = False
''',
            '''                return match and v in self.categories()
''')],
    demo=PRE + '''
a = Appliance({'type': 'fridge', 'instance': 1, 'meters': [1],
               'room': 'hall', 'building': 1, 'dataset': 'D'})
assert a.matches({'category': 'large', 'room': 'hall'})
assert not a.matches({'room': 'attic', 'category': 'large'})
assert not a.matches({'category': 'large', 'room': 'attic'})
'''),
'union-in-place': dict(
    property='C13',
    needs='using a group again after it was an operand of union',
    breaks='union adds the meters of the other group to the group itself',
    edits=[('nilmtk/metergroup.py',
            'return MeterGroup(set(self.meters).union(other.meters))',
            '''for meter in other.meters:
            if meter not in self.meters:
                self.meters.append(meter)
        return MeterGroup(list(self.meters))''')],
    demo=PRE + '''
a, b = MeterGroup([meter(1)]), MeterGroup([meter(1), meter(2)])
assert len(a.union(b).meters) == 2
assert len(a.meters) == 1, a.meters
'''),
}
