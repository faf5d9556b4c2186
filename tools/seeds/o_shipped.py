
PRE = """
import glob, os, re, yaml
D = os.path.join('nilmtk', 'dataset_converters')
def load(*p):
    return yaml.safe_load(open(os.path.join(D, *p)))
"""
SEEDS = {
'meta-meter-gone': dict(
    property='C24',
    needs='asking for the power of the freezer of REFIT building 3',
    breaks='the appliance is said to be on a meter which does not exist',
    edits=[('nilmtk/dataset_converters/refit/metadata/building3.yaml',
            """  type: freezer
  instance: 1
  meters: [4]
""", """  type: freezer
  instance: 1
  meters: [14]
""")],
    demo=PRE + """
b = load('refit', 'metadata', 'building3.yaml')
for a in b['appliances']:
    assert set(a['meters']) <= set(b['elec_meters']), a
"""),
'meta-sample-period': dict(
    property='C24',
    needs='statistics of a REDD appliance meter (good sections, dropout)',
    breaks='every gap between two readings counts as a dropout',
    edits=[('nilmtk/dataset_converters/redd/metadata/meter_devices.yaml',
            """  sample_period: 3   # the interval between samples. In seconds.
  max_sample_period: 50   # Max allowable interval between samples. Seconds.
""", """  sample_period: 3   # the interval between samples. In seconds.
  max_sample_period: 2   # Max allowable interval between samples. Seconds.
""")],
    demo=PRE + """
for k, d in load('redd', 'metadata', 'meter_devices.yaml').items():
    assert d['max_sample_period'] >= d['sample_period'], k
"""),
}
