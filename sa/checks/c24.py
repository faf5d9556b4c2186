"""C24 - the metadata shipped with the dataset converters describe coherent
data sets.  The YAML files are read as a syntax tree (every construct keeps
its line; repeated keys are seen); the quantities and AC types NILMTK knows
are taken from the source of nilmtk.measurement."""
import glob
import os
import re
import zoneinfo

import yaml

from values import AList, ADict
from interp import Undecided

MIN_OBLIGATIONS = 1000
ASSUMPTIONS = ['pytz knows the zones of the tz database, including the names '
               'kept for backward compatibility (US/Central, US/Eastern)',
               'the names of appliance types are defined by nilm_metadata, '
               'which is not part of the repository']
MEASURE = 'nilmtk.measurement.'


class Node(object):
    """a YAML value with the line it begins at"""
    def __init__(self, v, line):
        self.v, self.line = v, line


def build(n, dup):
    line = n.start_mark.line + 1
    if isinstance(n, yaml.MappingNode):
        d = {}
        for k, v in n.value:
            if k.value == '<<':
                sub = build(v, dup)
                for kk, vv in (sub.v.items() if isinstance(sub.v, dict)
                               else ()):
                    d.setdefault(kk, vv)
                continue
            key = scalar(k)
            if isinstance(key, list):
                key = tuple(key)
            if key in d:
                dup.append((key, k.start_mark.line + 1))
            d[key] = build(v, dup)
        return Node(d, line)
    if isinstance(n, yaml.SequenceNode):
        return Node([build(x, dup) for x in n.value], line)
    return Node(scalar(n), line)


_plain = yaml.SafeLoader('')


def scalar(n):
    return _plain.construct_object(n, deep=True)


def read(path):
    dup = []
    with open(path) as f:
        n = yaml.compose(f, Loader=yaml.SafeLoader)
    return (build(n, dup) if n is not None else Node({}, 1)), dup


def plain(n):
    if isinstance(n.v, dict):
        return {k: plain(x) for k, x in n.v.items()}
    if isinstance(n.v, list):
        return [plain(x) for x in n.v]
    return n.v


def number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


class Set(object):
    def __init__(self, ctx, repo, d, quantities, types, with_type):
        self.ctx, self.dir, self.repo = ctx, d, repo
        self.name = os.path.basename(os.path.dirname(d))
        self.quantities, self.types = quantities, types
        self.with_type = with_type

    def load(self, fn):
        p = os.path.join(self.dir, fn)
        rel = os.path.relpath(p, self.repo)
        self.rel = rel
        try:
            n, dup = read(p)
        except yaml.YAMLError as e:
            self.ctx.violation('readable', rel, 'no YAML: %s' % str(e)[:200],
                               rel)
            return None
        self.ctx.functions.add(rel)
        self.ctx.expect(not dup, 'key-once', rel, 'the key %s is given twice' %
                        ', '.join('%r (line %d)' % x for x in dup), rel)
        if not isinstance(n.v, dict):
            self.ctx.violation('readable', rel, 'no mapping', rel)
            return None
        return n

    def want(self, ok, rule, what, n):
        self.ctx.expect(bool(ok), rule, '%s %s' % (self.rel, what),
                        'line %d' % n.line, '%s:%d' % (self.rel, n.line))

    # ------------------------------------------------------------ data set
    def dataset(self):
        n = self.load('dataset.yaml')
        if n is None:
            return
        d = plain(n)
        self.want(isinstance(d.get('name'), str) and d['name'], 'named',
                  'has a name', n)
        tz = d.get('timezone')
        try:
            ok = tz in ('US/Central', 'US/Eastern') or bool(
                zoneinfo.ZoneInfo(tz))
        except Exception:
            ok = False
        self.want(ok, 'time-zone', 'time zone %r is known' % tz, n)
        a, b = ((d.get('timeframe') or {}).get(x) for x in ('start', 'end'))
        if a is not None and b is not None:
            self.want(str(a) < str(b), 'timeframe',
                      'time frame %s - %s' % (a, b), n)

    # ------------------------------------------------------------- devices
    def devices(self):
        n = self.load('meter_devices.yaml')
        if n is None:
            return None
        for k, v in n.v.items():
            d = plain(v)
            w = 'device %r' % k
            if not isinstance(d, dict):
                self.want(False, 'device', w, v)
                continue
            sp, ms = d.get('sample_period'), d.get('max_sample_period')
            self.want(number(sp) and sp > 0, 'sample-period',
                      '%s: sample period %r' % (w, sp), v)
            self.want(number(ms) and number(sp) and ms >= sp,
                      'max-sample-period', '%s: a largest sample period (%r) '
                      'of at least the sample period (%r)' % (w, ms, sp), v)
            l = d.get('measurements')
            self.want(isinstance(l, list) and l, 'measurements',
                      '%s: measures something' % w, v)
            if not isinstance(l, list):
                continue
            seen = set()
            for m, mn in zip(l, v.v['measurements'].v):
                q, t = m.get('physical_quantity'), m.get('type')
                lo, up = m.get('lower_limit'), m.get('upper_limit')
                self.want(q in self.quantities, 'quantity',
                          '%s: %r is a quantity NILMTK knows' % (w, q), mn)
                if q in self.with_type:
                    self.want(t in self.types, 'ac-type',
                              '%s: AC type %r of %s' % (w, t, q), mn)
                elif t is not None:
                    # AMPds tells real from apparent power factors
                    self.want(q in ('pf', 'power factor'), 'ac-type',
                        '%s: AC type %r of %s' % (w, t, q), mn)
                self.want((q, t) not in seen, 'measured-once',
                          '%s: %s %s once' % (w, q, t), mn)
                seen.add((q, t))
                if lo is not None and up is not None:
                    self.want(number(lo) and number(up) and lo < up,
                              'limits', '%s: limits of %s %s: %r < %r' % (
                                  w, q, t, lo, up), mn)
        return n

    # ----------------------------------------------------------- buildings
    def building(self, fn, models):
        n = self.load(fn)
        if n is None:
            return
        b = plain(n)
        i = int(re.search(r'(\d+)\.yaml$', fn).group(1))
        self.want(b.get('instance') == i, 'instance',
                  'instance %r' % b.get('instance'), n)
        ms = b.get('elec_meters')
        if not isinstance(ms, dict) or not ms:
            self.want(False, 'meters', 'has meters', n)
            return
        nodes = n.v['elec_meters'].v
        for k, m in ms.items():
            at, w = nodes[k], 'meter %r' % (k,)
            self.want(isinstance(k, int) and k > 0, 'meter-number',
                      '%s is a number' % w, at)
            if not isinstance(m, dict):
                self.want(False, 'meter', w, at)
                continue
            self.want(models is None or m.get('device_model') in models,
                      'device-model', '%s: device %r is described' % (
                          w, m.get('device_model')), at)
            up = m.get('submeter_of')
            self.want(m.get('site_meter') is True or up is not None,
                      'wiring', '%s is the site meter or a submeter' % w, at)
            if up is not None:
                self.want(up == 0 or up in ms and up != k, 'wiring',
                          '%s: submeter of %r' % (w, up), at)
            seen, x = {k}, up
            while x in ms and isinstance(ms[x], dict):
                if x in seen:
                    self.want(False, 'wiring', '%s is upstream of itself' % w,
                              at)
                    break
                seen.add(x)
                x = ms[x].get('submeter_of')
        per = {}
        app = b.get('appliances') or []
        for a, an in zip(app, n.v['appliances'].v if app else ()):
            w = 'appliance %s %s' % (a.get('type'), a.get('instance'))
            self.want(isinstance(a.get('type'), str), 'appliance-type', w, an)
            l = a.get('meters')
            self.want(isinstance(l, list) and l and len(set(l)) == len(l),
                      'appliance-meters', '%s: meters %r' % (w, l), an)
            for x in l if isinstance(l, list) else ():
                self.want(x in ms, 'appliance-meters',
                          '%s: meter %r exists' % (w, x), an)
            per.setdefault(a.get('type'), []).append((a.get('instance'), an))
        for t, l in sorted(per.items(), key=str):
            self.want(sorted((x for x, _ in l), key=str) == sorted(
                range(1, len(l) + 1), key=str), 'appliance-instances',
                'instances of %s: %s' % (t, [x for x, _ in l]), l[0][1])


def strings(ctx, I, name):
    v = ctx.anchor(I, MEASURE + name)
    if isinstance(v, ADict):
        v = AList([k for k in v.keys()])
    l = list(I.iterate(v))
    if not l or not all(isinstance(x, str) for x in l):
        raise Undecided(name)
    return set(l)


def run(ctx):
    I = ctx.interp()
    repo = ctx.project.root
    quantities = strings(ctx, I, 'PHYSICAL_QUANTITIES')
    types = strings(ctx, I, 'AC_TYPES')
    with_type = strings(ctx, I, 'PHYSICAL_QUANTITIES_WITH_AC_TYPES')
    ctx.absorb(I)
    dirs = sorted(glob.glob(os.path.join(
        repo, 'nilmtk', 'dataset_converters', '*', 'metadata')))
    if len(dirs) < 10:
        ctx.violation('metadata', 'nilmtk/dataset_converters',
                      'only %d data sets with metadata' % len(dirs),
                      'nilmtk/dataset_converters')
    for d in dirs:
        s = Set(ctx, repo, d, quantities, types, with_type)
        fs = sorted(os.listdir(d))
        if 'dataset.yaml' not in fs or 'meter_devices.yaml' not in fs:
            ctx.violation('metadata', os.path.relpath(d, repo),
                          'no dataset.yaml or meter_devices.yaml',
                          os.path.relpath(d, repo))
            continue
        s.dataset()
        n = s.devices()
        models = None if n is None else set(n.v)
        for fn in fs:
            if re.match(r'building\d+\.yaml$', fn):
                s.building(fn, models)
