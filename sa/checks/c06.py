"""C06 - a store operation that returns has taken effect, exactly and
durably.  Every write operation of every data store class is abstractly
interpreted against effect models of pandas.HDFStore and the file system; the
ordered trace of store effects (write, flush, close) and the resulting state
are checked, also with a failure injected at every external call."""
from values import AObj, AList, ADict, Ext, Opq, short, key_of
from interp import AbstractRaise, Undecided
from fsmodel import FS, Table, Handle
from .tfcommon import exc_name, Unk
from .storecommon import (HDF, CSV, TMP, KEY, mk_hstore, interp_with,
                          set_world, norm)

MIN_OBLIGATIONS = 60
ASSUMPTIONS = ['HDFStore.append adds to a table, put replaces it, flush or '
               'close hands buffered changes to the operating system; '
               'DataFrame.to_csv(path) and leaving an open file\'s scope '
               'complete the write']
WRITES = ('append', 'put', 'remove', 'write-attr', '__setitem__',
          'create_table_index', 'append_to_multiple')


def run(ctx):
    hdf(ctx)
    csv(ctx)


def trace_ok(ctx, C, d, tr, hs, LOC):
    ops = [(i, e.data['op']) for i, e in enumerate(tr)
           if e.kind == 'store' and e.data['obj'] is hs]
    w = [i for i, o in ops if o in WRITES]
    f = [i for i, o in ops if o in ('flush', 'close')]
    return w, f


def hdf(ctx):
    LOC = 'nilmtk/datastore/hdfdatastore.py'
    I = interp_with(ctx, FS())
    for dotted in (HDF, TMP):
        sc = ctx.anchor(I, dotted)
        for op in ('append', 'put', 'remove', 'save_metadata',
                   'save_metadata_root', 'save_metadata_empty'):
            C = sc.name + '.' + op.replace('_root', '').replace('_empty', '')
            for existing in (False, True):
                if op == 'remove' and not existing:
                    continue
                for fault in (False, True):
                    one_hdf(ctx, I, sc, dotted, op, C, existing, fault, LOC)
    ctx.absorb(I)


def one_hdf(ctx, I, sc, dotted, op, C, existing, fault, LOC):
    v = Table('new')
    md = lambda: ADict([] if op.endswith('_empty') else [
        ('name', 'X'), ('elec_meters', ADict(
            [(1, ADict([('device_model', 'm')]))]))])
    d = '%s on %s key%s' % (op, 'an existing' if existing else 'a new',
                            ' with a failing store' if fault else '')

    def go():
        fs = FS(files=['f.h5'])
        other = '/building1/elec/meter2'
        tabs = {other: [Table('other')]}
        if existing:
            tabs[KEY] = [Table('old')]
        hs = mk_hstore(tabs, {})
        set_world(I, fs, hs)
        I.may_raise = None
        st = I.call(sc, [] if dotted == TMP else ['f.h5', 'a'], {})
        n0 = len(I.trace)
        if fault:
            def mr(I, f, a, k):
                if isinstance(f, Opq) and f.op == 'attr' and f.args[0] is hs:
                    return ['OSError']
                return None
            I.may_raise = mr
        m = md()
        try:
            if op == 'append' or op == 'put':
                I.call(I.getattr(st, op), [KEY, v], {})
            elif op == 'remove':
                I.call(I.getattr(st, op), [KEY], {})
            elif op != 'save_metadata_root':
                I.call(I.getattr(st, 'save_metadata'), ['/building1', m], {})
            else:
                I.call(I.getattr(st, 'save_metadata'), ['/', m], {})
        finally:
            I.may_raise = None
        return hs, I.trace[n0:], m, st
    for out, r, tr in I.explore(go, max_paths=40):
        ctx.paths += 1
        if out == 'undecided':
            ctx.undecided(C, r)
            continue
        faulted = [e for e in tr if e.kind == 'fault']
        if out == 'raise':
            if not faulted:
                ctx.violation('write-succeeds', C, '%s raises %s' % (
                    d, exc_name(r)), LOC)
            else:
                ctx.ok('failure-reported')
            continue
        if faulted:
            ctx.violation('failure-reported', C, '%s: the store failed in '
                          '%s but the operation reports success' % (
                              d, short(faulted[0].data['fn'])), LOC)
            continue
        hs, t, m, st = r
        w, f = trace_ok(ctx, C, d, t, hs, LOC)
        ctx.expect(bool(w), 'write-happens', C, d + ': nothing is written',
                   LOC)
        if not w:
            continue
        ctx.expect(bool(f) and f[-1] > w[-1], 'flush-after-write', C,
                   '%s: returns with the last modification (%s) not flushed'
                   % (d, t[w[-1]].data['op']), LOC)
        tabs = {k: [getattr(x, 'name', short(x)) for x in vs]
                for k, vs in hs.cfg['tables'].items()}
        want = {'/building1/elec/meter2': ['other']}
        if op == 'append':
            want[KEY] = (['old'] if existing else []) + ['new']
        elif op == 'put':
            want[KEY] = ['new']
        elif op.startswith('save'):
            if existing:
                want[KEY] = ['old']
        ctx.expect(tabs == want, 'write-exact', C,
                   '%s: the store then holds %s, expected %s' % (
                       d, tabs, want), LOC)
        if op == 'put':
            fm = hs.cfg.get('formats', {}).get(KEY, 'table')
            if fm is not None and not isinstance(fm, str):
                ctx.undecided(C, 'format')
            else:
                ctx.expect(fm in ('table', 't', 'Table'), 'put-queryable', C,
                           '%s: table stored with format=%r cannot be read '
                           'by section' % (d, fm), LOC)
        if op.startswith('save'):
            where = '/' if op.endswith('root') else '/building1'
            got = hs.cfg['meta'].get((where, 'metadata'))
            others = [k for k in hs.cfg['meta'] if k[0] != where]
            ctx.expect(got is not None and not others and
                       key_of(got) == key_of(md()), 'metadata-exact', C,
                       '%s: stored metadata %s' % (d, short(hs.cfg['meta'])),
                       LOC)
            # read it back

            def back():
                return I.call(I.getattr(st, 'load_metadata'),
                              [where], {})
            try:
                b = back()
                ctx.expect(key_of(b) == key_of(md()), 'metadata-read-back',
                           sc.name + '.load_metadata',
                           '%s: reads back %s' % (d, short(b)), LOC)
            except (AbstractRaise, Undecided) as x:
                if isinstance(x, AbstractRaise):
                    ctx.violation('metadata-read-back', sc.name +
                                  '.load_metadata', '%s raises %s' % (
                                      d, exc_name(x.exc)), LOC)


def csv(ctx):
    LOC = 'nilmtk/datastore/csvdatastore.py'
    I = interp_with(ctx, FS())
    sc = ctx.anchor(I, CSV)
    P = 'dir/building1/elec/meter1.csv'
    OTHER = 'dir/building1/elec/meter2.csv'
    v = Table('new')
    for op in ('append', 'put', 'remove', 'remove_building',
               'save_metadata', 'save_metadata_root'):
        C = 'CSVDataStore.' + op.replace('_root', '').replace(
            '_building', '')
        for existing in (False, 'beside', True):
            if op.startswith('remove') and existing is not True:
                continue
            for fault in (False, True):
                d = '%s on %s key%s' % (
                    op, 'an existing' if existing is True else 'a new',
                    ' with a failing disk' if fault else '')

                def md():
                    m = [('name', 'X'), ('elec_meters', ADict(
                        [(1, ADict([('device_model', 'm')]))]))]
                    if op.endswith('root'):
                        m.append(('meter_devices', ADict(
                            [('m', ADict([('sample_period', 6)]))])))
                    return ADict(m)

                def go():
                    fs = FS(files=[OTHER, 'dir/building2/elec/meter1.csv'],
                            dirs=['dir/metadata'])
                    if existing == 'beside':
                        fs.mkdirs('dir/building1/elec')
                    elif existing:
                        fs.files[P] = ['header', Table('old')]
                        fs.mkdirs('dir/building1/elec')
                    else:
                        # nothing of the building is there yet
                        fs = FS(files=['dir/building2/elec/meter1.csv'],
                                dirs=['dir/metadata'])
                    set_world(I, fs)
                    I.may_raise = None
                    I.facts['__ignored__'] = False
                    st = I.call(sc, ['dir'], {})
                    if fault:
                        def mr(I, f, a, k):
                            n = f.name if isinstance(f, Ext) else \
                                f.args[1] if isinstance(f, Opq) and \
                                f.op == 'attr' else ''
                            if n in ('to_csv', 'yaml.dump', 'os.remove',
                                     'builtins.open', 'os.makedirs',
                                     'write', 'os.unlink'):
                                return ['OSError']
                            if n == 'shutil.rmtree':
                                if k.get('ignore_errors') is True or \
                                        len(a) > 1 and a[1] is True:
                                    I.facts['__ignored__'] = True
                                    return None
                                return ['OSError']
                        I.may_raise = mr
                    m = md()
                    try:
                        if op in ('append', 'put'):
                            I.call(I.getattr(st, op), [KEY, v], {})
                        elif op == 'remove':
                            I.call(I.getattr(st, op), [KEY], {})
                        elif op == 'remove_building':
                            I.call(I.getattr(st, 'remove'),
                                   ['/building1'], {})
                        elif op == 'save_metadata':
                            I.call(I.getattr(st, op), ['/building1', m], {})
                        else:
                            I.call(I.getattr(st, 'save_metadata'),
                                   ['/', m], {})
                    finally:
                        I.may_raise = None
                        I.facts['__fs__'] = fs
                    return fs, m, st
                for out, r, tr in I.explore(go, max_paths=40):
                    ctx.paths += 1
                    if out == 'undecided':
                        ctx.undecided(C, r)
                        continue
                    faulted = [e for e in tr if e.kind == 'fault']
                    fs = I.facts['__fs__']
                    openh = [h for h in fs.handles if not h.closed]
                    ctx.expect(not openh, 'files-closed', C,
                               '%s: %s is left open' % (d, short(openh)),
                               LOC)
                    if out == 'raise':
                        if not faulted:
                            ctx.violation('write-succeeds', C,
                                          '%s raises %s' % (d, exc_name(r)),
                                          LOC)
                        else:
                            ctx.ok('failure-reported')
                        continue
                    if faulted:
                        ctx.violation(
                            'failure-reported', C, '%s: the disk failed in '
                            '%s but the operation reports success' % (
                                d, short(faulted[0].data['fn'])), LOC)
                        continue
                    if I.facts['__ignored__']:
                        ctx.violation(
                            'failure-reported', C, '%s: the errors of '
                            'shutil.rmtree are ignored' % d, LOC)
                        continue
                    fs, m, st = r
                    try:
                        judge_csv(ctx, I, op, existing, fs, m, st, md, d, C,
                                  LOC, P, OTHER)
                    except Undecided as x:
                        ctx.undecided(C, str(x))
    ctx.absorb(I)


def judge_csv(ctx, I, op, existing, fs, m, st, md, d, C, LOC, P, OTHER):
    nm = lambda c: [x if isinstance(x, str) else getattr(x, 'name', short(x))
                    for x in c]
    have = {p: nm(c) for p, c in fs.files.items() if p.endswith('.csv')}
    want = {'dir/building2/elec/meter1.csv': ['orig']}
    if existing:
        want[OTHER] = ['orig']
    if existing is True:
        want[P] = ['header', 'old']
    if op == 'append':
        want[P] = want.get(P, ['header']) + ['new']
    elif op == 'put':
        want[P] = ['header', 'new']
    elif op == 'remove':
        del want[P]
    elif op == 'remove_building':
        del want[P]
        del want[OTHER]
    ctx.expect(have == want, 'write-exact', C,
               '%s: the files then hold %s, expected %s' % (d, have, want),
               LOC)
    if op.startswith('save'):
        ctx.expect(key_of(m) == key_of(md()), 'metadata-argument-kept', C,
                   d + ': the caller\'s metadata was changed to ' + short(m),
                   LOC)
        where = '/' if op.endswith('root') else '/building1'
        try:
            b = I.call(I.getattr(st, 'load_metadata'), [where], {})
        except AbstractRaise as x:
            ctx.violation('metadata-read-back', 'CSVDataStore.load_metadata',
                          '%s raises %s' % (d, exc_name(x.exc)), LOC)
            return
        w = md()
        if where == '/building1':
            w.data if False else None
            I.setitem(I.getitem(I.getitem(w, 'elec_meters'), 1),
                      'data_location', '/building1/elec/meter1')
        ctx.expect(key_of(b) == key_of(w), 'metadata-read-back',
                   'CSVDataStore.load_metadata', '%s: reads back %s, '
                   'expected %s' % (d, short(b, 400), short(w, 400)), LOC)
