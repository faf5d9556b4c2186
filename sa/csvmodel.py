"""A disk of text files and pandas reading them: read_csv over text whose
number fields may be named readings ('@name'), time stamps as seconds from a
base day, time zones that are kept with the instants, a store that notes what
is put into it.  What is not modelled is undecided, never guessed."""
import datetime
import fnmatch
import posixpath
import re as _re
from fractions import Fraction

import yaml

from values import (Dom, Opq, Ext, AList, ADict, AGen, AObj, Native, short,
                    key_of)
from interp import Undecided
from domains import Lin, atom
import domains
import tables
from fsmodel import MatchObj
from tables import (TM, Frame, Series, Idx, Arr, NAN, isnan, as_list, arg,
                    toarr, IDX, FRM, SER, COMMON, COMMON as COM, same)

BASE = 1303084800           # 2011-04-18 00:00:00 UTC
UTC = ('UTC', 'utc', 'GMT', 'Etc/UTC', 'Etc/GMT', 'Zulu')
NA = {'', '#N/A', '#NA', 'N/A', 'NA', 'NULL', 'NaN', 'None', 'n/a', 'nan',
      'null', '-NaN', '-nan', '<NA>', '#N/A N/A', '-1.#IND', '1.#QNAN',
      '1.#IND', '-1.#QNAN'}
UNIT = {'s': 1, 'ms': Fraction(1, 1000), 'us': Fraction(1, 10 ** 6),
        'ns': Fraction(1, 10 ** 9), 'm': 60, 'h': 3600, 'D': 86400,
        'min': 60, 'd': 86400}
DAY = 86400
DAY_ROWS = 6                # a day of readings, one per second, cut short
GRID = 8                    # so many instants of a long regular index


def T(x, tz='UTC'):
    l = Lin('ts', {'T': 1}, Fraction(x))
    return l.with_tz(tz) if tz else l


def moment(x):
    x = Fraction(x)
    s = x.numerator // x.denominator
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(
        seconds=BASE + s, microseconds=int((x - s) * 10 ** 6))


def iso(x, sep=' ', fine=False):
    return moment(x).isoformat(sep, 'microseconds' if fine else 'seconds')


def tz_of(x):
    if isinstance(x, Idx):
        if x.tz is not None:
            return x.tz
        return x.labels[0].tz if x.labels and isinstance(
            x.labels[0], Lin) else None
    return x.tz


def zone(l, how, tz):
    """instant -> instant, for tz_localize / tz_convert of one label"""
    if not isinstance(l, Lin) or l.kind != 'ts':
        return l
    if how == 'tz_convert':
        return l.with_tz(tz)
    if tz is None:
        if l.tz is None or l.tz in UTC:
            return l.with_tz(None)
        return l.with_tz(None).add(Lin('td', {'offset(%s)' % l.tz: 1}, 0))
    if tz in UTC:
        return l.with_tz(tz)
    return l.add(Lin('td', {'offset(%s)' % tz: -1}, 0)).with_tz(tz)


def move(I, idx, how, tz):
    if not isinstance(tz, str) and tz is not None:
        raise Undecided('time zone %s' % short(tz))
    old = tz_of(idx)
    if how == 'tz_convert' and old is None and idx.labels:
        I.throw('TypeError', 'Cannot convert tz-naive timestamps')
    if how == 'tz_localize' and old is not None and tz is not None:
        I.throw('TypeError', 'Already tz-aware')
    return Idx([zone(l, how, tz) for l in idx.labels], idx.name, idx.names,
               tz, idx.dt)


def idx_round(how):
    def f(I, o, a, k):
        w = tables.period_of(arg(a, k, 0, 'freq'))
        if not w or 900 % w or len(a) > 1 or set(k) - {'freq'} or \
                not all(isinstance(l, Lin) and l.co == {'T': 1}
                        for l in o.labels):
            return NotImplemented
        return Idx([Lin('ts', l.co, domains.near_multiple(
            how, l.const, w, BASE), l.tz) for l in o.labels], o.name, o.names,
            tz_of(o), o.dt)
    return f


def idx_zone(how):
    return lambda I, o, a, k: move(I, o, how, arg(a, k, 0, 'tz'))


def table_zone(how):
    def f(I, o, a, k):
        if not o.idx.is_dt():
            if o.idx.labels:
                I.throw('TypeError', 'index is not a valid DatetimeIndex')
            return o.copy() if isinstance(o, Frame) else NotImplemented
        ix = move(I, o.idx, how, arg(a, k, 0, 'tz'))
        if isinstance(o, Frame):
            return Frame(ix, o.cols, [list(d) for d in o.data])
        return Series(list(o.vals), ix, o.name)
    return f


def install():
    """time zones in this process"""
    for how in ('tz_convert', 'tz_localize'):
        IDX[how] = idx_zone(how)
        FRM[how] = table_zone(how)
        SER[how] = table_zone(how)
    for how in ('floor', 'ceil', 'round'):
        IDX[how] = idx_round(how)
    for reg in (tables.ARR, IDX):
        reg['astype'] = int64(reg.get('astype'))


# ------------------------------------------------------------- time stamps
def stamp(I, v, unit, fmt):
    """one value -> instant (naive unless it says)"""
    if isinstance(v, Lin):
        if v.kind == 'ts':
            return v
        e = v.co.get('E')
        if set(v.co) == {'E'}:
            u = UNIT[unit or 'ns'] if (unit or 'ns') in UNIT else None
            if u is None:
                raise Undecided('unit %s' % short(unit))
            if e * u == 1:
                return T(v.const * u, None)
            return Lin('ts', {'epoch*%s' % (e * u): 1}, v.const * u)
        raise Undecided('instant %s' % short(v))
    if isnan(v):
        return NAN
    if isinstance(v, bool):
        raise Undecided('instant %s' % short(v))
    if isinstance(v, (int, float)):
        if unit is not None and unit not in UNIT:
            raise Undecided('unit %s' % short(unit))
        x = Fraction(repr(v)) if isinstance(v, float) else Fraction(v)
        return T(x * UNIT[unit or 'ns'] - BASE, None)
    if isinstance(v, str):
        if unit is not None:
            try:
                return stamp(I, float(v), unit, None)
            except ValueError:
                I.throw('ValueError', 'non convertible value %r' % v)
        try:
            if fmt is not None and fmt not in ('ISO8601', 'mixed'):
                d = datetime.datetime.strptime(v, fmt)
            else:
                d = datetime.datetime.fromisoformat(v.strip())
        except ValueError:
            I.throw('ValueError', 'time data %r does not match' % v)
        if d.tzinfo is not None:
            return T(Fraction(d.timestamp()) - BASE)
        d = d.replace(tzinfo=datetime.timezone.utc)
        return T(Fraction(d.timestamp()) - BASE, None)
    raise Undecided('instant %s' % short(v))


def to_datetime(I, a, k):
    for x in k:
        if x not in ('arg', 'unit', 'utc', 'format', 'errors', 'cache',
                     'infer_datetime_format', 'origin', 'exact', 'dayfirst',
                     'yearfirst'):
            I.throw('TypeError', 'unexpected keyword argument %r' % x)
    v = arg(a, k, 0, 'arg')
    if k.get('errors', 'raise') != 'raise' or k.get('dayfirst') or \
            k.get('yearfirst') or k.get('origin', 'unix') != 'unix':
        raise Undecided('to_datetime')
    unit, fmt = k.get('unit'), k.get('format')
    utc = I.truth(k.get('utc', False))

    def uniform(l):
        t = [x for x in l if isinstance(x, str)]
        if fmt is None and unit is None and len(
                {('.' in x, x[-6:-5] in '+-') for x in t}) > 1:
            I.throw('ValueError', 'time data does not match format')
        if not utc and len({x[-6:] for x in t if x[-6:-5] in '+-' and
                            x[-6:-5]}) > 1:
            raise Undecided('to_datetime with several offsets')

    def one(x):
        r = stamp(I, x, unit, fmt)
        if utc and isinstance(r, Lin):
            r = zone(r, 'tz_convert' if r.tz else 'tz_localize', 'UTC')
        return r
    if isinstance(v, Series):
        return Series([one(x) for x in v.vals], v.idx, v.name)
    if isinstance(v, (str, int, float, Lin)):
        return one(v)
    if isinstance(v, Arr):
        l = list(v.cells)
    elif isinstance(v, Idx):
        l = v.labels
    else:
        l = as_list(I, v)
    if l is None:
        raise Undecided('to_datetime(%s)' % short(v))
    uniform(l)
    out = [one(x) for x in l]
    tz = out[0].tz if out and isinstance(out[0], Lin) else None
    return Idx(out, v.name if isinstance(v, Idx) else None, tz='UTC'
               if utc else tz, dt=True)


def timestamp(I, a, k):
    v = arg(a, k, 0, 'ts_input')
    if isinstance(v, str) and len(a) < 2 and set(k) <= {'ts_input'} and \
            v not in NA:
        return stamp(I, v, None, None)
    return domains._timestamp(I, a, k)


_dtindex = TM.get('pandas.DatetimeIndex')


def datetimeindex(I, a, k):
    v = arg(a, k, 0, 'data')
    l = v.labels if isinstance(v, Idx) else as_list(I, v)
    if l is not None and set(k) <= {'data', 'tz'} and len(a) <= 1 and any(
            isinstance(x, (str, int)) for x in l):
        r = to_datetime(I, [AList(list(l))], {})
        return move(I, r, 'tz_localize', k['tz']) if k.get('tz') else r
    return _dtindex(I, a, k) if _dtindex else NotImplemented


def date_range(seen):
    def f(I, a, k):
        st, en = arg(a, k, 0, 'start'), arg(a, k, 1, 'end')
        n, fr = arg(a, k, 2, 'periods'), arg(a, k, 3, 'freq')
        for x in k:
            if x not in ('start', 'end', 'periods', 'freq', 'tz', 'name',
                         'inclusive', 'normalize', 'unit'):
                I.throw('TypeError', 'unexpected keyword argument %r' % x)
        if k.get('normalize') or k.get('inclusive', 'both') != 'both':
            raise Undecided('date_range')
        if isinstance(fr, Lin) and fr.kind == 'td' and fr.is_const():
            p = fr.const
        elif fr is None:
            p = DAY
        else:
            p = tables.period_of(fr)
        st = None if st is None else stamp(I, st, None, None)
        en = None if en is None else stamp(I, en, None, None)
        if p is None or (st is None) + (en is None) + (n is None) != 1:
            raise Undecided('date_range')
        if n is None:
            d = en.add(st, -1)
            if d.co:
                raise Undecided('date_range')
            n = int(d.const // p) + 1
        if st is None:
            st = en.add(Lin('td', {}, -p * (n - 1)))
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if not isinstance(n, int):
            raise Undecided('date_range')
        tz = k.get('tz')
        seen.append((st, n, p))
        if n == DAY:
            n = DAY_ROWS
        elif n > 1000:
            n = GRID
        r = Idx([st.add(Lin('td', {}, p * i)) for i in range(n)],
                k.get('name'), dt=True, tz=st.tz)
        if tz is not None:
            r = move(I, r, 'tz_localize' if st.tz is None else 'tz_convert',
                     tz)
        return r
    return f


def int64(old):
    """instants as numbers of nanoseconds"""
    def f(I, o, a, k):
        cells = o.labels if isinstance(o, Idx) else list(o.cells)
        if cells and all(isinstance(c, Lin) and c.kind == 'ts'
                         for c in cells):
            t = arg(a, k, 0, 'dtype')
            n = t.name if isinstance(t, Ext) else t
            if not isinstance(n, str):
                raise Undecided('astype(%s)' % short(t))
            n = n.rsplit('.', 1)[-1]
            if n in ('int64', 'int', 'i8'):
                out = []
                for c in cells:
                    if c.co != {'T': 1}:
                        raise Undecided('instant %s' % short(c))
                    out.append(Ns(c.const * 10 ** 9, 10 ** 9))
                return Arr(out, (len(out),))
        return old(I, o, a, k) if old else NotImplemented
    return f


class Ns(Lin):
    """a whole number E*u + const, E seconds since 1970"""
    __slots__ = ()

    def __init__(self, const, u):
        Lin.__init__(self, 'num', {'E': Fraction(u)}, Fraction(const))

    def d_binop(self, I, op, other, right):
        if op in ('//', '/') and not right and isinstance(other, int) and \
                other:
            u, c = self.co['E'] / other, self.const / other
            if u.denominator == 1 and (op == '/' or c.denominator == 1):
                return Ns(c, u)
        if op == '*' and isinstance(other, int):
            return Ns(self.const * other, self.co['E'] * other)
        return Lin('num', self.co, self.const).d_binop(I, op, other, right)


# ---------------------------------------------------------------- text files
def number(s):
    """text field -> cell, None when it is no number"""
    s = s.strip()
    if s.startswith('@'):
        return atom('num', s[1:])
    try:
        return int(s)
    except ValueError:
        pass
    try:
        return float(s)
    except ValueError:
        return None


READ_OPTS = {'filepath_or_buffer', 'sep', 'delimiter', 'header', 'names',
             'index_col', 'usecols', 'dtype', 'engine', 'skiprows',
             'na_values', 'chunksize', 'encoding', 'on_bad_lines',
             'low_memory', 'memory_map', 'parse_dates', 'nrows', 'iterator',
             'skipinitialspace', 'compression', 'keep_default_na',
             'skip_blank_lines', 'date_format', 'float_precision',
             'na_filter', 'squeeze_'}


def parse(I, text, a, k):
    for x in k:
        if x not in READ_OPTS:
            I.throw('TypeError', 'read_csv() got an unexpected keyword '
                    'argument %r' % x)
    for x in ('iterator', 'skipinitialspace'):
        if k.get(x):
            raise Undecided('read_csv(%s)' % x)
    if k.get('parse_dates') not in (None, False, True) or (
            k.get('parse_dates') and k.get('index_col') != 0):
        raise Undecided('read_csv(parse_dates)')
    for x in ('keep_default_na', 'skip_blank_lines', 'na_filter'):
        if k.get(x, True) is not True:
            raise Undecided('read_csv(%s)' % x)
    sep = k.get('sep', k.get('delimiter'))
    if len(a) > 1:
        sep = a[1]
    if sep is None:
        sep = ','
    if not isinstance(sep, str):
        raise Undecided('read_csv(sep)')
    lines = text.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    skip = k.get('skiprows')
    if skip is not None:
        s = as_list(I, skip)
        if s is None and not isinstance(skip, int):
            raise Undecided('read_csv(skiprows)')
        lines = lines[skip:] if s is None else [
            l for i, l in enumerate(lines) if i not in s]
    lines = [l for l in lines if l.strip()]
    if sep == ' ' or len(sep) == 1:
        recs = [l.split(sep) for l in lines]
    elif sep in ('\\s+', '\\s*', ' +'):
        recs = [l.split() for l in lines]
    else:
        raise Undecided('read_csv(sep)')
    names = k.get('names')
    header = k.get('header', 'infer')
    if names is not None:
        names = as_list(I, names)
        if names is None:
            raise Undecided('read_csv(names)')
        if len(set(map(key_of, names))) != len(names):
            I.throw('ValueError', 'Duplicate names are not allowed.')
    if header == 'infer':
        header = None if names is not None else 0
    levels = as_list(I, header) if isinstance(header, (AList, tuple)) \
        else None
    if levels is not None:
        if levels != list(range(len(levels))) or k.get('index_col') != 0 or \
                names is not None:
            raise Undecided('read_csv(header)')
        if len(recs) < len(levels):
            I.throw('pandas.errors.ParserError', 'Passed header=%s, len of '
                    '%d, but only %d lines in file' % (
                        levels, len(levels), len(recs)))
        rows = [recs.pop(0) for _ in levels]
        names = [None] + [tuple(
            r[j] or 'Unnamed: %d_level_%d' % (j, i)
            for i, r in enumerate(rows)) for j in range(1, len(rows[0]))]
        k['level names'] = [r[0] or None for r in rows]
        if recs and not any(recs[0][1:]):
            # the names of the index, or a row of missing readings
            if recs[0][0]:
                raise Undecided('read_csv: name of the index')
            recs.pop(0)
        header = None
    elif header not in (None, 0):
        raise Undecided('read_csv(header)')
    head = None
    if header == 0:
        if not recs:
            I.throw('pandas.errors.EmptyDataError', 'No columns to parse')
        head = recs.pop(0)
        head = [h if h else 'Unnamed: %d' % i for i, h in enumerate(head)]
    if names is None:
        if head is None:
            if not recs:
                I.throw('pandas.errors.EmptyDataError',
                        'No columns to parse from file')
            names = list(range(len(recs[0])))
        else:
            names, seen = [], {}
            for h in head:
                n = seen.get(h, 0)
                seen[h] = n + 1
                names.append('%s.%d' % (h, n) if n else h)
    ic = k.get('index_col')
    width = len(names)
    implicit = 0
    if ic is not False and recs and len(recs[0]) > width:
        implicit = len(recs[0]) - width
    width += implicit
    bad = k.get('on_bad_lines', 'error')
    out = []
    for r in recs:
        if len(r) > width:
            if ic is False:
                r = r[:width]
            elif bad == 'error':
                I.throw('pandas.errors.ParserError', 'Error tokenizing data')
            elif bad in ('warn', 'skip'):
                continue
            else:
                raise Undecided('read_csv(on_bad_lines)')
        out.append(r + [''] * (width - len(r)))
    return names, out, implicit


def column(I, fields, dtype, na):
    cells = []
    text = False
    for f in fields:
        if f in NA or f in na or f.strip() in NA:
            cells.append(NAN)
            continue
        n = number(f)
        if n is None:
            text = True
        cells.append(n)
    if text:
        if dtype is not None and typename(dtype) not in (
                'str', 'object', 'category', None):
            I.throw('ValueError', 'could not convert string to float')
        return [NAN if (f in NA or f in na) else f for f in fields]
    if dtype is not None:
        t = typename(dtype)
        if t in ('str', 'object', 'category'):
            return [NAN if (f in NA or f in na) else f for f in fields]
        if t and t.startswith('int') and any(
                isinstance(c, float) for c in cells):
            I.throw('ValueError', 'cannot safely convert to integer')
        if t and t.startswith('float'):
            cells = [float(c) if isinstance(c, int) else c for c in cells]
        elif t is None or not t.startswith('int'):
            raise Undecided('dtype %s' % short(dtype))
    elif any(isinstance(c, float) for c in cells):
        cells = [float(c) if isinstance(c, int) else c for c in cells]
    return cells


def typename(t):
    n = t.name if isinstance(t, Ext) else t
    if not isinstance(n, str):
        return None
    n = n.rsplit('.', 1)[-1]
    return {'float_': 'float64', 'str_': 'str', 'O': 'object'}.get(n, n)


def dates(ix):
    """time stamps written as text -> instants, as pandas does it: left as
    objects when their offsets differ"""
    out = []
    for x in ix.labels:
        if not isinstance(x, str):
            return ix
        try:
            d = datetime.datetime.fromisoformat(x)
        except ValueError:
            return ix
        off = d.utcoffset()
        d = d.replace(tzinfo=datetime.timezone.utc) - (
            off or datetime.timedelta(0))
        out.append(T(Fraction(d.timestamp()) - BASE, None if off is None else
                     'UTC' if not off else 'UTC%+d' % (
                         off.total_seconds() / 3600)))
    tzs = {l.tz for l in out}
    if len(tzs) > 1 or len({'.' in x for x in ix.labels}) > 1:
        return ix
    return Idx(out, ix.name, tz=tzs.pop() if tzs else None, dt=True)


def offset(l):
    """seconds from UTC of an instant; London's clocks change at T + 2.5"""
    if l.tz in (None,) + UTC:
        return 0
    if l.tz == 'Europe/London':
        return 3600 if l.const > Fraction(5, 2) else 0
    raise Undecided('offset of %s' % l.tz)


def to_csv(disk):
    opts = ['path_or_buf', 'sep', 'na_rep', 'float_format', 'columns',
            'header', 'index', 'index_label', 'mode']
    known = {'path_or_buf', 'header', 'mode', 'index', 'date_format',
             'float_format', 'na_rep'}

    def f(I, o, a, k):
        k = dict(zip(opts, a), **k)
        if set(k) - known:
            raise Undecided('to_csv(%s)' % sorted(k))
        if not isinstance(o, Frame) or o.idx.name is not None or \
                k.get('index', True) is not True:
            raise Undecided('to_csv')
        p, lines = disk.path(k['path_or_buf']), []
        if I.truth(k.get('header', True)):
            n = len(o.cols.names or [None])
            for i in range(n):
                nm = (o.cols.names or [o.cols.name])[i]
                lines.append([nm or ''] + [
                    str(l[i] if isinstance(l, tuple) else l)
                    for l in o.cols.labels])
        fine = any(isinstance(l, Lin) and l.const.denominator != 1
                   for l in o.idx.labels)
        dfmt, ffmt = k.get('date_format'), k.get('float_format')
        na = k.get('na_rep', '')
        if not all(x is None or isinstance(x, str) for x in (dfmt, ffmt)) or \
                na not in NA and na != '':
            raise Undecided('to_csv')
        loss = '' if ffmt in (None, '%r', '%s', '%.17g') else '~' + ffmt
        for i, l in enumerate(o.idx.labels):
            if not isinstance(l, Lin) or set(l.co) != {'T'}:
                raise Undecided('to_csv of %s' % short(l))
            s = offset(l)
            t = iso(l.const + s, fine=fine)
            if l.tz is not None:
                t += '+%02d:00' % (s // 3600)
            if dfmt is not None:
                t = moment(l.const + s).replace(
                    tzinfo=None if l.tz is None else datetime.timezone(
                        datetime.timedelta(seconds=s))).strftime(dfmt)
            row = [t]
            for d in o.data:
                c = d[i]
                if isnan(c):
                    row.append(na)
                elif isinstance(c, Lin) and len(c.co) == 1 and not c.const:
                    row.append('@' + list(c.co)[0] + loss)
                elif isinstance(c, (int, float)):
                    row.append(str(c))
                else:
                    raise Undecided('to_csv of %s' % short(c))
            lines.append(row)
        t = ''.join(','.join(r) + '\n' for r in lines)
        if posixpath.dirname(p) not in disk.dirs:
            I.throw('OSError', 'no directory %s' % posixpath.dirname(p))
        m = k.get('mode', 'w')
        disk.files[p] = (disk.files.get(p, '') if m.startswith('a')
                         else '') + t
        return None
    return f


def read_text(I, text, a, k, chunk=None):
    k = dict(k)
    names, recs, implicit = parse(I, text, a, k)
    dt, nav = k.get('dtype'), k.get('na_values')
    na = set()
    if nav is not None:
        l = [nav] if isinstance(nav, str) else as_list(I, nav)
        if l is None or isinstance(nav, ADict):
            raise Undecided('na_values')
        na = set(l)
    use = k.get('usecols')
    keep = list(range(len(names)))
    if use is not None:
        u = as_list(I, use)
        if u is None:
            raise Undecided('read_csv(usecols)')
        keep = []
        for x in u:
            if isinstance(x, int) and x not in names:
                keep.append(x)
            elif x in names:
                keep.append(names.index(x))
            else:
                I.throw('ValueError', 'Usecols do not match columns, '
                        'expected but not found: %s' % [x])
        keep.sort()         # the order of the file

    def build(rs, first):
        cols = []
        for j in keep:
            d = dt
            if isinstance(dt, ADict):
                d = None
                for kk, vv in dt.pairs:
                    if same(I, kk, names[j]):
                        d = vv
            cols.append(column(I, [r[implicit + j] for r in rs], d, na))
        labels = [names[j] for j in keep]
        ic = k.get('index_col')
        if 'level names' in k:
            ix = Idx(cols[0], None)
            return Frame(dates(ix) if k.get('parse_dates') else ix,
                         Idx(labels[1:], names=list(k['level names'])),
                         cols[1:])
        tup = bool(labels) and all(isinstance(x, tuple) for x in labels)
        cix = Idx(labels, names=[None] * len(labels[0]) if tup else None)
        l = as_list(I, ic) if not isinstance(ic, (str, int)) and \
            ic is not None and ic is not False else None
        if l is not None:
            if len(l) != 1:
                raise Undecided('read_csv(index_col)')
            ic = l[0]
        if ic is None or ic is False:
            if implicit == 1:
                ix = Idx(column(I, [r[0] for r in rs], None, na))
            elif implicit:
                raise Undecided('read_csv: %d index columns' % implicit)
            else:
                ix = Idx(list(range(first, first + len(rs))))
            return Frame(ix, cix, cols)
        if isinstance(ic, int) and ic not in labels:
            j = ic
        elif ic in labels:
            j = labels.index(ic)
        else:
            I.throw('ValueError', 'Index %s invalid' % short(ic))
        ix = Idx(cols[j], labels[j])
        if k.get('parse_dates'):
            ix = dates(ix)
        return Frame(ix, Idx(labels[:j] + labels[j + 1:],
                             names=cix.names), cols[:j] + cols[j + 1:])
    nrows = k.get('nrows')
    if nrows is not None:
        if not isinstance(nrows, int) or isinstance(nrows, bool):
            raise Undecided('read_csv(nrows)')
        recs = recs[:nrows]
    ch = k.get('chunksize')
    if ch is None:
        return build(recs, 0)
    if isinstance(ch, float) and ch == int(ch):
        ch = int(ch)
    if not isinstance(ch, int) or ch < 1:
        I.throw('ValueError', "'chunksize' must be an integer >=1")
    if ch >= 10000 and chunk:
        ch = chunk              # a long table, cut short

    def gen():
        for i in range(0, len(recs), ch):
            yield build(recs[i:i + ch], i)
        if not recs and 'level names' in k:
            yield build(recs, 0)
    return AGen(gen(), 'reader')


# --------------------------------------------------------------------- disk
class File(Dom):
    __slots__ = ('disk', 'path', 'mode', 'pos', 'closed')

    def __init__(self, disk, path, mode):
        self.disk, self.path, self.mode = disk, path, mode
        self.pos, self.closed = 0, False

    def __repr__(self):
        return '<file %s>' % self.path

    def lines(self):
        t = self.disk.files[self.path][self.pos:]
        return t.splitlines(True)

    def d_truth(self, I):
        return True

    def d_iter(self, I):
        l = self.lines()
        self.pos = len(self.disk.files[self.path])
        return iter(l)

    def d_getattr(self, I, n):
        if n == 'name':
            return self.path
        if n == 'closed':
            return self.closed
        return NotImplemented

    def d_method(self, I, name, a, k):
        d = self.disk
        if name == '__enter__':
            return self
        if name in ('close', '__exit__', 'flush'):
            self.closed = name != 'flush' or self.closed
            return None
        if self.closed:
            I.throw('ValueError', 'I/O operation on closed file')
        if name in ('read', 'readlines', 'readline'):
            if a or k:
                raise Undecided(name)
            l = self.lines()
            if name == 'readline':
                r = l[0] if l else ''
                self.pos += len(r)
                return r
            self.pos = len(d.files[self.path])
            return AList(l) if name == 'readlines' else ''.join(l)
        if name == 'seek' and list(a) == [0]:
            self.pos = 0
            return 0
        if name in ('write', 'writelines'):
            x = a[0]
            if name == 'writelines':
                l = as_list(I, x)
                x = ''.join(l) if l is not None and all(
                    isinstance(y, str) for y in l) else None
            if not isinstance(x, str):
                raise Undecided('write %s' % short(a[0]))
            t = d.files[self.path]
            d.files[self.path] = t[:self.pos] + x + t[self.pos + len(x):]
            self.pos += len(x)
            return len(x)
        if name == 'getvalue':
            return d.files[self.path]
        return NotImplemented


class PathObj(Dom):
    __slots__ = ('disk', 'p')

    def __init__(self, disk, p):
        self.disk, self.p = disk, disk.norm(p)

    def __repr__(self):
        return 'Path(%s)' % self.p

    def d_truth(self, I):
        return True

    def d_str(self, I):
        return self.p

    def d_binop(self, I, op, other, right):
        if op == '/' and not right and isinstance(other, (str, PathObj)):
            o = other.p if isinstance(other, PathObj) else other
            return PathObj(self.disk, posixpath.join(self.p, o))
        return NotImplemented

    def d_getattr(self, I, n):
        if n == 'name':
            return posixpath.basename(self.p)
        if n == 'parent':
            return PathObj(self.disk, posixpath.dirname(self.p))
        if n == 'stem':
            return posixpath.splitext(posixpath.basename(self.p))[0]
        if n == 'suffix':
            return posixpath.splitext(self.p)[1]
        return NotImplemented

    def d_method(self, I, name, a, k):
        d = self.disk
        if name == 'glob':
            return AList([PathObj(d, p) for p in d.glob(
                posixpath.join(self.p, a[0]))])
        if name == 'iterdir':
            return AList([PathObj(d, posixpath.join(self.p, x))
                          for x in d.listdir(I, self.p)])
        if name in ('exists', 'is_dir', 'is_file'):
            return {'exists': d.exists(self.p), 'is_dir': self.p in d.dirs,
                    'is_file': self.p in d.files}[name]
        if name in ('__fspath__', 'as_posix', '__str__', 'resolve',
                    'absolute'):
            return self.p
        if name == 'joinpath':
            return PathObj(d, posixpath.join(self.p, *a))
        return NotImplemented


class Disk(object):
    """files in folders; a listing comes in the order `order` makes"""

    def __init__(self, files=(), reverse=False):
        self.files, self.dirs, self.reverse = {}, {'/', ''}, reverse
        self.moved, self.n, self.chunk = [], 0, None
        for p, t in dict(files).items():
            self.write(p, t)

    def write(self, p, t):
        self.files[p] = t
        self.mkdirs(posixpath.dirname(p))

    def mkdirs(self, d):
        while d not in self.dirs:
            self.dirs.add(d)
            d = posixpath.dirname(d)

    def norm(self, p):
        return posixpath.normpath(p)

    def exists(self, p):
        p = self.norm(p)
        return p in self.files or p in self.dirs

    def listdir(self, I, d):
        d = self.norm(d)
        if d not in self.dirs:
            I.throw('FileNotFoundError', d)
        l = sorted(posixpath.basename(p)
                   for p in list(self.files) + list(self.dirs)
                   if p != d and p and posixpath.dirname(p) == d)
        return l[::-1] if self.reverse else l

    def glob(self, pat):
        parts = pat.split('/')
        out = [p for p in list(self.files) + list(self.dirs)
               if len(p.split('/')) == len(parts) and all(
                   fnmatch.fnmatchcase(x, y) and (
                       not x.startswith('.') or y.startswith('.'))
                   for x, y in zip(p.split('/'), parts))]
        out.sort(reverse=self.reverse)
        return out

    def path(self, p):
        if isinstance(p, PathObj):
            p = p.p
        if not isinstance(p, str):
            raise Undecided('path %s' % short(p))
        if self.moved and not p.startswith('/'):
            raise Undecided('relative path after chdir')
        return self.norm(p)

    def below(self, d):
        return {p: t for p, t in self.files.items() if p.startswith(d + '/')}

    def models(self):
        D = self

        def fn(f):
            def g(I, a, k):
                if not a and not k:
                    raise Undecided('no path')
                p = a[0] if a else list(k.values())[0]
                return f(I, D.path(p), a, k)
            return g

        def walk(I, a, k):
            if k or len(a) != 1:
                raise Undecided('os.walk')
            out = []

            def go(d):
                l = D.listdir(I, d)
                ds = [x for x in l if D.norm(d + '/' + x) in D.dirs]
                out.append((d, AList(ds), AList(
                    [x for x in l if x not in ds])))
                for x in ds:
                    go(posixpath.join(d, x))
            p = D.path(a[0])
            if p in D.dirs:
                go(p)
            return AList(out)

        def open_(I, a, k):
            p = D.path(a[0] if a else k['file'])
            m = a[1] if len(a) > 1 else k.get('mode', 'r')
            if 'b' in m:
                raise Undecided('binary file')
            if 'r' in m and p not in D.files:
                I.throw('FileNotFoundError', p)
            if 'w' in m or p not in D.files:
                if posixpath.dirname(p) not in D.dirs:
                    I.throw('FileNotFoundError', p)
                D.files[p] = ''
            f = File(D, p, m)
            if 'a' in m:
                f.pos = len(D.files[p])
            return f

        def strio(I, a, k):
            D.n += 1
            p = '<text %d>' % D.n
            D.files[p] = a[0] if a else ''
            return File(D, p, 'r+')

        def mkdtemp(I, a, k):
            D.n += 1
            p = '/tmp/made%d' % D.n
            D.mkdirs(p)
            return p

        def copytree(I, a, k):
            s, t = D.path(a[0]), D.path(a[1])
            merge = k.get('dirs_exist_ok', False)
            if set(k) - {'dirs_exist_ok', 'symlinks'} or len(a) > 2 or \
                    not isinstance(merge, bool):
                raise Undecided('copytree')
            if s not in D.dirs:
                I.throw('FileNotFoundError', s)
            if D.exists(t) and not (merge and t in D.dirs):
                I.throw('FileExistsError', t)
            D.mkdirs(t)
            for p, x in list(D.below(s).items()):
                D.write(t + p[len(s):], x)
            return t

        def rmtree(I, p, a, k):
            if p not in D.dirs:
                if k.get('ignore_errors'):
                    return None
                I.throw('FileNotFoundError', p)
            for q in D.below(p):
                del D.files[q]
            D.dirs = {d for d in D.dirs if d != p and not d.startswith(
                p + '/')}

        def remove(I, p, a, k):
            if p not in D.files:
                I.throw('FileNotFoundError', p)
            del D.files[p]

        def makedirs(I, p, a, k):
            if D.exists(p) and not k.get('exist_ok'):
                I.throw('FileExistsError', p)
            D.mkdirs(p)

        def chdir(I, p, a, k):
            D.moved.append(p)

        def read_csv(I, a, k):
            p = a[0] if a else k.get('filepath_or_buffer')
            if isinstance(p, File):
                if p.closed:
                    I.throw('ValueError', 'I/O operation on closed file')
                t = D.files[p.path][p.pos:]
            else:
                p = D.path(p)
                if p not in D.files:
                    I.throw('FileNotFoundError', p)
                t = D.files[p]
            return read_text(I, t, a, k, D.chunk)

        def dump(I, a, k):
            from checks.tablecommon import pyval
            s = a[1] if len(a) > 1 else k.get('stream')
            t = yaml.safe_dump(pyval(a[0]))
            if s is None:
                return t
            if isinstance(s, File):
                return s.d_method(I, 'write', [t], {})
            raise Undecided('yaml.dump')

        def join(I, a, k):
            l = [x.p if isinstance(x, PathObj) else x for x in a]
            if any(x is None for x in l):
                I.throw('TypeError', 'join: expected str')
            if not all(isinstance(x, str) for x in l):
                raise Undecided('join')
            return posixpath.join(*l)

        self.ranges = []
        return {
            'os.path.join': join, 'posixpath.join': join,
            're.compile': lambda I, a, k: Pattern(a[0]),
            're.match': regex('match'), 're.search': regex('search'),
            're.fullmatch': regex('fullmatch'), 're.sub': regex('sub'),
            're.findall': regex('findall'), 're.split': regex('split'),
            'multiprocessing.Pool': lambda I, a, k: PoolObj(),
            'multiprocessing.pool.Pool': lambda I, a, k: PoolObj(),
            'os.path.isfile': fn(lambda I, p, a, k: p in D.files),
            'os.path.isdir': fn(lambda I, p, a, k: p in D.dirs),
            'os.path.exists': fn(lambda I, p, a, k: D.exists(p)),
            'os.listdir': fn(lambda I, p, a, k: AList(D.listdir(I, p))),
            'os.walk': walk,
            'os.remove': fn(remove), 'os.unlink': fn(remove),
            'os.makedirs': fn(makedirs), 'os.mkdir': fn(makedirs),
            'os.chdir': fn(chdir),
            'os.getcwd': lambda I, a, k: '/cwd',
            'os.path.abspath': fn(lambda I, p, a, k: p),
            'os.path.basename': fn(lambda I, p, a, k: posixpath.basename(p)),
            'os.path.dirname': fn(lambda I, p, a, k: posixpath.dirname(p)),
            'glob.glob': fn(lambda I, p, a, k: AList(D.glob(p))),
            'glob.iglob': fn(lambda I, p, a, k: AList(D.glob(p))),
            'pathlib.Path': lambda I, a, k: PathObj(D, posixpath.join(
                *[x.p if isinstance(x, PathObj) else x for x in a])),
            'builtins.open': open_, 'io.open': open_,
            'io.StringIO': strio,
            'tempfile.mkdtemp': mkdtemp,
            'tempfile.gettempdir': lambda I, a, k: '/tmp',
            'shutil.copytree': copytree, 'shutil.rmtree': fn(rmtree),
            'pandas.read_csv': read_csv,
            'pandas.to_datetime': to_datetime,
            'pandas.Timestamp': timestamp,
            'pandas.DatetimeIndex': datetimeindex,
            'pandas.date_range': date_range(self.ranges),
            'yaml.dump': dump, 'yaml.safe_dump': dump,
        }


class Store(Dom):
    """notes what is put, as an HDF5 file would keep it"""
    __slots__ = ('keys', 'log', 'open_', 'hdf', 'plain')

    def __init__(self, hdf=False):
        self.keys, self.log, self.open_ = {}, [], True
        self.hdf, self.plain = hdf, set()

    def __repr__(self):
        return '<store>'

    def d_truth(self, I):
        return True

    def d_contains(self, I, key):
        self.check(I)
        return self.norm(key) in self.keys

    def norm(self, key):
        if not isinstance(key, str):
            raise Undecided('key %s' % short(key))
        return '/' + key.strip('/')

    def check(self, I):
        if not self.open_:
            I.throw('nilmtk.ClosedStore', 'the store is closed')

    def d_method(self, I, name, a, k):
        if name in ('__enter__',):
            return self
        if name in ('close', '__exit__'):
            self.open_ = False
            return None
        if name == 'open':
            self.open_ = True
            m = arg(a, k, 0, 'mode', 'a')
            if isinstance(m, str) and m.startswith('w'):
                self.keys.clear()
            return None
        if name == 'flush':
            self.check(I)
            return None
        if name in ('put', 'append'):
            self.check(I)
            key, v = arg(a, k, 0, 'key'), arg(a, k, 1, 'value')
            if isinstance(key, (Frame, Series)) or isinstance(
                    v, (str, int, type(None))):
                I.throw('TypeError', 'a table is stored under a key')
            key = self.norm(key)
            if not isinstance(v, Frame):
                raise Undecided('stored %s' % short(v))
            v = Frame(v.idx, v.cols, [list(d) for d in v.data])
            fmt = str(k.get('format', '')).lower()
            more = name == 'append' or k.get('append')
            if self.hdf and name == 'put' and fmt not in ('table', 't') and \
                    not more:
                self.plain.add(key)
            if more and key in self.keys:
                if key in self.plain:
                    I.throw('ValueError', 'Can only append to Tables')
                self.keys[key].append(v)
            else:
                self.keys[key] = [v]
            self.log.append((name, key))
            return None
        return NotImplemented


def regex(name):
    def f(I, a, k):
        if k or not all(isinstance(x, str) for x in a):
            raise Undecided('re.%s' % name)
        try:
            r = getattr(_re, name)(*a)
        except _re.error as e:
            I.throw('re.error', str(e))
        if name in ('findall', 'split'):
            return AList(r)
        if name == 'sub' or r is None:
            return r
        return MatchObj(r)
    return f


class Pattern(Dom):
    __slots__ = ('p',)

    def __init__(self, p):
        if not isinstance(p, str):
            raise Undecided('re.compile')
        self.p = p

    def d_truth(self, I):
        return True

    def d_method(self, I, name, a, k):
        if name in ('match', 'search', 'fullmatch', 'sub', 'findall',
                    'split'):
            return regex(name)(I, [self.p] + list(a), k)
        return NotImplemented


class PoolObj(Dom):
    __slots__ = ()

    def d_truth(self, I):
        return True

    def d_method(self, I, name, a, k):
        if name in ('map', 'imap', 'starmap'):
            return AList([I.call(a[0], list(x) if name == 'starmap' else [x],
                                 {}) for x in I.iterate(a[1])])
        if name in ('close', 'join', 'terminate', '__exit__'):
            return None
        if name == '__enter__':
            return self
        return NotImplemented
