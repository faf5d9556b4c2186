"""Numerical/time domains: linear forms over atoms compared by sign.

`Lin` stands for a time stamp, a duration or a number.  Comparisons are
decided from (1) a rank valuation of atoms when the difference is a difference
of two ranked atoms (the finite set of orderings), (2) facts already assumed on
this path, (3) otherwise by a recorded non-deterministic choice.  There is no
arithmetic solver: implication is "known fact plus a non-negative
combination of positive atoms".
"""
from fractions import Fraction

from values import Dom, Opq, Ext, AList, ADict, AObj, Native, short, key_of
from interp import ASlice, SCALAR
import models as M


def near_multiple(how, c, w, zero=None):
    """the multiple of w at c; halves go to the even one from zero on"""
    if how == 'floor':
        return c // w * w
    if how == 'ceil':
        return -(-c // w) * w
    if c % w * 2 != w:
        return (c + Fraction(w) / 2) // w * w
    if zero is None:
        return None
    return c // w * w + (w if (zero + c) // w % 2 else 0)


class Lin(Dom):
    __slots__ = ('kind', 'co', 'const', 'tz')

    def __init__(self, kind, co=None, const=0, tz=None):
        self.kind = kind            # 'ts' | 'td' | 'num'
        self.co = {k: Fraction(v) for k, v in (co or {}).items() if v}
        self.const = Fraction(const)
        self.tz = tz

    def __repr__(self):
        s = '+'.join(('%s' % k if v == 1 else '%s*%s' % (v, k))
                     for k, v in sorted(self.co.items()))
        if self.const:
            s += '%+g' % float(self.const)
        return s or '0'

    def d_key(self):
        return ('lin', self.kind, tuple(sorted(self.co.items())), self.const,
                key_of(self.tz))

    def d_deepcopy(self, I, memo):
        return self

    # algebra
    def add(self, other, sign=1):
        co = dict(self.co)
        for k, v in other.co.items():
            co[k] = co.get(k, 0) + sign * v
        return Lin(self.kind, co, self.const + sign * other.const, self.tz)

    def scale(self, f):
        return Lin(self.kind, {k: v * f for k, v in self.co.items()},
                   self.const * f, self.tz)

    def is_const(self):
        return not self.co

    def d_truth(self, I):
        if self.kind == 'ts':
            return True
        return sign(I, self) != 0

    def d_isinstance(self, I, cls):
        n = cls.name.rsplit('.', 1)[-1] if isinstance(cls, Ext) else \
            getattr(cls, 'name', '')
        return n in {'ts': ('Timestamp', 'datetime', 'date', 'object'),
                     'td': ('Timedelta', 'timedelta', 'object'),
                     'num': ('float', 'Number', 'Real', 'object', 'int')
                     }[self.kind]

    def d_compare(self, I, op, other, swapped):
        if other is None:
            if op in ('==', 'is'):
                return False
            if op == '!=':
                return True
            I.throw('TypeError', 'ordering with None')
        if isinstance(other, Ext) and other.name.endswith('NaT'):
            return op == '!='
        if isinstance(other, AObj) and other.cls.name == 'TimeFrame':
            return NotImplemented
        o = lift(other)
        if o is None:
            if op == 'is':
                return False
            if op in ('==', '!=') and isinstance(other, (str, tuple, AList,
                                                         ADict)):
                return op == '!='
            return NotImplemented
        if op == 'is':
            return self is other
        k = {self.kind, o.kind}
        if 'ts' in k and len(k) > 1:
            if op in ('==', '!='):
                return op == '!='
            I.throw('TypeError', 'compare ' + '/'.join(k))
        if len(k) > 1:
            # numpy takes a bare number for the unit of the time difference
            o, me = [x.scale(Fraction(1, 10 ** 9)) if x.kind == 'num' else x
                     for x in (o, self)]
        else:
            me = self
        if op in ('==', '!='):
            r = sign(I, me.add(o, -1)) == 0
            return r if op == '==' else not r
        s = sign(I, me.add(o, -1))
        return {'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0}[op]

    def d_binop(self, I, op, other, swapped):
        r = self._binop(I, op, other, swapped)
        return plain(r) if isinstance(r, Lin) else r

    def _binop(self, I, op, other, swapped):
        if other is None:
            I.throw('TypeError', 'unsupported operand None')
        if isinstance(other, float) and other != other and \
                self.kind == 'num' and op in ('+', '-', '*', '/'):
            return other
        o = lift(other)
        if o is None:
            return NotImplemented
        a, b = (o, self) if swapped else (self, o)
        if op == '+':
            if a.kind == 'ts' and b.kind == 'ts':
                I.throw('TypeError', 'ts + ts')
            if 'ts' in (a.kind, b.kind) and 'num' in (a.kind, b.kind):
                I.throw('TypeError', 'ts + number')
            kind = 'ts' if 'ts' in (a.kind, b.kind) else a.kind
            if {a.kind, b.kind} == {'td', 'num'}:
                if (b if a.kind == 'td' else a).is_const() and \
                        (b if a.kind == 'td' else a).const == 0:
                    return a if a.kind == 'td' else b
                I.throw('TypeError', 'td + number')
            r = a.add(b)
            r.kind = kind
            r.tz = a.tz or b.tz
            return r
        if op == '-':
            if a.kind == 'ts' and b.kind == 'ts':
                r = a.add(b, -1)
                r.kind = 'td'
                r.tz = None
                return r
            if b.kind == 'ts':
                I.throw('TypeError', 'x - ts')
            if a.kind == 'ts' and b.kind == 'num':
                I.throw('TypeError', 'ts - number')
            r = a.add(b, -1)
            r.kind = a.kind
            return r
        if op in ('*', '/'):
            if b.is_const() and b.kind == 'num' and a.kind != 'ts':
                if op == '/' and b.const == 0:
                    I.throw('ZeroDivisionError', 'division by zero')
                f = b.const if op == '*' else 1 / b.const
                return a.scale(f)
            if op == '*' and a.is_const() and a.kind == 'num' and \
                    b.kind != 'ts':
                return b.scale(a.const)
            if op == '/' and a.kind == 'td' and b.kind == 'td' and \
                    b.is_const() and b.const:
                r = a.scale(1 / b.const)
                r.kind = 'num'
                return r
            if 'ts' not in (a.kind, b.kind):
                kind = 'num' if a.kind == b.kind else 'td'
                if op == '*' and a.kind == b.kind == 'td':
                    I.throw('TypeError', 'td * td')
                r = mul(a, b) if op == '*' else mul(a, inverse(b))
                r.kind = kind if op == '*' or a.kind != b.kind else 'num'
                return r
        if op == '**' and not swapped and b.is_const():
            e = b.const
            if e == 2:
                return mul(a, a)
            if e == 1:
                return a
            if e == 0:
                return Lin('num', {}, 1)
            if e == Fraction(1, 2):
                return root(a)
            if e == -1:
                return inverse(a)
        return NotImplemented

    def d_unop(self, I, op):
        if op == '-' and self.kind != 'ts':
            return self.scale(-1)
        if op == '+':
            return self
        return NotImplemented

    def d_abs(self, I):
        return self if sign(I, self) >= 0 else self.scale(-1)

    def d_float(self, I):
        return self

    def d_getattr(self, I, name):
        if self.kind == 'ts':
            if name in ('tz', 'tzinfo'):
                return self.tz
            if name == 'tz_localize':
                return Native(lambda I, a, k: self.with_tz(a[0] if a
                                                           else k.get('tz')),
                              name)
            if name == 'tz_convert':
                return Native(lambda I, a, k: self.with_tz(a[0] if a
                                                           else k.get('tz')),
                              name)
            if name in ('to_pydatetime', 'to_datetime64', 'to_timestamp'):
                return Native(lambda I, a, k: self, name)
            if name in ('floor', 'ceil', 'round') and \
                    self.co == {'T': 1}:
                # (T is the start of a period of every length, as resample
                # has it)
                def cut(I, a, k):
                    from tables import period_of
                    f = a[0] if a else k.get('freq')
                    w = period_of(f)
                    if not w or len(a) > 1 or set(k) - {'freq'}:
                        return NotImplemented
                    c = near_multiple(name, self.const, w)
                    return NotImplemented if c is None else \
                        Lin('ts', self.co, c, self.tz)
                return Native(cut, name)
            if name == 'isoformat':
                return Native(lambda I, a, k: Opq('iso', (self,),
                                                  types={'str'}), name)
            if name == '__class__':
                return Ext('pandas.Timestamp')
        if self.kind == 'td':
            if name == 'total_seconds':
                def ts(I, a, k):
                    return plain(Lin('num', self.co, self.const))
                return Native(ts, name)
            if not self.co and name in ('days', 'seconds', 'microseconds',
                                        'value'):
                c = self.const
                return int({'days': c // 86400, 'seconds': c % 86400 // 1,
                            'microseconds': c % 1 * 10 ** 6,
                            'value': c * 10 ** 9}[name])
            if name == '__class__':
                return Ext('datetime.timedelta')
        return NotImplemented

    def with_tz(self, tz):
        return Lin(self.kind, self.co, self.const, tz)


def canon(l):
    """(sign-and-scale normalised form, factor): l == factor * form"""
    keys = sorted(l.co)
    f = l.co[keys[0]] if keys else l.const
    return l.scale(1 / f), f


def text(l):
    return '(%s)' % ' + '.join(
        ['%s.%s' % (v, k) for k, v in sorted(l.co.items())] +
        ([str(l.const)] if l.const else []))


def factors(key):
    """factors of a monomial key; '*' never occurs inside brackets' depth 0
    except between factors"""
    out, depth, cur = [], 0, ''
    for ch in key:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == '*' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur]


def monomial(fs):
    """product of factors, cancelling x against inv(x)"""
    fs = list(fs)
    done = False
    while not done:
        done = True
        for f in fs:
            g = 'inv(1.%s)' % f
            if g in fs:
                fs.remove(f)
                fs.remove(g)
                done = False
                break
    return '*'.join(sorted(fs))


def mul(a, b):
    co = {}
    const = a.const * b.const
    if a.co and b.co:
        # (polynomial) * inverse of the same polynomial
        for x, y in ((a, b), (b, a)):
            if len(y.co) == 1 and not y.const:
                (k, v), = y.co.items()
                n, f = canon(x)
                if k == 'inv%s' % text(n):
                    return Lin('num', {}, f * v)

    def put(k, v):
        nonlocal const
        if k == '':
            const += v
        else:
            co[k] = co.get(k, 0) + v
    for k, v in a.co.items():
        if b.const:
            put(k, v * b.const)
        for k2, v2 in b.co.items():
            put(monomial(factors(k) + factors(k2)), v * v2)
    if a.const:
        for k2, v2 in b.co.items():
            put(k2, v2 * a.const)
    return Lin('num', co, const)


def inverse(b):
    if not b.co:
        return Lin('num', {}, 1 / b.const)
    n, f = canon(b)
    if len(n.co) == 1 and not n.const:
        # the inverse of a monomial is the monomial of inverses
        fs = []
        for x in factors(list(n.co)[0]):
            if x.startswith('inv(1.') and x.endswith(')'):
                fs.append(x[6:-1])
            else:
                fs.append('inv(1.%s)' % x)
        return Lin('num', {monomial(fs): 1 / f})
    return Lin('num', {'inv%s' % text(n): 1 / f})


def root(a):
    if not a.co:
        import math
        return Lin('num', {}, Fraction(math.sqrt(a.const)))
    return Lin('num', {'sqrt%s' % text(a): 1})


def absolute(a):
    if not a.co:
        return Lin('num', {}, abs(a.const))
    n, f = canon(a)
    return Lin('num', {'abs%s' % text(n): abs(f)})


def atom(kind, name, tz=None):
    return Lin(kind, {name: 1}, 0, tz)


def plain(l):
    if l.kind == 'num' and not l.co:
        return int(l.const) if l.const.denominator == 1 else float(l.const)
    return l


def lift(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, bool):
        return Lin('num', {}, int(v))
    if isinstance(v, (int, float)):
        if v != v or v in (float('inf'), float('-inf')):
            return None
        return Lin('num', {}, Fraction(v))
    return None


def sign(I, d):
    """-1, 0, 1"""
    if not d.co:
        return (d.const > 0) - (d.const < 0)
    ranks = getattr(I, 'ranks', {})
    if all(k in ranks for k in d.co) and d.const == 0 and len(d.co) <= 2:
        ks = sorted(d.co)
        if len(ks) == 1:
            zero = ranks.get('@zero')
            if zero is not None:
                r = ranks[ks[0]]
                s = (r > zero) - (r < zero)
                return s if d.co[ks[0]] > 0 else -s
        elif d.co[ks[0]] == -d.co[ks[1]]:
            x, y = ranks[ks[0]], ranks[ks[1]]
            s = (x > y) - (x < y)
            return s if d.co[ks[0]] > 0 else -s
    # canonical orientation
    lead = sorted(d.co)[0]
    flip = d.co[lead] < 0
    c = d.scale(-1) if flip else d
    f = abs(c.co[lead])
    c = c.scale(1 / f)
    key = ('sign', tuple(sorted(c.co.items())), c.const)
    s = I.facts.get(key)
    if s is None:
        s = implied(I, c)
        if s is None:
            opts = allowed(I, c)
            s = opts[I.choose(len(opts), 'sign(%r)' % (c,))]
            I.facts.setdefault('__signs__', []).append((c, s))
        I.facts[key] = s
    return -s if flip else s


def lower(I, d):
    """'pos', 'nonneg' or None: provable lower bound of d from positive
    atoms and rank order."""
    pos = getattr(I, 'positive', ())
    ranks = getattr(I, 'ranks', {})
    if d.const < 0:
        return None
    strict = d.const > 0
    rest = {}
    for k, v in d.co.items():
        if k in pos:
            if v < 0:
                return None
            strict = True
        else:
            rest[k] = v
    if rest:
        # pair up ranked atoms: +a -b with rank a >= rank b
        up = [(ranks.get(k), v, k) for k, v in rest.items() if v > 0]
        dn = [(ranks.get(k), -v, k) for k, v in rest.items() if v < 0]
        if any(r is None for r, _, _ in up + dn):
            return None
        if sum(v for _, v, _ in up) != sum(v for _, v, _ in dn):
            return None
        up.sort()
        dn.sort()
        i = j = 0
        up = [list(x) for x in up]
        dn = [list(x) for x in dn]
        while i < len(up) and j < len(dn):
            if up[i][0] < dn[j][0]:
                return None
            if up[i][0] > dn[j][0]:
                strict = True
            m = min(up[i][1], dn[j][1])
            up[i][1] -= m
            dn[j][1] -= m
            if up[i][1] == 0:
                i += 1
            if dn[j][1] == 0:
                j += 1
    return 'pos' if strict else 'nonneg'


def implied(I, c):
    facts = I.facts.get('__signs__', [])
    cands = [(Lin('num'), 0)] + [(f, s) for f, s in facts]
    for f, s in cands:
        # f has sign s: if s>=0, c - t*f >= 0 gives c >= 0 (t in 1)
        for mult in ((1,) if f.co else (1,)):
            if s >= 0:
                l = lower(I, c.add(f, -1))
                if l == 'pos' or (l == 'nonneg' and s > 0):
                    return 1
            if s <= 0:
                l = lower(I, f.add(c, -1))
                if l == 'pos' or (l == 'nonneg' and s < 0):
                    return -1
            # opposite orientation facts: -f has sign -s
            if -s >= 0:
                l = lower(I, c.add(f))
                if l == 'pos' or (l == 'nonneg' and -s > 0):
                    return 1
            if -s <= 0:
                l = lower(I, f.scale(-1).add(c, -1))
                if l == 'pos' or (l == 'nonneg' and -s < 0):
                    return -1
    return None


def allowed(I, c):
    """signs not contradicted by nonneg/nonpos implications"""
    opts = [1, 0, -1]
    facts = I.facts.get('__signs__', [])
    for f, s in [(Lin('num'), 0)] + facts:
        for g, t in ((f, s), (f.scale(-1), -s)):
            if t >= 0 and lower(I, c.add(g, -1)):
                if -1 in opts:
                    opts.remove(-1)
            if t <= 0 and lower(I, g.add(c, -1)):
                if 1 in opts:
                    opts.remove(1)
    return opts or [0]


def assume(I, d, s):
    lead = sorted(d.co)[0]
    flip = d.co[lead] < 0
    c = d.scale(-1) if flip else d
    c = c.scale(1 / abs(c.co[lead]))
    I.facts[('sign', tuple(sorted(c.co.items())), c.const)] = \
        -s if flip else s
    I.facts.setdefault('__signs__', []).append((c, -s if flip else s))


# ------------------------------------------------------------ library models
def _timestamp(I, a, k):
    v = a[0] if a else k.get('ts_input')
    tz = a[1] if len(a) > 1 else k.get('tz')
    if v is None:
        return Ext('pandas.NaT')
    if isinstance(v, Ext) and v.name.endswith('NaT'):
        return Ext('pandas.NaT')
    if isinstance(v, Lin) and v.kind == 'ts':
        return v if tz is None else v.with_tz(tz)
    if isinstance(v, Opq) and v.op in ('iso', 'strcat') and \
            len(v.args) == 1 and isinstance(v.args[0], Lin):
        return v.args[0]
    if isinstance(v, str):
        if v in ('NaT', ''):
            return Ext('pandas.NaT')
        return atom('ts', "'%s'" % v, tz)
    return NotImplemented


M.MODELS['pandas.Timestamp'] = _timestamp
M.MODELS['pandas.to_datetime'] = _timestamp


def _timedelta(I, a, k):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes',
             'hours', 'weeks']
    unit = {'days': 86400, 'seconds': 1, 'minutes': 60, 'hours': 3600,
            'weeks': 604800, 'microseconds': Fraction(1, 10 ** 6),
            'milliseconds': Fraction(1, 1000)}
    tot = Lin('td')
    vals = dict(zip(names, a))
    vals.update(k)
    for n, v in vals.items():
        if n not in unit:
            return NotImplemented
        l = lift(v)
        if l is None:
            if v is None:
                I.throw('TypeError', 'timedelta None')
            return NotImplemented
        tot = tot.add(l.scale(unit[n]))
    tot.kind = 'td'
    return tot


M.MODELS['datetime.timedelta'] = _timedelta


def _pdtimedelta(I, a, k):
    if a and isinstance(a[0], (int, float, Lin)) and (
            len(a) > 1 or 'unit' in k):
        u = a[1] if len(a) > 1 else k['unit']
        unit = {'s': 1, 'S': 1, 'sec': 1, 'seconds': 1, 'm': 60, 'min': 60,
                'h': 3600, 'H': 3600, 'D': 86400, 'd': 86400,
                'ms': Fraction(1, 1000)}.get(u)
        l = lift(a[0])
        if unit and l is not None:
            r = l.scale(unit)
            r.kind = 'td'
            return r
        return NotImplemented
    if a:
        if isinstance(a[0], Lin) and a[0].kind == 'td':
            return a[0]
        return NotImplemented
    return _timedelta(I, a, k)


M.MODELS['pandas.Timedelta'] = _pdtimedelta
def _isnull(I, a, k):
    v = a[0]
    if v is None or (isinstance(v, Ext) and v.name.endswith('NaT')):
        return True
    if isinstance(v, Lin):
        return False
    if isinstance(v, float):
        return v != v
    if isinstance(v, (int, str)):
        return False
    return NotImplemented
for _n in ('pandas.isnull', 'pandas.isna', 'numpy.isnan'):
    M.MODELS[_n] = _isnull


def _notnull(I, a, k):
    r = _isnull(I, a, k)
    return NotImplemented if r is NotImplemented else not r


M.MODELS['pandas.notnull'] = M.MODELS['pandas.notna'] = _notnull
for _n in ('nan', 'NaN', 'NAN'):
    M.MODELS[('attr', 'numpy.' + _n)] = float('nan')
for _n in ('inf', 'Inf', 'infty'):
    M.MODELS[('attr', 'numpy.' + _n)] = float('inf')


# ------------------------------------------------------------ generic row
class Rows(Dom):
    """A DataFrame/Series seen through one generic row with time stamp `t`.

    present : is that row in the frame?   (True/False)
    base    : the frame this one was derived from
    """
    __slots__ = ('t', 'present', 'attrs', 'base', 'name')

    def __init__(self, t, present=True, base=None, name='frame'):
        self.t = t
        self.present = present
        self.attrs = {}
        self.base = base
        self.name = name

    def __repr__(self):
        return '<%s: row %r %s>' % (self.name, self.t,
                                    'kept' if self.present else 'dropped')

    def derive(self, present):
        r = Rows(self.t, self.present and present, self, self.name)
        return r

    def d_getattr(self, I, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == 'index':
            return RowIndex(self)
        if name in ('loc', 'ix'):
            return RowLoc(self)
        if name == 'iloc':
            return RowILoc(self)
        if name in ('head', 'tail'):
            return Native(lambda I, a, k: self.derive(False)
                          if a and a[0] == 0 else NotImplemented, name)
        if name == 'truncate':
            def tr(I, a, k):
                b = a[0] if a else k.get('before')
                e = a[1] if len(a) > 1 else k.get('after')
                return self.derive(between(I, self.t, b, e, True))
            return Native(tr, name)
        if name in ('copy', 'sort_index', 'rename', 'astype'):
            return Native(lambda I, a, k: self.derive(True), name)
        return NotImplemented

    def d_setattr(self, I, name, value):
        self.attrs[name] = value
        I.event('setattr', obj=self, name=name, value=value)

    def d_getitem(self, I, key):
        if isinstance(key, Mask):
            return self.derive(key.b)
        if isinstance(key, ASlice) and key.step is None:
            if ok_bound(key.start) and ok_bound(key.stop):
                return self.derive(between(I, self.t, key.start, key.stop,
                                           True))
        if isinstance(key, (str, AList, tuple)):
            return self.derive(True)
        return NotImplemented


def ok_bound(x):
    return x is None or (isinstance(x, Lin) and x.kind == 'ts')


def between(I, t, a, b, closed):
    if a is not None and not I.truth(I.compare('>=', t, a)):
        return False
    if b is not None and not I.truth(
            I.compare('<=' if closed else '<', t, b)):
        return False
    return True


class RowLoc(Dom):
    __slots__ = ('rows',)

    def __init__(self, rows):
        self.rows = rows

    def d_getitem(self, I, key):
        if isinstance(key, tuple) and key:
            key = key[0]
        return self.rows.d_getitem(I, key)


class RowILoc(Dom):
    __slots__ = ('rows',)

    def __init__(self, rows):
        self.rows = rows

    def d_getitem(self, I, key):
        if isinstance(key, tuple) and key:
            key = key[0]
        if isinstance(key, ASlice) and key.step in (None, 1):
            a, b = key.start, key.stop
            if b == 0 or (isinstance(a, int) and a == b):
                return self.rows.derive(False)
            if a in (None, 0) and b is None:
                return self.rows.derive(True)
        if isinstance(key, Mask):
            return self.rows.derive(key.b)
        if isinstance(key, AList) and not key.items:
            return self.rows.derive(False)
        return NotImplemented


class RowIndex(Dom):
    __slots__ = ('rows',)

    def __init__(self, rows):
        self.rows = rows

    def d_compare(self, I, op, other, swapped):
        if isinstance(other, Lin) and other.kind == 'ts':
            return Mask(I.truth(I.compare(op, self.rows.t, other)))
        if other is None and op not in ('==', '!=', 'is'):
            I.throw('TypeError', 'Invalid comparison with None')
        return NotImplemented


class Mask(Dom):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'mask(%s)' % self.b

    def d_key(self):
        return ('mask', self.b)

    def d_binop(self, I, op, other, swapped):
        o = other.b if isinstance(other, Mask) else \
            other if isinstance(other, bool) else None
        if o is None:
            return NotImplemented
        if op == '&':
            return Mask(self.b and o)
        if op == '|':
            return Mask(self.b or o)
        if op == '^':
            return Mask(self.b != o)
        return NotImplemented

    def d_unop(self, I, op):
        if op == '~':
            return Mask(not self.b)
        return NotImplemented

    def d_truth(self, I):
        I.throw('ValueError', 'truth value of an array is ambiguous')


def _logand(op):
    def f(I, a, k):
        return I.binop(op, a[0], a[1])
    return f


M.MODELS['numpy.logical_and'] = _logand('&')
M.MODELS['numpy.logical_or'] = _logand('|')
M.MODELS['numpy.logical_not'] = lambda I, a, k: I.unop('~', a[0])


def weak_orders(atoms):
    """all weak orderings of the atoms as dicts atom->rank"""
    import itertools
    out = []
    n = len(atoms)
    for ranks in itertools.product(range(n), repeat=n):
        if set(ranks) == set(range(max(ranks) + 1)):
            out.append({a: r for a, r in zip(atoms, ranks)})
    return out


def _range(I, a, k):
    if not any(isinstance(x, Lin) for x in a):
        return M._range(I, a, k)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else \
        (a[0], a[1], a[2] if len(a) > 2 else 1)
    lo, hi, st = lift(lo), lift(hi), lift(st)
    if None in (lo, hi, st):
        return NotImplemented

    def gen():
        cur = lo
        n = 0
        s = sign(I, st)
        if s == 0:
            I.throw('ValueError', 'range() arg 3 must not be zero')
        while True:
            d = sign(I, hi.add(cur, -1))
            if (s > 0 and d <= 0) or (s < 0 and d >= 0):
                return
            yield plain(cur)
            cur = cur.add(st)
            n += 1
            if n > 40:
                from interp import Undecided
                raise Undecided('range bound')
    from values import AGen
    return AList(gen())


M.MODELS['builtins.range'] = _range
M.MODELS['numpy.arange'] = _range


def _ident_num(I, a, k):
    v = a[0]
    if isinstance(v, (int, float, Lin)):
        return v
    return NotImplemented


for _n in ('int64', 'int32', 'float64', 'float32', 'uint16', 'uint32'):
    M.MODELS['numpy.' + _n] = _ident_num


def _rounder(f):
    def g(I, a, k):
        v = a[0]
        if isinstance(v, (int, float)):
            import math
            return float(getattr(math, f)(v))
        return NotImplemented
    return g


M.MODELS['numpy.ceil'] = _rounder('ceil')
M.MODELS['numpy.floor'] = _rounder('floor')


def _mathround(f):
    def g(I, a, k):
        v = a[0]
        if isinstance(v, (int, float)):
            import math
            return getattr(math, f)(v)
        return NotImplemented
    return g


M.MODELS['math.ceil'] = _mathround('ceil')
M.MODELS['math.floor'] = _mathround('floor')
