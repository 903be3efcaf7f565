"""Abstract interpretation of the array kernels, cell by cell.

The kernels of cheval.core are loops over small arrays. This interpreter follows their source over arrays whose shape and
whose integer cells (trees, levels, flags) are constants and whose real cells are elements of an algebraic domain: quotients of
polynomials over symbols (the utility of a node, its exponential, a scale, a random draw), with their signs. Two values are equal
if they have the same normal form, and a comparison is decided by the signs of symbols: no number is ever chosen for a utility.
Where a comparison stays open, both outcomes are followed and the assumption is kept with the path.
Nothing of the analysed program is executed and no solver is involved.
"""
from __future__ import annotations

import ast
import math
import operator
import random
from fractions import Fraction as Q

INF, NAN = math.inf, math.nan


class Unknown(Exception):
    """The source does something this domain has no value for."""


class Defect(Exception):
    """The source does something that is wrong in every reading: memory out of range, or never written."""

    def __init__(self, text, node=None):
        super().__init__(text)
        self.text, self.node = text, node


class Raised(Exception):
    def __init__(self, name, node=None):
        super().__init__(name)
        self.name, self.node = name, node


# ------------------------------------------------------------------ symbols
class Atom:
    __slots__ = ('kind', 'key', 'pos', 'tags', 'n', 'arg')

    def __repr__(self):
        if self.kind == 'exp':
            return f'exp({self.arg})'
        if self.kind == 'log':
            return f'log({self.arg})'
        return '%s%s' % (self.kind, ''.join(f'[{k}]' for k in self.key)) if isinstance(self.key, tuple) else f'{self.kind}'


ATOMS, LIST = {}, []


def atom(kind, key=(), pos=False, tags=(), arg=None):
    a = ATOMS.get((kind, key))
    if a is None:
        a = Atom()
        a.kind, a.key, a.pos, a.tags, a.n, a.arg = kind, key, pos, frozenset(tags), len(LIST), arg
        ATOMS[kind, key] = a
        LIST.append(a)
    return a


def sym(kind, key=(), pos=False, tags=()):
    return Rat({((atom(kind, key, pos, tags).n, 1),): Q(1)})


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e != 0))


def minv(m, k=-1):
    return tuple((a, e * k) for a, e in m)


WORK = [0, 1_500_000]        # products of terms made for one witness, and how many may be made


def work(n):
    WORK[0] += n
    if WORK[0] > WORK[1]:
        raise Unknown('terms too large')


def pmul(p, q):
    out = {}
    work(len(p) * len(q))
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = out.get(k, 0) + c * d
            if v:
                out[k] = v
            else:
                out.pop(k, None)
    return out


def padd(p, q, f=1):
    out = dict(p)
    for m, c in q.items():
        v = out.get(m, 0) + f * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def content(p):
    """(coefficient, monomial, primitive part)"""
    ms = list(p)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            common[a] = min(common[a], d.get(a, 0))
        for a, e in m:
            if a not in common and e < 0:
                common[a] = e
    for a in list(common):      # absent in some term: exponent 0 there
        if any(a not in dict(m) for m in ms):
            common[a] = min(common[a], 0)
    mono = tuple(sorted((a, e) for a, e in common.items() if e != 0))
    inv = minv(mono)
    q = {mmul(m, inv): c for m, c in p.items()}
    lead = q[min(q)]
    return lead, mono, {m: c / lead for m, c in q.items()}


def pkey(p):
    return tuple(sorted(p.items()))


class Rat:
    """A quotient of polynomials; the denominator is kept in factors."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=()):
        self.num, self.den = num, den
        if not num:
            self.den = ()
        elif den:
            self._cancel()

    def _cancel(self):
        den = dict(self.den)
        num = self.num
        if len(num) > 1:
            again = True
            while again:
                again = False
                c, m, prim = content(num)
                k = pkey(prim)
                if k in den:
                    den[k] -= 1
                    if not den[k]:
                        del den[k]
                    num = {m: c}
                    break
                for f in list(den):       # exact division by a factor of the denominator
                    if len(f) < len(num) and len(num) % len(f) == 0:
                        q = pdiv(num, dict(f))
                        if q is not None:
                            num = q
                            den[f] -= 1
                            if not den[f]:
                                del den[f]
                            again = len(num) > 1
                            break
        self.num, self.den = num, tuple(sorted(den.items()))

    def const(self):
        if not self.num:
            return Q(0)
        if not self.den and len(self.num) == 1 and () in self.num:
            return self.num[()]
        return None

    def key(self):
        return (pkey(self.num), self.den)

    def atoms(self):
        out = set()
        for m in self.num:
            out |= {a for a, _ in m}
        for f, _ in self.den:
            for m, _c in f:
                out |= {a for a, _ in m}
        return out

    def tags(self):
        out = set()
        for a in self.atoms():
            out |= LIST[a].tags
        return out

    def __add__(self, o):
        if not isinstance(o, Rat):
            return NotImplemented
        if not self.num:
            return o
        if not o.num:
            return self
        if self.den == o.den:
            return Rat(padd(self.num, o.num), self.den)
        d1, d2 = dict(self.den), dict(o.den)
        lcm = {f: max(d1.get(f, 0), d2.get(f, 0)) for f in {**d1, **d2}}

        def up(n, d):
            for f, k in lcm.items():
                for _ in range(k - d.get(f, 0)):
                    n = pmul(n, dict(f))
            return n
        return Rat(padd(up(self.num, d1), up(o.num, d2)), tuple(sorted(lcm.items())))

    def __neg__(self):
        return Rat({m: -c for m, c in self.num.items()}, self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        den = dict(self.den)
        for f, k in o.den:
            den[f] = den.get(f, 0) + k
        # cancel before multiplying out
        a, b = self.num, o.num
        if not a or not b:
            return ZERO
        for _ in range(2):
            if len(a) > 1:
                c, m, prim = content(a)
                k = pkey(prim)
                if den.get(k):
                    den[k] -= 1
                    if not den[k]:
                        del den[k]
                    a = {m: c}
            a, b = b, a
        return Rat(pmul(a, b), tuple(sorted(den.items())))

    def inverse(self):
        c, m, prim = content(self.num)
        num = {minv(m): 1 / c}
        for f, k in self.den:
            for _ in range(k):
                num = pmul(num, dict(f))
        if len(prim) == 1:
            return Rat(num)
        return Rat(num, ((pkey(prim), 1),))

    def __truediv__(self, o):
        return self * o.inverse()

    def power(self, k):
        if isinstance(k, Q) and k.denominator != 1 or k < 0 and False:
            if len(self.num) == 1 and not self.den:
                (m, c), = self.num.items()
                if c == 1:
                    return Rat({minv(m, k): Q(1)})
            raise Unknown('fractional power')
        k = int(k)
        if k < 0:
            return self.inverse().power(-k)
        out = ONE
        for _ in range(k):
            out = out * self
        return out

    def subst(self, table):
        """Symbols replaced by values."""
        def pol(items):
            out = ZERO
            for m, c in items:
                v = Rat({(): c})
                rest = []
                for a, e in m:
                    if a in table:
                        v = v * table[a].power(Q(e))
                    else:
                        rest.append((a, e))
                out = out + v * Rat({tuple(rest): Q(1)})
            return out
        out = pol(self.num.items())
        for f, k in self.den:
            d = pol(f)
            if not d.num:
                raise Unknown('division by zero')
            out = out / d.power(Q(k))
        return out

    def __repr__(self):
        def pol(items):
            parts = []
            for m, c in sorted(items):
                fs = [f'{LIST[a]!r}' + (f'^{e}' if e != 1 else '') for a, e in m]
                if c != 1 or not fs:
                    fs.insert(0, str(c))
                parts.append('*'.join(fs))
            return ' + '.join(parts) or '0'
        s = pol(self.num.items())
        if self.den:
            s = f'({s})' if len(self.num) > 1 else s
            s += ''.join(f'/({pol(f)})' + (f'^{k}' if k != 1 else '') for f, k in self.den)
        return s if len(s) < 160 else s[:157] + '...'


PRIME = (1 << 61) - 1
POINT = {}


def residue(p, at):
    """p at a point, modulo a prime (None where an exponent or the point does not allow it)."""
    s = 0
    for m, c in p.items():
        if c.denominator % PRIME == 0:
            return None
        v = c.numerator % PRIME * pow(c.denominator, -1, PRIME)
        for a, e in m:
            x = at(a)
            if int(e) != e or not x:
                return None
            v = v * pow(x, int(e), PRIME) % PRIME
        s += v
    return s % PRIME


def not_divisible(p, f):
    """A zero of f at which p is not zero: p is no multiple of f."""
    counts = {}
    for m in f:
        for a, e in m:
            counts.setdefault(a, []).append(e)
    for a, es in counts.items():
        if es == [1]:
            break
    else:
        return False

    def at(x):
        if x not in POINT:
            POINT[x] = pow(7, 3 * x + 11, PRIME)
        return POINT[x]
    lin = {m: c for m, c in f.items() if dict(m).get(a)}
    const = {m: c for m, c in f.items() if not dict(m).get(a)}
    k = residue({tuple(x for x in m if x[0] != a): c for m, c in lin.items()}, at)
    o = residue(const, at)
    if not k or o is None:
        return False
    zero = -o * pow(k, -1, PRIME) % PRIME
    v = residue(p, lambda x: zero if x == a else at(x))
    return bool(v)


def pdiv(p, f):
    """p / f if it is exact."""
    work(len(p))
    if not_divisible(p, f):
        return None
    lm = max(f)
    lc = f[lm]
    out, rest = {}, dict(p)
    for _ in range(len(p)):
        if not rest:
            return out
        m = max(rest)
        work(len(rest) // 4)
        q = mmul(m, minv(lm))
        c = rest[m] / lc
        out = padd(out, {q: c})
        rest = padd(rest, pmul({q: c}, f), -1)
    return out if not rest else None


ZERO, ONE = Rat({}), Rat({(): Q(1)})


def num(x):
    return Rat({(): Q(x)}) if x else ZERO


TINY = sym('tiny', (), True)
TINY_N = LIST[-1].n


def psign(items):
    """Sign of a polynomial: '+', '-', '0' or None (open)."""
    if not items:
        return '0'
    groups = {}
    for m, c in items:
        e = dict(m).get(TINY_N, 0)
        groups.setdefault(e, []).append((m, c))
    lead = groups[min(groups)]
    s = None
    for m, c in lead:
        for a, e in m:
            if not LIST[a].pos and not (isinstance(e, int) and e % 2 == 0 and False):
                return None
        t = '+' if c > 0 else '-'
        if s is None:
            s = t
        elif s != t:
            return None
    return s


def sign(x: Rat):
    s = psign(list(x.num.items()))
    if s in ('0', None):
        return s
    flip = False
    for f, k in x.den:
        d = psign(list(f))
        if d is None:
            return None
        if d == '-' and k % 2:
            flip = not flip
    return {'+': '-', '-': '+'}[s] if flip else s


class Opaque:
    """A value that is only ever passed on (a seed)."""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return f'<{self.key}>'


class Uninit:
    def __repr__(self):
        return '<never written>'


UNINIT = Uninit()


# ------------------------------------------------------------------ arrays
class Log:
    """Which iteration of a parallel loop touches which cell."""

    def __init__(self):
        self.it, self.node = None, None
        self.keep, self.writers, self.readers, self.races = {}, {}, {}, []

    def write(self, data, ps):
        self.keep[id(data)] = data
        for p in ps:
            k = (id(data), p)
            w = self.writers.setdefault(k, self.it)
            if w != self.it or any(r != self.it for r in self.readers.get(k, ())):
                self.races.append((k, 'changed', self.node))

    def read(self, data, ps):
        self.keep[id(data)] = data
        for p in ps:
            k = (id(data), p)
            self.readers.setdefault(k, set()).add(self.it)
            if self.writers.get(k, self.it) != self.it:
                self.races.append((k, 'read', self.node))


LOGS = []


class Arr:
    __slots__ = ('data', 'shape', 'strides', 'offset', 'dtype')

    def __init__(self, data, shape, dtype='float64', strides=None, offset=0):
        self.data, self.shape, self.dtype, self.offset = data, tuple(shape), dtype, offset
        if strides is None:
            strides, k = [], 1
            for n in reversed(self.shape):
                strides.insert(0, k)
                k *= n
        self.strides = tuple(strides)

    @property
    def size(self):
        n = 1
        for k in self.shape:
            n *= k
        return n

    def positions(self):
        out = [self.offset]
        for n, s in zip(self.shape, self.strides):
            out = [o + i * s for o in out for i in range(n)]
        return out

    def cells(self):
        ps = self.positions()
        if LOGS:
            LOGS[-1].read(self.data, ps)
        return [self.data[p] for p in ps]

    def copy(self, dtype=None):
        return Arr(self.cells(), self.shape, dtype or self.dtype)

    def __len__(self):
        if not self.shape:
            raise Unknown('len of a scalar')
        return self.shape[0]

    def __repr__(self):
        return f'array{self.shape}'


def arr(cells, dtype='float64'):
    if cells and isinstance(cells[0], (list, tuple)):
        return Arr([x for r in cells for x in r], (len(cells), len(cells[0])), dtype)
    return Arr(list(cells), (len(cells),), dtype)


class Dotted:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Fn:
    def __init__(self, node, module, env=None, name=None):
        self.node, self.module, self.env, self.name = node, module, env, name or getattr(node, 'name', '<lambda>')


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Range:
    def __init__(self, r, parallel=False):
        self.r, self.parallel = r, parallel


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


DT = {'float': 'float64', 'int': 'int64', 'bool': 'bool', 'bool_': 'bool', 'int_': 'int64', 'float_': 'float64', 'double': 'float64',
      'intp': 'int64', 'longlong': 'int64', 'boolean': 'bool'}


def dtype_of(x):
    if x is None:
        return 'float64'
    if isinstance(x, Dotted):
        n = x.name.split('.')[-1]
        return DT.get(n, n)
    if isinstance(x, str):
        return DT.get(x, {'f8': 'float64', 'i8': 'int64', 'f4': 'float32', '?': 'bool'}.get(x, x))
    raise Unknown(f'dtype {x!r}')


def is_num(x):
    return isinstance(x, (bool, int, float, Rat))


def real(x):
    """Anything numeric as Rat, or a float that is not finite."""
    if isinstance(x, Rat):
        return x
    if isinstance(x, (bool, int)):
        return num(int(x))
    if isinstance(x, float):
        return x
    if x is UNINIT:
        raise Defect('memory that was never written is used')
    raise Unknown(f'no number: {x!r}')


CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
PY = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
SIGNS = {'<': '-', '<=': '-0', '>': '+', '>=': '+0', '==': '0', '!=': '-+'}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}


class Path:
    """One path: the outcomes chosen so far for open comparisons, and what is assumed by them."""

    def __init__(self, choices=()):
        self.choices, self.pos = list(choices), 0
        self.facts = []        # (difference, sign)
        self.open = []         # number of alternatives at each choice
        self.probes = []       # (symbol, value): equalities that were taken not to hold

    def choose(self, n):
        if self.pos < len(self.choices):
            v = self.choices[self.pos]
        else:
            v = 0
            self.choices.append(0)
        self.open = self.open[:self.pos] + [n]
        self.pos += 1
        return v

    def next(self):
        ch = list(self.choices[:self.pos])
        op = self.open[:self.pos]
        while ch and ch[-1] + 1 >= op[len(ch) - 1]:
            ch.pop()
        if not ch:
            return None
        ch[-1] += 1
        return ch

    # -- what the assumptions say
    def known(self, d: Rat):
        for f, s in self.facts:
            if not (d - f).num:
                return s
            if not (d + f).num:
                return {'+': '-', '-': '+', '0': '0'}[s]
        x = threshold(d)
        if x is None:
            return None
        a, up, c = x
        lo, hi = self.interval(a)
        if c <= lo:
            return '+' if up else '-'
        if c >= hi:
            return '-' if up else '+'
        return None

    def interval(self, a):
        lo, hi = -INF, INF
        for f, s in self.facts:
            x = threshold(f)
            if x is None or x[0] != a:
                continue
            _, up, c = x
            if s == '0':
                continue
            if (s == '+') == up:
                lo = max(lo, c)
            else:
                hi = min(hi, c)
        return lo, hi

    def feasible(self):
        """Whether some values of the symbols satisfy the assumptions: True if an example is found, otherwise None."""
        names = set()
        for f, _ in self.facts:
            names |= base_atoms(f)
        names = sorted(names)
        rnd = random.Random(7)
        marks = [0.0]
        for f, _ in self.facts:
            x = threshold(f)
            if x is not None:
                marks.append(x[2])
        terms = sum(len(f.num) + sum(len(g) for g, _ in f.den) for f, _ in self.facts)
        for trial in range(1500):
            WORK[0] += terms // 4
            if WORK[0] > WORK[1]:
                return None
            env = {}
            for n in names:
                a = LIST[n]
                if a.pos:
                    env[n] = 1e-300 if a.kind == 'tiny' else 1e-12 if a.kind == 'beyond' else math.exp(rnd.gauss(0, 2))
                else:
                    v = rnd.gauss(0, 1) if trial % 3 == 0 else rnd.uniform(-650, 650) if trial % 3 == 1 else \
                        rnd.choice(marks) + rnd.gauss(0, 3)
                    env[n] = max(-650.0, min(650.0, v))
            try:
                if all((v > 0) == (s == '+') and v != 0 for v, s in ((value(f, env), s) for f, s in self.facts)):
                    return True
            except (OverflowError, ZeroDivisionError, ValueError):
                continue
        return None


def base_atoms(x: Rat):
    out = set()
    for n in x.atoms():
        a = LIST[n]
        out |= base_atoms(a.arg) if a.arg is not None else {n}
    return out


def value(x: Rat, env):
    """A term at a point, to find an example of assumptions."""
    def at(n):
        a = LIST[n]
        if n not in env:
            v = value(a.arg, env)
            env[n] = math.exp(v) if a.kind == 'exp' else math.log(v) if a.kind == 'log' else v
        return env[n]

    def pol(items):
        t = 0.0
        for m, c in items:
            v = float(c)
            for a, e in m:
                v *= at(a) ** float(e)
            t += v
        return t
    v = pol(x.num.items())
    for f, k in x.den:
        v /= pol(f) ** k
    return v


def threshold(d: Rat):
    """d compares one utility with a number: (symbol, d increases with it, number)."""
    if d.den or len(d.num) > 2:
        return None
    terms = [(m, c) for m, c in d.num.items() if m]
    k = d.num.get((), Q(0))
    if len(terms) != 1 or len(terms[0][0]) != 1 or terms[0][0][0][1] != 1:
        return None
    (m, c), = terms
    a = LIST[m[0][0]]
    v = float(-k / c)
    if a.kind == 'u' or a.kind in ('scale', 'w'):
        return a.n, c > 0, v
    if a.kind == 'exp' and v > 0:
        b = a.arg
        if not b.den and len(b.num) == 1:
            (bm, bc), = b.num.items()
            if len(bm) == 1 and bm[0][1] == 1 and LIST[bm[0][0]].kind == 'u' and bc > 0:
                return bm[0][0], c > 0, math.log(v) / float(bc)
    return None


class Kernels:
    """Follows functions of the project over arrays."""

    def __init__(self, project, path=None, draw_value=None, reverse=False):
        self.p = project
        self.path = path or Path()
        self.steps = 0
        self.limit = 250000
        self.depth = 0
        self.parallel = 0
        self.reverse = reverse
        self.seeded, self.drawn = None, {}
        self.draw_value = draw_value       # (draw number, row) -> Rat, or None for a draw of zero
        self.zero_asked = False            # whether a draw can be zero
        self.draws = []                    # atoms of the draws, in the order in which they are made
        self.zero_draws = None             # (number of the draw) -> is it zero
        self.used = {}                     # row -> draws compared with something of that row, in order
        self.functions = set()
        self.consts = {}
        self.races = []                    # cells that several iterations of a parallel loop touch

    # -------------------------------------------------------------- numbers
    def compare(self, op, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.broadcast(lambda x, y: self.compare(op, x, y), a, b, 'bool')
        if a is None or b is None or isinstance(a, (Opaque, str, Dotted)) or isinstance(b, (Opaque, str, Dotted)):
            if op in ('==', '!='):
                if isinstance(a, Opaque) != isinstance(b, Opaque) and not (a is None or b is None):
                    raise Unknown('comparison of a seed')
                return (a == b) is (op == '==')
            raise Unknown('comparison')
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if op in ('==', '!='):
                same = len(a) == len(b) and all(self.compare('==', x, y) for x, y in zip(a, b))
                return same is (op == '==')
            raise Unknown('comparison')
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return PY[op](a, b)
        a, b = real(a), real(b)
        if isinstance(a, float) or isinstance(b, float):
            fa = a if isinstance(a, float) else 0.0
            fb = b if isinstance(b, float) else 0.0
            return PY[op](fa, fb)
        return self.sign_of(a - b, op == '==' or op == '!=') in SIGNS[op]

    def sign_of(self, d: Rat, equality=False):
        s = sign(d)
        drawn = [n for n in d.atoms() if LIST[n].kind == 'draw']
        if drawn:
            rows = d.tags()
            if len(rows) == 1:
                row, = rows
                if self.draw_value is None:
                    raise Unknown('comparison of a draw')
                for n in drawn:
                    self.used.setdefault(row, [])
                    if n not in self.used[row]:
                        self.used[row].append(n)
                d = d.subst({n: self.draw_value(LIST[n].key[0], row) for n in drawn})
                s = sign(d)
            elif s is None:
                if not rows:
                    t = d.subst({n: num(1) - Rat({((atom('below', (n,), True).n, 1),): Q(1)}) for n in drawn})
                    s = sign(t)
                if s is None:
                    raise Unknown('comparison of a draw')
        if s is not None:
            return s
        s = self.path.known(d)
        if s is not None:
            return s
        x = threshold(d)
        if x is not None and LIST[x[0]].kind == 'u':
            terms = [m for m in d.num if m]
            if LIST[terms[0][0][0]].kind == 'u':
                v = -d.num.get((), Q(0)) / d.num[terms[0]]
                self.path.probes.append((x[0], v))
            if equality:
                return '+'
        elif equality:
            return '+'
        s = '+-'[self.path.choose(2)]
        self.path.facts.append((d, s))
        return s

    def truth(self, x):
        if isinstance(x, (bool, int)):
            return bool(x)
        if x is None:
            return False
        if isinstance(x, float):
            return True
        if isinstance(x, Rat):
            return self.compare('!=', x, 0)
        if isinstance(x, (tuple, list, str)):
            return bool(x)
        if isinstance(x, Arr) and x.size == 1:
            return self.truth(x.cells()[0])
        raise Unknown(f'truth of {x!r}')

    def add(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            return (a if isinstance(a, float) else 0.0) + (b if isinstance(b, float) else 0.0)
        return a + b

    def mul(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, float) and isinstance(b, float):
                return a * b
            f, r = (a, b) if isinstance(a, float) else (b, a)
            if f != f:
                return NAN
            s = self.sign_of(r)
            return NAN if s == '0' else f if s == '+' else -f
        return a * b

    def div(self, a, b, scalar):
        if isinstance(b, float):
            if isinstance(a, float):
                return a / b
            return NAN if b != b else ZERO
        if not b.num:
            if scalar:
                raise Raised('ZeroDivisionError')
            if isinstance(a, float):
                return a
            s = self.sign_of(a)
            return NAN if s == '0' else INF if s == '+' else -INF
        if isinstance(a, float):
            return self.mul(a, b.inverse())
        if b.const() is None and sign(b) is None and self.sign_of(b, True) == '0':
            raise Unknown('division by zero')
        return a / b

    def binary(self, op, a, b, scalar=True):
        if isinstance(a, Arr) or isinstance(b, Arr):
            dt = 'float64'
            ds = [x.dtype if isinstance(x, Arr) else 'int64' if isinstance(x, int) else 'float64' for x in (a, b)]
            if op != '/' and all(d in ('int64', 'bool', 'uint32', 'int32') for d in ds):
                dt = 'bool' if op in '&|^' and 'bool' in ds and all(isinstance(x, bool) or isinstance(x, Arr) and x.dtype == 'bool' for x in (a, b)) \
                    else 'int64'
            return self.broadcast(lambda x, y: self.binary(op, x, y, False), a, b, dt)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque((op, a.key if isinstance(a, Opaque) else a, b.key if isinstance(b, Opaque) else b))
        if isinstance(a, (tuple, list)) and op in '+*':
            return a + b if op == '+' else a * b
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '//':
                return a // b if b else self._zero(scalar)
            if op == '%':
                return a % b if b else self._zero(scalar)
            if op == '&':
                return a & b
            if op == '|':
                return a | b
            if op == '^':
                return a ^ b
            if op == '**' and b >= 0:
                return a ** b
        a, b = real(a), real(b)
        if op == '+':
            return self.add(a, b)
        if op == '-':
            return self.add(a, -b)
        if op == '*':
            return self.mul(a, b)
        if op == '/':
            return self.div(a, b, scalar)
        if op == '**' and isinstance(a, Rat) and isinstance(b, Rat):
            k = b.const()
            if k is not None:
                return a.power(k)
            if a.const() is not None and a.const() == 1:
                return ONE
        ca, cb = (x.const() if isinstance(x, Rat) else None for x in (a, b))
        if op in ('//', '%') and ca is not None and cb:
            return num(ca // cb) if op == '//' else num(ca % cb)
        raise Unknown(f'operator {op}')

    def _zero(self, scalar):
        raise Raised('ZeroDivisionError')

    def neg(self, x):
        if isinstance(x, Arr):
            return Arr([self.neg(v) for v in x.cells()], x.shape, x.dtype)
        if isinstance(x, Opaque):
            return Opaque(('-', x.key))
        if isinstance(x, (bool, int)):
            return -x
        return -real(x)

    def exp(self, x):
        if isinstance(x, Arr):
            return Arr([self.exp(v) for v in x.cells()], x.shape)
        x = real(x)
        if isinstance(x, float):
            return ZERO if x == -INF else x
        if any(LIST[n].kind == 'draw' for n in x.atoms()):
            raise Unknown('exponential of a draw')
        out = ONE
        for m, c in x.num.items():
            if not x.den and len(m) == 1 and m[0][1] == 1 and LIST[m[0][0]].kind == 'log':
                out = out * LIST[m[0][0]].arg.power(c)
                continue
            base = Rat({m: Q(1)}, x.den)
            a = atom('exp', base.key(), True, base.tags(), base)
            e = int(c) if c.denominator == 1 else c
            out = out * Rat({((a.n, e),): Q(1)})
        return out

    def log(self, x):
        if isinstance(x, Arr):
            return Arr([self.log(v) for v in x.cells()], x.shape)
        x = real(x)
        if isinstance(x, float):
            return INF if x == INF else NAN
        if not x.num:
            return -INF
        s = self.sign_of(x)
        if s == '-':
            return NAN
        out = ZERO
        c, m, prim = content(x.num)
        for a, e in m:
            at = LIST[a]
            out = out + (at.arg if at.kind == 'exp' else self.logatom(Rat({((a, 1),): Q(1)}))) * num(Q(e))
        if c != 1:
            out = out + self.logatom(num(c))
        if len(prim) > 1:
            out = out + self.logatom(Rat(prim))
        for f, k in x.den:
            out = out - self.logatom(Rat(dict(f))) * num(k)
        return out

    def logatom(self, x):
        a = atom('log', x.key(), False, x.tags(), x)
        return Rat({((a.n, 1),): Q(1)})

    # -------------------------------------------------------------- arrays
    def broadcast(self, f, a, b, dtype):
        sa = a.shape if isinstance(a, Arr) else ()
        sb = b.shape if isinstance(b, Arr) else ()
        n = max(len(sa), len(sb))
        sa, sb = (1,) * (n - len(sa)) + sa, (1,) * (n - len(sb)) + sb
        shape = []
        for x, y in zip(sa, sb):
            if x != y and 1 not in (x, y):
                raise Raised('ValueError')
            shape.append(max(x, y) if 0 not in (x, y) else 0)

        def stretched(x, s):
            if not isinstance(x, Arr):
                return None
            st = (0,) * (n - len(x.shape)) + x.strides
            return Arr(x.data, shape, x.dtype, tuple(0 if k == 1 and w != 1 else q for k, w, q in zip(s, shape, st)), x.offset).cells()
        total = 1
        for k in shape:
            total *= k
        ca = stretched(a, sa) or [a] * total
        cb = stretched(b, sb) or [b] * total
        return Arr([f(x, y) for x, y in zip(ca, cb)], shape, dtype)

    def store(self, v, dtype):
        if isinstance(v, Arr):
            if v.size != 1:
                raise Unknown('array stored in a cell')
            v = v.cells()[0]
        if v is None:
            raise Unknown('None stored')
        if v is UNINIT or isinstance(v, Opaque):
            return v
        if not is_num(v):
            raise Unknown(f'{v!r} stored')
        if dtype == 'bool':
            return self.truth(v)
        if dtype.startswith(('int', 'uint')):
            if isinstance(v, Rat):
                c = v.const()
                if c is None:
                    raise Unknown('a real number stored as an integer')
                return int(c)
            if isinstance(v, float):
                raise Unknown('not finite, stored as an integer')
            return int(v)
        v = real(v)
        if dtype == 'float32' and isinstance(v, Rat) and v.const() is None:
            a = atom('single', v.key(), sign(v) == '+', v.tags(), v)
            return Rat({((a.n, 1),): Q(1)})
        return v

    def index(self, a, key, node=None):
        """('view', array) or ('cells', positions, shape)."""
        keys = list(key) if isinstance(key, tuple) else [key]
        n_real = sum(1 for k in keys if k is not None and k is not Ellipsis)
        if Ellipsis in [k for k in keys if not isinstance(k, Arr)]:
            i = [j for j, k in enumerate(keys) if not isinstance(k, Arr) and k is Ellipsis][0]
            keys[i:i + 1] = [slice(None)] * (len(a.shape) - n_real)
        for i, k in enumerate(keys):
            if isinstance(k, Rat):
                raise Unknown('index that is no integer')
            if isinstance(k, bool):
                keys[i] = int(k)
            if isinstance(k, Opaque):
                raise Unknown('unknown index')
            if isinstance(k, list):
                keys[i] = arr(k, 'int64' if not (k and isinstance(k[0], bool)) else 'bool')
        fancy = [k for k in keys if isinstance(k, Arr)]
        if len(keys) == 1 and fancy and fancy[0].dtype == 'bool' and len(fancy[0].shape) == len(a.shape) > 1:
            m = fancy[0]
            if m.shape != a.shape:
                raise Unknown('mask of another shape')
            ps = [p for p, k in zip(a.positions(), m.cells()) if self.truth(k)]
            return 'cells', ps, (len(ps),)
        shape, strides, offset, ax = [], [], a.offset, 0
        axes = []           # for the general case: lists of offsets
        for k in keys:
            if k is None:
                shape.append(1)
                strides.append(0)
                axes.append(([0], True))
                continue
            if ax >= len(a.shape):
                raise Unknown('too many indices')
            n, s = a.shape[ax], a.strides[ax]
            if isinstance(k, int):
                if not -n <= k < n:
                    raise Defect(f'position {k} of an array with {n} elements is used', node)
                o = (k % n) * s
                offset += o
                axes.append(([o], False))
            elif isinstance(k, slice):
                for q in (k.start, k.stop, k.step):
                    if not (q is None or isinstance(q, int)):
                        raise Unknown('slice bounds')
                r = range(*k.indices(n))
                shape.append(len(r))
                strides.append(r.step * s)
                offset += (r.start if len(r) else 0) * s
                axes.append(([i * s for i in r], True))
            elif isinstance(k, Arr):
                if len(k.shape) != 1 or len(fancy) > 1:
                    raise Unknown('indexing with several arrays')
                cs = k.cells()
                if k.dtype == 'bool':
                    if len(cs) != n:
                        raise Unknown('mask of another length')
                    cs = [i for i, q in enumerate(cs) if self.truth(q)]
                for q in cs:
                    if not isinstance(q, int):
                        raise Unknown('unknown index')
                    if not -n <= q < n:
                        raise Defect(f'position {q} of an array with {n} elements is used', node)
                axes.append(([(q % n) * s for q in cs], True))
            else:
                raise Unknown(f'index {k!r}')
            ax += 1
        for n, s in list(zip(a.shape, a.strides))[ax:]:
            shape.append(n)
            strides.append(s)
            axes.append(([i * s for i in range(n)], True))
        if not fancy:
            return 'view', Arr(a.data, shape, a.dtype, strides, offset)
        ps = [a.offset]
        for offs, _ in axes:
            ps = [p + o for p in ps for o in offs]
        return 'cells', ps, tuple(len(o) for o, keep in axes if keep)

    def get(self, a, key, node=None):
        if isinstance(a, (tuple, list)):
            if isinstance(key, bool) or not isinstance(key, (int, slice)):
                raise Unknown('index of a tuple')
            try:
                return a[key]
            except IndexError:
                raise Unknown('index of a tuple')
        if not isinstance(a, Arr):
            raise Unknown(f'{a!r} is indexed')
        r = self.index(a, key, node)
        if r[0] == 'view':
            if not r[1].shape and LOGS:
                LOGS[-1].read(a.data, [r[1].offset])
            return r[1] if r[1].shape else r[1].data[r[1].offset]
        if LOGS:
            LOGS[-1].read(a.data, r[1])
        return Arr([a.data[p] for p in r[1]], r[2], a.dtype)

    def put(self, a, key, v, node=None):
        if isinstance(a, list) and isinstance(key, int) and not isinstance(key, bool):
            a[key] = v
            return
        if not isinstance(a, Arr):
            raise Unknown(f'{a!r} is assigned to')
        r = self.index(a, key, node)
        ps, shape = (r[1].positions(), r[1].shape) if r[0] == 'view' else (r[1], r[2])
        if isinstance(v, (tuple, list)):
            v = arr(list(v))
        if isinstance(v, Arr) and v.size == 1 and not shape:
            v = v.cells()[0]
        if isinstance(v, Arr):
            v = self.broadcast(lambda x, y: y, Arr([0] * max(1, len(ps)), shape or (1,)), v, v.dtype)
            if v.shape != tuple(shape):
                raise Raised('ValueError')
            vals = v.cells()
        else:
            vals = [v] * len(ps)
        if LOGS:
            LOGS[-1].node = node
            LOGS[-1].write(a.data, ps)
        for p, x in zip(ps, vals):
            a.data[p] = self.store(x, a.dtype)

    # -------------------------------------------------------------- functions
    def call_fn(self, q, args, kwargs=None):
        fi = self.p.fn(q)
        return self.apply(Fn(fi.node, fi.module, None, q), list(args), kwargs or {}, fi.node)

    def apply(self, fn, args, kwargs, node):
        if self.depth > 25:
            raise Unknown('calls too deep')
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if a.vararg or a.kwarg or len(args) > len(names):
            raise Unknown('arguments')
        env.update(zip(names, args))
        for k, v in kwargs.items():
            if k in env or k not in names + [x.arg for x in a.kwonlyargs]:
                raise Unknown('arguments')
            env[k] = v
        scope = {'module': fn.module, 'outer': fn.env, 'vars': env}
        for n, d in list(zip(reversed(names), reversed(a.defaults))) + \
                [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in env:
                env[n] = self.ev(d, {'module': fn.module, 'outer': fn.env, 'vars': {}})
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                raise Unknown('argument missing')
        self.functions.add(f'{fn.module.name}.{fn.name.split(".")[-1]}')
        self.depth += 1
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, scope)
            self.block(fn.node.body, scope)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    # -------------------------------------------------------------- statements
    def block(self, stmts, sc):
        for s in stmts:
            self.stmt(s, sc)

    def tick(self, node):
        self.steps += 1
        if self.steps > self.limit:
            raise Unknown('too many steps')

    def stmt(self, s, sc):
        self.tick(s)
        try:
            return getattr(self, 's_' + type(s).__name__)(s, sc)
        except AttributeError as e:
            if "'s_" in str(e) or 's_' + type(s).__name__ in str(e):
                raise Unknown(f'statement {type(s).__name__}')
            raise
        except Defect as d:
            if d.node is None:
                d.node = s
            raise
        except Raised as r:
            if r.node is None:
                r.node = s
            raise

    def s_Pass(self, s, sc):
        pass

    def s_Expr(self, s, sc):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, sc)

    def s_Return(self, s, sc):
        raise Ret(self.ev(s.value, sc) if s.value is not None else None)

    def s_Break(self, s, sc):
        raise Brk()

    def s_Continue(self, s, sc):
        raise Cnt()

    def s_Raise(self, s, sc):
        x = s.exc
        if isinstance(x, ast.Call):
            x = x.func
        v = self.ev(x, sc) if x is not None else None
        name = v.name.split('.')[-1] if isinstance(v, Dotted) else '?'
        raise Raised(name if not self.parallel else f'{name} inside a parallel loop', s)

    def s_Assert(self, s, sc):
        if not self.truth(self.ev(s.test, sc)):
            raise Raised('AssertionError', s)

    def s_If(self, s, sc):
        self.block(s.body if self.truth(self.ev(s.test, sc)) else s.orelse, sc)

    def s_Assign(self, s, sc):
        v = self.ev(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, sc), sc)

    def s_AugAssign(self, s, sc):
        op = BIN.get(type(s.op))
        if op is None:
            raise Unknown('operator')
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t, sc)
            v = self.ev(s.value, sc)
            if isinstance(old, Arr):
                self.put(old, slice(None) if old.shape else (), self.binary(op, old, v), s)
            else:
                sc['vars'][t.id] = self.binary(op, old, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            k = self.ev(t.slice, sc)
            v = self.ev(s.value, sc)
            self.put(o, k, self.binary(op, self.get(o, k, s), v), s)
        else:
            raise Unknown('target')

    def s_FunctionDef(self, s, sc):
        sc['vars'][s.name] = Fn(s, sc['module'], sc)

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            sc['vars'][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v)
            if any(isinstance(x, ast.Starred) for x in t.elts) or len(vs) != len(t.elts):
                raise Unknown('unpacking')
            for x, y in zip(t.elts, vs):
                self.assign(x, y, sc)
        elif isinstance(t, ast.Subscript):
            self.put(self.ev(t.value, sc), self.ev(t.slice, sc), v, t)
        else:
            raise Unknown('target')

    def items(self, v):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, Range):
            return list(reversed(v.r)) if v.parallel and self.reverse else list(v.r)
        if isinstance(v, Arr):
            return [self.get(v, i) for i in range(len(v))]
        raise Unknown(f'iteration over {v!r}')

    def lazy(self, v):
        """Elements one at a time: an array may change while it is looped over."""
        if isinstance(v, Arr):
            for i in range(len(v)):
                yield self.get(v, i)
        elif isinstance(v, Lazy):
            yield from v.f()
        else:
            yield from self.items(v)

    def s_For(self, s, sc):
        v = self.ev(s.iter, sc)
        par = isinstance(v, Range) and v.parallel
        self.parallel += par
        log = Log() if par and not LOGS else None
        if log:
            LOGS.append(log)
        try:
            for n, x in enumerate(self.lazy(v)):
                self.tick(s)
                if log:
                    log.it = n
                self.assign(s.target, x, sc)
                try:
                    self.block(s.body, sc)
                except Brk:
                    break
                except Cnt:
                    continue
            else:
                if s.orelse:
                    self.block(s.orelse, sc)
        finally:
            self.parallel -= par
            if log:
                LOGS.remove(log)
                self.races += [(how, s) for _, how, _n in log.races]

    def s_While(self, s, sc):
        while self.truth(self.ev(s.test, sc)):
            self.tick(s)
            try:
                self.block(s.body, sc)
            except Brk:
                return
            except Cnt:
                continue
        self.block(s.orelse, sc)

    # -------------------------------------------------------------- expressions
    def ev(self, e, sc):
        self.tick(e)
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unknown(f'expression {type(e).__name__}')
        return m(e, sc)

    def e_Constant(self, e, sc):
        v = e.value
        if isinstance(v, float):
            return v if v != v or v in (INF, -INF) else num(Q(v))
        return v

    def e_Name(self, e, sc):
        return self.name(e, sc)

    def name(self, e, sc):
        n, s = e.id, sc
        while s is not None:
            if n in s['vars']:
                return s['vars'][n]
            s = s['outer']
        m = sc['module']
        return self.dotted(self.p.resolve(m, n) or f'builtins.{n}')

    def dotted(self, q):
        if q in self.p.functions:
            fi = self.p.functions[q]
            return Fn(fi.node, fi.module, None, q)
        head, _, last = q.rpartition('.')
        m = self.p.modules.get(head)
        if m is not None and last in m.consts:
            if q not in self.consts:
                if last in m.augs:
                    raise Unknown('changed constant')
                self.consts[q] = self.ev(m.consts[last], {'module': m, 'outer': None, 'vars': {}})
            return self.consts[q]
        if q in ('numpy.inf', 'math.inf', 'numpy.Inf', 'numpy.PINF', 'numpy.infty'):
            return INF
        if q == 'numpy.NINF':
            return -INF
        if q in ('numpy.nan', 'math.nan', 'numpy.NaN'):
            return NAN
        if q == 'numpy.newaxis':
            return None
        return Dotted(q)

    def e_Attribute(self, e, sc):
        v = self.ev(e.value, sc)
        if isinstance(v, Dotted):
            q = self.p.canonical(f'{v.name}.{e.attr}')
            return self.dotted(q)
        if isinstance(v, Limits):
            return v.get(e.attr)
        if isinstance(v, Arr):
            if e.attr == 'shape':
                return tuple(v.shape)
            if e.attr == 'size':
                return v.size
            if e.attr == 'ndim':
                return len(v.shape)
            if e.attr == 'dtype':
                return Dotted('numpy.' + v.dtype)
            if e.attr == 'T':
                return Arr(v.data, v.shape[::-1], v.dtype, v.strides[::-1], v.offset)
        return Bound(v, e.attr)

    def e_Subscript(self, e, sc):
        v = self.ev(e.value, sc)
        return self.get(v, self.ev(e.slice, sc), e)

    def e_Slice(self, e, sc):
        return slice(*[self.ev(x, sc) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e, sc):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.items(self.ev(x.value, sc)))
            else:
                out.append(self.ev(x, sc))
        return tuple(out)

    def e_List(self, e, sc):
        return list(self.e_Tuple(e, sc))

    def e_ListComp(self, e, sc):
        return self.comp(e, sc)

    e_GeneratorExp = e_ListComp

    def comp(self, e, sc):
        out = []
        inner = {'module': sc['module'], 'outer': sc, 'vars': {}}

        def go(i):
            if i == len(e.generators):
                out.append(self.ev(e.elt, inner))
                return
            g = e.generators[i]
            for x in self.lazy(self.ev(g.iter, inner)):
                self.assign(g.target, x, inner)
                if all(self.truth(self.ev(c, inner)) for c in g.ifs):
                    go(i + 1)
        go(0)
        return out

    def e_Lambda(self, e, sc):
        return Fn(e, sc['module'], sc)

    def e_IfExp(self, e, sc):
        return self.ev(e.body if self.truth(self.ev(e.test, sc)) else e.orelse, sc)

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        sc['vars'][e.target.id] = v
        return v

    def e_BoolOp(self, e, sc):
        stop = isinstance(e.op, ast.Or)
        v = None
        for x in e.values:
            v = self.ev(x, sc)
            if self.truth(v) is stop:
                return v
        return v

    def e_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, Arr) and v.dtype == 'bool':
            return Arr([not x for x in v.cells()], v.shape, 'bool')
        if isinstance(v, bool):
            return not v
        if isinstance(v, int):
            return ~v
        raise Unknown('operator ~')

    def e_BinOp(self, e, sc):
        op = BIN.get(type(e.op))
        if op is None:
            if isinstance(e.op, ast.MatMult):
                return self.np_dot([self.ev(e.left, sc), self.ev(e.right, sc)], {})
            if isinstance(e.op, (ast.LShift, ast.RShift)):
                a, b = self.ev(e.left, sc), self.ev(e.right, sc)
                if isinstance(a, int) and isinstance(b, int):
                    return a << b if isinstance(e.op, ast.LShift) else a >> b
            raise Unknown('operator')
        return self.binary(op, self.ev(e.left, sc), self.ev(e.right, sc))

    def e_Compare(self, e, sc):
        left = self.ev(e.left, sc)
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, sc)
            if isinstance(op, (ast.Is, ast.IsNot)):
                v = left is right if right is None or left is None else None
                if v is None:
                    if isinstance(left, bool) and isinstance(right, bool):
                        v = left is right
                    else:
                        raise Unknown('identity')
                v = v is isinstance(op, ast.Is)
            elif isinstance(op, (ast.In, ast.NotIn)):
                v = any(self.truth(self.compare('==', left, x)) for x in self.items(right)) is isinstance(op, ast.In)
            else:
                v = self.compare(CMP[type(op)], left, right)
            if isinstance(v, Arr):
                if len(e.ops) > 1:
                    raise Unknown('chained comparison of arrays')
                return v
            if not v:
                return False
            left = right
        return True

    def e_Call(self, e, sc):
        f = self.ev(e.func, sc)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.items(self.ev(x.value, sc)))
            else:
                args.append(self.ev(x, sc))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unknown('**')
            kw[k.arg] = self.ev(k.value, sc)
        if isinstance(f, Fn):
            return self.apply(f, args, kw, e)
        if isinstance(f, Bound):
            if isinstance(f.obj, Arr):
                return self.method(f.obj, f.name, args, kw)
            if isinstance(f.obj, list) and f.name == 'append':
                f.obj.append(args[0])
                return None
            raise Unknown(f'method {f.name}')
        if isinstance(f, Dotted):
            return self.library(f.name, args, kw)
        raise Unknown('call')

    # -------------------------------------------------------------- library
    METHODS = ('sum', 'max', 'min', 'mean', 'copy', 'astype', 'cumsum', 'any', 'all', 'argmax', 'argmin', 'dot', 'prod', 'ravel',
               'searchsorted', 'nonzero', 'reshape', 'repeat', 'clip')

    def method(self, a, name, args, kw):
        if name == 'fill':
            self.put(a, slice(None), args[0])
            return None
        if name == 'item':
            return self.get(a, args[0]) if args else a.cells()[0]
        if name == 'flatten':
            return Arr(a.cells(), (a.size,), a.dtype)
        if name == 'tolist':
            return self.items(a)
        if name in self.METHODS:
            return getattr(self, 'np_' + name)([a] + args, kw)
        raise Unknown(f'method {name}')

    def library(self, q, args, kw):
        mod, _, name = q.rpartition('.')
        if mod == 'builtins':
            f = getattr(self, 'b_' + name, None)
            if f is None:
                raise Unknown(f'function {name}')
            return f(args, kw)
        if q in ('numba.prange', 'numba.misc.special.prange'):
            return Range(self.b_range(args, kw).r, True)
        if mod in ('numpy', 'math'):
            f = getattr(self, 'np_' + name, None)
            if f is not None:
                return f(args, kw)
            if DT.get(name, name) in ('float64', 'float32', 'int64', 'int32', 'uint32', 'uint64', 'int16', 'uint8', 'int8', 'bool'):
                return self.cast(args[0], DT.get(name, name))
        if mod == 'numba' and DT.get(name, name) in ('float64', 'int64', 'bool', 'uint32', 'int32'):
            return self.cast(args[0], DT.get(name, name))
        if mod == 'numpy.random':
            return self.random(name, args, kw)
        raise Unknown(f'function {q}')

    def cast(self, x, dt):
        if isinstance(x, Arr):
            return Arr([self.store(v, dt) for v in x.cells()], x.shape, dt)
        return self.store(x, dt)

    # randomness: what is drawn only depends on the seed and on how many draws went before
    def random(self, name, args, kw):
        if name == 'seed':
            self.seeded = args[0].key if isinstance(args[0], Opaque) else ('const', repr(args[0]))
            self.drawn[self.seeded] = 0
            return None
        if name in ('uniform', 'random', 'random_sample', 'rand', 'ranf'):
            lo, hi, n = num(0), num(1), None
            if name == 'uniform':
                vals = list(args) + [None] * 3
                lo = kw.get('low', vals[0] if vals[0] is not None else num(0))
                hi = kw.get('high', vals[1] if vals[1] is not None else num(1))
                n = kw.get('size', vals[2])
            elif args:
                n = args[0] if len(args) == 1 else tuple(args)
            else:
                n = kw.get('size')
            hi, lo = real(hi), real(lo)
            if not (isinstance(hi, Rat) and hi.const() == 1 and isinstance(lo, Rat) and (lo.const() == 0 or not (lo - TINY).num)):
                raise Unknown('draws from another range')
            return self.sized(n, lambda: self.draw(lo.const() == 0), 'float64')
        if name in ('randint', 'random_integers'):
            n = kw.get('size', args[2] if len(args) > 2 else None)
            return self.sized(n, lambda: Opaque(('int',) + self.position()), 'int64')
        raise Unknown(f'random.{name}')

    def position(self):
        k = self.seeded
        self.drawn[k] = self.drawn.get(k, 0) + 1
        return (k, self.drawn[k] - 1)

    def draw(self, zero_possible):
        pos = self.position()
        a = atom('draw', pos, True)
        a.key = (pos,)
        if a not in self.draws:
            self.draws.append(a)
        if zero_possible:
            self.zero_asked = True
            if self.zero_draws is not None and self.zero_draws(pos):
                return ZERO
        return Rat({((a.n, 1),): Q(1)})

    def sized(self, n, f, dt):
        if n is None:
            return f()
        shape = n if isinstance(n, tuple) else (n,)
        if not all(isinstance(k, int) for k in shape):
            raise Unknown('size')
        total = 1
        for k in shape:
            total *= k
        return Arr([f() for _ in range(total)], shape, dt)

    # builtins
    def b_len(self, a, kw):
        return len(a[0]) if isinstance(a[0], (Arr, tuple, list)) else self._u('len')

    def _u(self, what):
        raise Unknown(what)

    def b_range(self, a, kw):
        if not all(isinstance(x, int) for x in a):
            raise Unknown('range')
        return Range(range(*[int(x) for x in a]))

    def b_enumerate(self, a, kw):
        start = a[1] if len(a) > 1 else kw.get('start', 0)
        return Lazy(lambda: ((i + start, x) for i, x in enumerate(self.lazy(a[0]))))

    def b_zip(self, a, kw):
        return Lazy(lambda: zip(*[self.lazy(x) for x in a]))

    def b_reversed(self, a, kw):
        if isinstance(a[0], Range):
            return Range(a[0].r[::-1])
        return list(reversed(self.items(a[0])))

    def b_list(self, a, kw):
        return list(self.lazy(a[0])) if a else []

    b_tuple = b_list

    def b_abs(self, a, kw):
        x = a[0]
        if isinstance(x, Arr):
            return Arr([self.b_abs([v], {}) for v in x.cells()], x.shape, x.dtype)
        return self.neg(x) if self.compare('<', x, 0) else x

    def b_int(self, a, kw):
        return self.cast(a[0], 'int64')

    def b_float(self, a, kw):
        if isinstance(a[0], str):
            return float(a[0])
        return self.cast(a[0], 'float64')

    def b_bool(self, a, kw):
        return self.truth(a[0])

    def b_divmod(self, a, kw):
        return (self.binary('//', a[0], a[1]), self.binary('%', a[0], a[1]))

    def b_any(self, a, kw):
        return any(self.truth(x) for x in self.lazy(a[0]))

    def b_all(self, a, kw):
        return all(self.truth(x) for x in self.lazy(a[0]))

    def b_sum(self, a, kw):
        out = a[1] if len(a) > 1 else 0
        for x in self.lazy(a[0]):
            out = self.binary('+', out, x)
        return out

    def b_max(self, a, kw):
        return self.extreme(a if len(a) > 1 else list(self.lazy(a[0])), '>')

    def b_min(self, a, kw):
        return self.extreme(a if len(a) > 1 else list(self.lazy(a[0])), '<')

    def extreme(self, xs, op):
        if not xs:
            raise Raised('ValueError')
        out = xs[0]
        for x in xs[1:]:
            if self.compare(op, x, out):
                out = x
        return out

    # numpy
    def make(self, a, kw, v, k=1):
        shape = kw.get('shape', a[0] if a else None)
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        if not all(isinstance(n, int) and n >= 0 for n in shape):
            raise Unknown('shape')
        dt = dtype_of(kw.get('dtype', a[k] if len(a) > k else None))
        total = 1
        for n in shape:
            total *= n
        return Arr([v if v is UNINIT else self.store(v, dt)] * total, shape, dt)

    def np_zeros(self, a, kw): return self.make(a, kw, 0)
    def np_ones(self, a, kw): return self.make(a, kw, 1)
    def np_empty(self, a, kw): return self.make(a, kw, UNINIT)

    def np_full(self, a, kw):
        v = kw.get('fill_value', a[1] if len(a) > 1 else None)
        if 'dtype' not in kw and len(a) < 3 and isinstance(v, int):
            kw = dict(kw, dtype=Dotted('numpy.bool_' if isinstance(v, bool) else 'numpy.int64'))
        return self.make(a, kw, v, 2)

    def like(self, a, kw, v):
        dt = kw.get('dtype', a[1] if len(a) > 1 else None)
        return self.make([a[0].shape], {'dtype': dt if dt is not None else a[0].dtype}, v)

    def np_zeros_like(self, a, kw): return self.like(a, kw, 0)
    def np_ones_like(self, a, kw): return self.like(a, kw, 1)
    def np_empty_like(self, a, kw): return self.like(a, kw, UNINIT)

    def np_full_like(self, a, kw):
        return self.like([a[0]] + a[2:], kw, a[1])

    def out(self, v, kw):
        if kw.get('out') is not None:
            o = kw['out']
            if isinstance(o, tuple):
                o, = o
            self.put(o, slice(None), v)
            return o
        return v

    def np_exp(self, a, kw):
        if set(kw) - {'out'} or len(a) > 2:
            raise Unknown('exp')
        return self.out(self.exp(a[0]), kw if len(a) == 1 else {'out': a[1]})

    def np_log(self, a, kw):
        if set(kw) - {'out'} or len(a) > 2:
            raise Unknown('log')
        return self.out(self.log(a[0]), kw if len(a) == 1 else {'out': a[1]})

    def binf(self, op, a, kw):
        if set(kw) - {'out'}:
            raise Unknown('where')
        return self.out(self.binary(op, a[0], a[1], False), kw if len(a) == 2 else {'out': a[2]})

    def np_add(self, a, kw): return self.binf('+', a, kw)
    def np_subtract(self, a, kw): return self.binf('-', a, kw)
    def np_multiply(self, a, kw): return self.binf('*', a, kw)
    def np_divide(self, a, kw): return self.binf('/', a, kw)
    def np_true_divide(self, a, kw): return self.binf('/', a, kw)

    def np_maximum(self, a, kw):
        return self.map2(lambda x, y: self.extreme([x, y], '>'), a[0], a[1])

    def np_minimum(self, a, kw):
        return self.map2(lambda x, y: self.extreme([x, y], '<'), a[0], a[1])

    def map2(self, f, x, y):
        if isinstance(x, Arr) or isinstance(y, Arr):
            return self.broadcast(f, x, y, 'float64')
        return f(x, y)

    def np_clip(self, a, kw):
        v = a[0]
        lo, hi = a[1] if len(a) > 1 else kw.get('a_min'), a[2] if len(a) > 2 else kw.get('a_max')
        if lo is not None:
            v = self.np_maximum([v, lo], {})
        if hi is not None:
            v = self.np_minimum([v, hi], {})
        return v

    def map1(self, f, x, dt='bool'):
        if isinstance(x, Arr):
            return Arr([f(v) for v in x.cells()], x.shape, dt)
        return f(x)

    @staticmethod
    def plain(x):
        if x is UNINIT:
            raise Defect('memory that was never written is used')
        return x

    def np_isnan(self, a, kw): return self.map1(lambda x: isinstance(self.plain(x), float) and x != x, a[0])
    def np_isinf(self, a, kw): return self.map1(lambda x: isinstance(self.plain(x), float) and x == x, a[0])
    def np_isneginf(self, a, kw): return self.map1(lambda x: isinstance(self.plain(x), float) and x == -INF, a[0])
    def np_isfinite(self, a, kw): return self.map1(lambda x: not isinstance(self.plain(x), float), a[0])
    def np_logical_not(self, a, kw): return self.map1(lambda x: not self.truth(x), a[0])
    def np_negative(self, a, kw): return self.neg(a[0])
    def np_abs(self, a, kw): return self.b_abs(a, kw)
    def np_absolute(self, a, kw): return self.b_abs(a, kw)
    def np_logical_and(self, a, kw): return self.map2(lambda x, y: self.truth(x) and self.truth(y), a[0], a[1])
    def np_logical_or(self, a, kw): return self.map2(lambda x, y: self.truth(x) or self.truth(y), a[0], a[1])

    def np_where(self, a, kw):
        if len(a) == 1:
            return (self.np_flatnonzero(a, kw),) if len(a[0].shape) == 1 else self._u('where')
        c, x, y = a
        t = self.broadcast(lambda p, q: (p, q), c, x, 'float64')
        return self.broadcast(lambda p, q: p[1] if self.truth(p[0]) else q, t, y, 'float64')

    def np_flatnonzero(self, a, kw):
        return arr([i for i, x in enumerate(a[0].cells()) if self.truth(x)], 'int64')

    def np_nonzero(self, a, kw):
        if len(a[0].shape) != 1:
            raise Unknown('nonzero')
        return (self.np_flatnonzero(a, kw),)

    def reduce(self, a, kw, f, scalar_dt='float64'):
        x = a[0]
        axis = kw.get('axis', a[1] if len(a) > 1 else None)
        if set(kw) - {'axis'}:
            raise Unknown('reduction')
        if isinstance(x, (list, tuple)):
            x = arr(list(x))
        if not isinstance(x, Arr):
            return f([x])
        if axis is None or len(x.shape) == 1:
            return f(x.cells())
        if len(x.shape) != 2 or axis not in (0, 1, -1):
            raise Unknown('axis')
        if axis == 0:
            x = Arr(x.data, x.shape[::-1], x.dtype, x.strides[::-1], x.offset)
        return Arr([f(self.get(x, i).cells()) for i in range(x.shape[0])], (x.shape[0],), scalar_dt)

    def total(self, xs):
        if any(isinstance(x, (Rat, float)) for x in xs) or not xs:
            out = ZERO
        else:
            out = 0
        for x in xs:
            out = self.binary('+', out, self.plain(x))
        return out

    def np_sum(self, a, kw): return self.reduce(a, kw, self.total)
    def np_nansum(self, a, kw): return self.reduce(a, kw, lambda xs: self.total([x for x in xs if not (isinstance(x, float) and x != x)]))
    def np_max(self, a, kw): return self.reduce(a, kw, lambda xs: self.extreme(xs, '>'))
    def np_amax(self, a, kw): return self.np_max(a, kw)
    def np_min(self, a, kw): return self.reduce(a, kw, lambda xs: self.extreme(xs, '<'))
    def np_amin(self, a, kw): return self.np_min(a, kw)
    def np_any(self, a, kw): return self.reduce(a, kw, lambda xs: any([self.truth(x) for x in xs]), 'bool')
    def np_all(self, a, kw): return self.reduce(a, kw, lambda xs: all([self.truth(x) for x in xs]), 'bool')
    def np_mean(self, a, kw): return self.reduce(a, kw, lambda xs: self.binary('/', self.total(xs), len(xs)))

    def np_prod(self, a, kw):
        def f(xs):
            out = 1
            for x in xs:
                out = self.binary('*', out, x)
            return out
        return self.reduce(a, kw, f)

    def pick(self, xs, op):
        best = 0
        for i in range(1, len(xs)):
            if self.compare(op, xs[i], xs[best]):
                best = i
        return best

    def np_argmax(self, a, kw): return self.reduce(a, kw, lambda xs: self.pick(xs, '>'), 'int64')
    def np_argmin(self, a, kw): return self.reduce(a, kw, lambda xs: self.pick(xs, '<'), 'int64')

    def np_cumsum(self, a, kw):
        x = a[0]
        if set(kw) - {'axis', 'out'} or len(x.shape) != 1:
            raise Unknown('cumsum')
        out, t = [], None
        for v in x.cells():
            t = v if t is None else self.binary('+', t, v)
            out.append(t)
        return self.out(Arr(out, x.shape, 'int64' if x.dtype in ('bool', 'int64') else x.dtype), {k: v for k, v in kw.items() if k == 'out'})

    def np_dot(self, a, kw):
        x, y = a
        if len(x.shape) != 1 or x.shape != y.shape:
            raise Unknown('dot')
        return self.total([self.binary('*', p, q) for p, q in zip(x.cells(), y.cells())])

    def np_copy(self, a, kw): return a[0].copy()
    def np_ascontiguousarray(self, a, kw): return a[0].copy() if False else a[0]

    def np_array(self, a, kw):
        x = a[0]
        if not isinstance(x, Arr):
            x = arr(list(x), 'int64' if all(isinstance(v, int) and not isinstance(v, bool) for v in x) else 'float64')
        dt = kw.get('dtype', a[1] if len(a) > 1 else None)
        return self.cast(x, dtype_of(dt) if dt is not None else x.dtype)

    def np_asarray(self, a, kw):
        if isinstance(a[0], Arr) and (kw.get('dtype') is None or dtype_of(kw['dtype']) == a[0].dtype) and len(a) == 1:
            return a[0]
        return self.np_array(a, kw)

    def np_astype(self, a, kw):
        return self.cast(a[0], dtype_of(a[1] if len(a) > 1 else kw.get('dtype')))

    def np_arange(self, a, kw):
        return arr(list(self.b_range(a, {}).r), 'int64')

    def np_ravel(self, a, kw):
        x = a[0]
        return Arr(x.data, (x.size,), x.dtype, None, x.offset) if x.positions() == list(range(x.offset, x.offset + x.size)) \
            else Arr(x.cells(), (x.size,), x.dtype)

    def np_reshape(self, a, kw):
        x = a[0]
        shape = a[1] if isinstance(a[1], tuple) else tuple(a[1:])
        if -1 in shape:
            k = 1
            for n in shape:
                k *= n if n != -1 else 1
            shape = tuple(x.size // k if n == -1 else n for n in shape)
        if x.positions() != list(range(x.offset, x.offset + x.size)):
            raise Unknown('reshape')
        return Arr(x.data, shape, x.dtype, None, x.offset)

    def np_repeat(self, a, kw):
        return Arr([v for v in a[0].cells() for _ in range(a[1])], (a[0].size * a[1],), a[0].dtype)

    def np_searchsorted(self, a, kw):
        x, v = a[0], a[1]
        side = kw.get('side', a[2] if len(a) > 2 else 'left')
        if side not in ('left', 'right') or len(x.shape) != 1:
            raise Unknown('searchsorted')
        op = '>=' if side == 'left' else '>'
        if isinstance(v, Arr):
            return Arr([self.np_searchsorted([x, y], {'side': side}) for y in v.cells()], v.shape, 'int64')
        for i, c in enumerate(x.cells()):
            if self.compare(op, c, v):
                return i
        return len(x)

    def np_unique(self, a, kw):
        xs = a[0].cells()
        if kw or len(a) > 1 or not all(isinstance(x, int) for x in xs):
            raise Unknown('unique')
        return arr(sorted(set(xs)), a[0].dtype)

    def np_bincount(self, a, kw):
        xs = a[0].cells()
        if len(a) > 1 or kw or not all(isinstance(x, int) and x >= 0 for x in xs):
            raise Unknown('bincount')
        return arr([xs.count(i) for i in range(max(xs, default=-1) + 1)], 'int64')

    def np_finfo(self, a, kw):
        return Limits(dtype_of(a[0]))

    np_iinfo = np_finfo

    def np_nextafter(self, a, kw):
        if isinstance(a[0], Rat) and not a[0].num or a[0] == 0:
            return TINY
        raise Unknown('nextafter')


class Limits:
    def __init__(self, dt):
        self.dt = dt

    def get(self, name):
        if name in ('tiny', 'smallest_normal', 'smallest_subnormal'):
            return TINY
        bits = {'int32': 32, 'int64': 64, 'uint32': 33, 'uint64': 65, 'int16': 16}.get(self.dt)
        if name == 'max' and bits:
            return 2 ** (bits - 1) - 1
        if name == 'min' and bits:
            return -2 ** (bits - 1) if self.dt.startswith('int') else 0
        raise Unknown(f'limit {name}')


class Lazy:
    def __init__(self, f):
        self.f = f


def same(a, b):
    """Whether two values are equal under the domain."""
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a == b
    if a is UNINIT or b is UNINIT or not is_num(a) or not is_num(b):
        return False
    a, b = real(a), real(b)
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float) and isinstance(b, float) and (a == b or a != a and b != b)
    return not (a - b).num
