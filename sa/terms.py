"""Interned value terms: the nodes of the value-flow graph that the analysis builds from the source."""
from __future__ import annotations


class T:
    """An interned term. Two equal terms are the same object, so `is`/`==` is value-flow equality."""
    __slots__ = ('op', 'args', 'uid', '_h')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.uid < other.uid


_TABLE: dict = {}
_NEXT = [0]


def t(op, *args) -> T:
    key = (op,) + tuple((a.__class__, a) if not isinstance(a, T) else a for a in args)
    r = _TABLE.get(key)
    if r is None:
        r = T()
        r.op, r.args = op, args
        _NEXT[0] += 1
        r.uid = _NEXT[0]
        _TABLE[key] = r
    return r


def const(v) -> T:
    return t('const', v)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(x: T, *vals) -> bool:
    if x.op != 'const':
        return False
    return not vals or any(type(x.args[0]) is type(v) and x.args[0] == v for v in vals)


def cval(x: T):
    return x.args[0]


def glob(q: str) -> T:
    return t('glob', q)


def sub(o: T, k: T) -> T:
    if o.op == 'tup' and k.op == 'const' and isinstance(cval(k), int) and -len(o.args) <= cval(k) < len(o.args):
        return o.args[cval(k)]
    if o.op == 'phi' and (o.args[1].op == 'tup' or o.args[2].op == 'tup') and k.op == 'const':
        return phi(o.args[0], sub(o.args[1], k), sub(o.args[2], k))
    if o.op == 'attr' and o.args[1] == 'shape' and is_const(k, 0):
        return t('len', o.args[0])
    return t('sub', o, k)


def truth(c: T):
    """Constant truth value of a term, or None."""
    if c.op == 'const':
        return bool(cval(c))
    if c.op in ('cls', 'fn', 'bm', 'clo'):
        return True
    if c.op == 'tup':
        return len(c.args) > 0
    return None


def boolish(c: T) -> bool:
    return c.op in ('cmp', 'not', 'and', 'or', 'isinst') or (c.op == 'const' and isinstance(cval(c), bool))


def neg(c: T) -> T:
    v = truth(c)
    if v is not None:
        return const(not v)
    if c.op == 'not' and boolish(c.args[0]):
        return c.args[0]
    if c.op == 'not':
        return t('bool', c.args[0])
    if c.op == 'bool':
        return neg(c.args[0])
    return t('not', c)


def nneg(c: T) -> T:
    """Negation for conditions (truthiness only)."""
    v = truth(c)
    if v is not None:
        return const(not v)
    if c.op == 'not':
        return c.args[0]
    return t('not', c)


def conj(*cs) -> T:
    out = []
    for c in cs:
        if c.op == 'and':
            parts = c.args
        else:
            parts = (c,)
        for p in parts:
            v = truth(p)
            if v is True:
                continue
            if v is False:
                return FALSE
            if p not in out:
                if nneg(p) in out:
                    return FALSE
                out.append(p)
    for p in out:
        if p.op == 'not' and p.args[0].op == 'and' and all(x in out for x in p.args[0].args):
            return FALSE
        if p.op == 'or' and all(nneg(x) in out for x in p.args):
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return t('and', *sorted(out))


def disj(*cs) -> T:
    out = []
    for c in cs:
        parts = c.args if c.op == 'or' else (c,)
        for p in parts:
            v = truth(p)
            if v is False:
                continue
            if v is True:
                return TRUE
            if p not in out:
                if nneg(p) in out:
                    return TRUE
                out.append(p)
    for p in out:   # a or b or not (a or b)
        if p.op == 'not' and p.args[0].op == 'or' and all(x in out for x in p.args[0].args):
            return TRUE
        if p.op == 'and' and all(nneg(x) in out for x in p.args):
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return t('or', *sorted(out))


def phi(c: T, a: T, b: T) -> T:
    """Gated merge: `a` if `c` holds, else `b`."""
    if a is b:
        return a
    v = truth(c)
    if v is True:
        return a
    if v is False:
        return b
    if c.op == 'not':
        return phi(c.args[0], b, a)
    if a is TRUE and b is FALSE and boolish(c):
        return c
    if a is FALSE and b is TRUE:
        return nneg(c)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if b.op == 'phi' and b.args[1] is a:  # c ? a : (d ? a : e)  ->  (c or d) ? a : e
        return phi(disj(c, b.args[0]), a, b.args[2])
    if b.op == 'phi' and b.args[2] is a:
        return phi(disj(c, nneg(b.args[0])), a, b.args[1])
    if a.op == 'phi' and a.args[2] is b:  # c ? (d ? x : b) : b
        return phi(conj(c, a.args[0]), a.args[1], b)
    if a.op == 'phi' and a.args[1] is b:
        return phi(conj(c, nneg(a.args[0])), a.args[2], b)
    if boolish(a) and b is FALSE:
        return conj(c, a)
    if boolish(b) and a is FALSE:
        return conj(nneg(c), b)
    if boolish(b) and a is TRUE:
        return disj(c, b)
    if boolish(a) and b is TRUE:
        return disj(nneg(c), a)
    return t('phi', c, a, b)


def assume(x: T, c: T, v: bool) -> T:
    """Top-level simplification of a term under a condition."""
    n = 0
    while x.op == 'phi' and n < 50:
        n += 1
        d = decide(x.args[0], ((c, v),))
        if d is True:
            x = x.args[1]
        elif d is False:
            x = x.args[2]
        else:
            break
    return x


def literals(c: T, v: bool = True):
    """Literals (term, polarity) implied by a condition."""
    if c.op == 'not' or (c.op == 'bool'):
        yield from literals(c.args[0], v if c.op == 'bool' else not v)
    elif c.op == 'and' and v:
        for x in c.args:
            yield from literals(x, True)
    elif c.op == 'or' and not v:
        for x in c.args:
            yield from literals(x, False)
    else:
        yield c, v
        if c.op == 'phi' and v:
            if is_const(c.args[2], False):
                yield from literals(c.args[0], True)
                yield from literals(c.args[1], True)


def decide(c: T, facts) -> bool | None:
    """Truth of a condition given (term, polarity) facts, by propositional propagation only."""
    v = truth(c)
    if v is not None:
        return v
    if c.op == 'not':
        d = decide(c.args[0], facts)
        return None if d is None else not d
    if c.op == 'bool':
        return decide(c.args[0], facts)
    for f, pol in facts:
        for l, p in literals(f, pol):
            if l is c:
                return p
            if c.op == 'cmp' and l.op == 'cmp' and c.args[1:] == l.args[1:] and p and {c.args[0], l.args[0]} <= {'<', '=='}:
                return False  # a < b and a == b exclude each other
            if p and c.op == 'cmp' and l.op == 'cmp' and c.args[0] == l.args[0] == '==' and c is not l:
                if c.args[1] is l.args[1] and c.args[2].op == 'const' and l.args[2].op == 'const':
                    return False
    if c.op == 'and':
        ds = [decide(x, facts) for x in c.args]
        if any(d is False for d in ds):
            return False
        if all(d is True for d in ds):
            return True
    if c.op == 'or':
        ds = [decide(x, facts) for x in c.args]
        if any(d is True for d in ds):
            return True
        if all(d is False for d in ds):
            return False
    return None


_CMP = {'Lt': '<', 'LtE': '<=', 'Eq': '==', 'Is': 'is', 'In': 'in'}


def cmp(op: str, a: T, b: T) -> T:
    if op in ('Gt', 'GtE'):
        return cmp({'Gt': 'Lt', 'GtE': 'LtE'}[op], b, a)
    if op in ('NotEq', 'IsNot', 'NotIn'):
        return nneg(cmp({'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}[op], a, b))
    o = _CMP[op]
    if o in ('==', 'is') and (b.uid < a.uid and b.op != 'const' or a.op == 'const'):
        if b.op != 'const':
            a, b = b, a
    if a.op == 'const' and b.op == 'const' and o != 'in':
        x, y = cval(a), cval(b)
        try:
            return const({'<': lambda: x < y, '<=': lambda: x <= y, '==': lambda: x == y,
                          'is': lambda: (x is y) or (type(x) is type(y) and x == y)}[o]())
        except TypeError:
            pass
    if o == 'is' and a is b:
        return TRUE
    if o == 'is' and is_const(b, None):
        n = nullness(a)
        if n is not None:
            return const(n)
        if a.op == 'phi':
            return phi(a.args[0], cmp('Is', a.args[1], b), cmp('Is', a.args[2], b))
    if o == 'is' and is_const(b, True, False) and boolish(a):
        return a if cval(b) else nneg(a)
    if o == '==' and a.op == 'phi' and b.op == 'const' and (a.args[1].op == 'const' or a.args[2].op == 'const'):
        return phi(a.args[0], cmp('Eq', a.args[1], b), cmp('Eq', a.args[2], b))
    if o == '==' and is_const(b, True, False) and boolish(a):
        return a if cval(b) else nneg(a)
    if o == 'in' and b.op in ('lit', 'tup'):
        elems = b.args[1:] if b.op == 'lit' else b.args
        if a.op == 'const' and all(e.op == 'const' for e in elems):
            return const(any(type(cval(e)) is type(cval(a)) and cval(e) == cval(a) for e in elems))
        return disj(*[cmp('Eq', a, e) for e in elems])
    return t('cmp', o, a, b)


NONNULL_OPS = {'alloc', 'tup', 'lit', 'cls', 'fn', 'bm', 'clo', 'collect', 'fstr', 'cmp', 'not', 'and', 'or', 'len',
               'nonnull', 'iv', 'slice', 'neg', 'new'}


def nullness(a: T):
    """True: is None. False: is not None. None: unknown."""
    if a.op == 'const':
        return cval(a) is None
    if a.op in NONNULL_OPS:
        return False
    if a.op == 'bin':
        return False
    if a.op == 'st':
        return nullness(a.args[0])
    if a.op == 'sub' and (a.args[1].op == 'slice' or a.args[1].op == 'tup' and any(x.op == 'slice' for x in a.args[1].args)):
        return False
    if a.op == 'phi':
        n1, n2 = nullness(a.args[1]), nullness(a.args[2])
        return n1 if n1 is n2 else None
    if a.op == 'glob':
        return False
    if a.op == 'call' and a.args[0].op == 'glob' and (a.args[0].args[0] in _NONNULL_CALLS or
                                                      a.args[0].args[0].startswith('ast.') and a.args[0].args[0][4].isupper()):
        return False
    if a.op == 'mcall' and a.args[0] in ('copy', 'astype', 'split', 'strip', 'get_indexer', 'transpose', 'items', 'keys',
                                         'values', 'groupby'):
        return False
    return None


_NONNULL_CALLS = {'builtins.list', 'builtins.set', 'builtins.dict', 'builtins.tuple', 'builtins.int', 'builtins.float',
                  'builtins.str', 'builtins.len', 'pandas.Index', 'pandas.DataFrame', 'pandas.Series', 'numpy.zeros',
                  'numpy.arange', 'numpy.full', 'numpy.ones', 'numpy.nonzero', 'numpy.array', 'numpy.asarray',
                  'astor.to_source', 'ast.unparse', 'ast.dump', 'ast.parse', 'collections.deque'}


# ---------------------------------------------------------------------------------------------- loops
class Loop:
    """What is known about a loop: its domain, carried variables and how they step."""

    def __init__(self, key, node, file, domain, kind):
        self.key, self.node, self.file, self.domain, self.kind = key, node, file, domain, kind
        self.init, self.step, self.final = {}, {}, {}
        self.parallel = False
        self.has_break = False
        self.cond = None       # while loops
        self.entry_guards = ()
        self.outer = ()
        self.conds = ()        # comprehension filters
        self.lineno = getattr(node, 'lineno', 0)

    def __repr__(self):
        return f'L{self.lineno}'


LOOPS: dict = {}


def loop_of(term: T) -> Loop:
    return LOOPS[term.args[0]]


# ---------------------------------------------------------------------------------------------- traversal
def walk(x: T, through_loops: bool = True, seen=None):
    """All subterms, following loop-carried values into their initial and step values."""
    if seen is None:
        seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if y.uid in seen:
            continue
        seen.add(y.uid)
        yield y
        for a in y.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        stack.append(b)
                    elif isinstance(b, tuple):
                        stack.extend(c for c in b if isinstance(c, T))
        if through_loops and y.op in ('mu', 'eta', 'iv', 'collect'):
            keys = [y.args[0]] if y.op != 'collect' else list(y.args[1])
            for k in keys:
                lp = LOOPS.get(k)
                if lp is None:
                    continue
                if y.op in ('mu', 'eta'):
                    n = y.args[1]
                    for d in (lp.init, lp.step, lp.final):
                        if n in d:
                            stack.append(d[n])
                if lp.domain is not None:
                    stack.append(lp.domain)
                if y.op == 'collect':
                    stack.extend(lp.conds)


def contains(x: T, y: T, through_loops=True) -> bool:
    return any(z is y for z in walk(x, through_loops))


def leaves(x: T):
    return {y for y in walk(x) if y.op in ('param', 'glob', 'const', 'nonnull', 'opaque')}


def subst(x: T, mapping: dict, memo=None) -> T:
    """Rebuild a term with replacements (re-simplifying); does not go through loops."""
    if memo is None:
        memo = {}
    if x in mapping:
        return mapping[x]
    if x.uid in memo:
        return memo[x.uid]

    def rec(a):
        if isinstance(a, T):
            return subst(a, mapping, memo)
        if isinstance(a, tuple):
            return tuple(rec(b) for b in a)
        return a
    args = tuple(rec(a) for a in x.args)
    if all(p is q or p == q for p, q in zip(args, x.args)):
        r = x
    else:
        r = rebuild(x.op, args)
    memo[x.uid] = r
    return r


def rebuild(op, args) -> T:
    if op == 'phi':
        return phi(*args)
    if op == 'not':
        return nneg(*args)
    if op == 'and':
        return conj(*args)
    if op == 'or':
        return disj(*args)
    if op == 'sub':
        return sub(*args)
    if op == 'cmp':
        name = {v: k for k, v in _CMP.items()}[args[0]]
        return cmp(name, args[1], args[2])
    if op == 'bin':
        return binop(*args)
    if op == 'bool' and truth(args[0]) is not None:
        return const(truth(args[0]))
    if op == 'call' and args[0].op == 'glob' and len(args[1]) == 1 and not args[2] and args[1][0].op == 'const':
        v = cval(args[1][0])
        if args[0].args[0] == 'builtins.bool':
            return const(bool(v))
        if args[0].args[0] in ('builtins.int', 'builtins.float') and isinstance(v, (int, float)):
            try:
                return const(int(v) if args[0].args[0].endswith('int') else float(v))
            except (OverflowError, ValueError):
                pass
    return t(op, *args)


def binop(op: str, a: T, b: T) -> T:
    if a.op == 'const' and b.op == 'const':
        x, y = cval(a), cval(b)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool):
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '//': lambda: x // y,
                     '/': lambda: x / y, '%': lambda: x % y, '**': lambda: x ** y}.get(op)
                if r is not None and not (op == '**' and abs(y) > 64):
                    return const(r())
            except (ZeroDivisionError, OverflowError):
                pass
        if op == '+' and isinstance(x, str) and isinstance(y, str):
            return const(x + y)
    if op == '+' and (_is_str(a) or _is_str(b)):
        return fstr(*(list(_strparts(a)) + list(_strparts(b))))
    if op in ('*', '/') and is_const(b, 1, 1.0):
        return a
    if op == '*' and is_const(a, 1, 1.0):
        return b
    if op in ('+', '-') and is_const(b, 0):
        return a
    if op == '+' and is_const(a, 0):
        return b
    if op in ('*', '&', '|', '^') and b.uid < a.uid:
        a, b = b, a
    return t('bin', op, a, b)


def _is_str(a):
    return a.op == 'fstr' or (a.op == 'const' and isinstance(cval(a), str))


def _strparts(a):
    return a.args if a.op == 'fstr' else (a,)


def fstr(*parts) -> T:
    out = []
    for p in parts:
        for q in (p.args if p.op == 'fstr' else (p,)):
            if q.op == 'const':
                q = const(str(cval(q)))
                if cval(q) == '':
                    continue
                if out and out[-1].op == 'const':
                    out[-1] = const(cval(out[-1]) + cval(q))
                    continue
            out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and out[0].op == 'const':
        return out[0]
    return t('fstr', *out)


# ---------------------------------------------------------------------------------------------- printing
def show(x, depth=6) -> str:
    if not isinstance(x, T):
        if isinstance(x, tuple):
            return '(' + ', '.join(show(y, depth) for y in x) + ')'
        return str(x)
    if depth <= 0:
        return '…'
    d = depth - 1
    o, a = x.op, x.args
    if o == 'const':
        return repr(a[0])
    if o in ('param', 'nonnull'):
        return a[0]
    if o == 'glob':
        return a[0].replace('builtins.', '')
    if o in ('fn', 'cls'):
        return a[0].split('.')[-1]
    if o == 'attr':
        return f'{show(a[0], d)}.{a[1]}'
    if o == 'sub':
        return f'{show(a[0], d)}[{show(a[1], d)}]'
    if o == 'load':
        return f'{show(a[0], d)}[{show(a[1], d)}]'
    if o == 'len':
        return f'len({show(a[0], d)})'
    if o == 'cmp':
        return f'({show(a[1], d)} {a[0]} {show(a[2], d)})'
    if o == 'bin':
        return f'({show(a[1], d)} {a[0]} {show(a[2], d)})'
    if o == 'not':
        return f'not {show(a[0], d)}'
    if o in ('and', 'or'):
        return '(' + f' {o} '.join(show(y, d) for y in a) + ')'
    if o == 'phi':
        return f'({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})'
    if o == 'call':
        kw = [f'{k}={show(v, d)}' for k, v in a[2]]
        return f'{show(a[0], d)}({", ".join([show(y, d) for y in a[1]] + kw)})'
    if o == 'mcall':
        kw = [f'{k}={show(v, d)}' for k, v in a[3]]
        return f'{show(a[1], d)}.{a[0]}({", ".join([show(y, d) for y in a[2]] + kw)})'
    if o == 'iv':
        return f'i@{LOOPS[a[0]].lineno}' if a[0] in LOOPS else 'i'
    if o in ('mu', 'eta'):
        return f'{a[1]}~' if o == 'mu' else f'{a[1]}^'
    if o == 'fstr':
        return 'f"' + ''.join(str(cval(p)) if p.op == 'const' else '{' + show(p, d) + '}' for p in a) + '"'
    if o == 'alloc':
        return f'<{a[0]}>'
    if o == 'tup':
        return '(' + ', '.join(show(y, d) for y in a) + ')'
    return f'{o}(' + ', '.join(show(y, d) for y in a) + ')'
