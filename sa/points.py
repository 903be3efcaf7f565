"""What an array holds at one row: element-wise meaning of lookups, aggregations and the operations of pandas on them.

`Points(res).cases(v)` gives for a result the list of (cases, meaning): the cases say which keys are missing in the
table that they are looked up in, the meaning is a nested tuple in terms of the data of the frames.
"""
from __future__ import annotations

from .interp import strip_alloc, strip_st
from .terms import T, const, cval, glob, is_const, show, t

GARBAGE = ('garbage',)
ROW = ('row',)
NO_ELEMENT = ('wrong', 'an element of an array without any')


class Unknown(Exception):
    pass


class Split(Exception):
    pass


def gname(v):
    return v.args[0].args[0] if v.op == 'call' and v.args[0].op == 'glob' else None


def kw(v, name, pos=None):
    ks = dict(v.args[-1])
    if name in ks:
        return ks[name]
    xs = v.args[1] if v.op == 'call' else v.args[2]
    return xs[pos] if pos is not None and pos < len(xs) else None


class Points:
    def __init__(self, res):
        self.res = res
        self.heap = res.state.heap if res.state is not None else {}
        self.miss = {}
        self.none = set()       # frames without rows
        self.aligned = set()
        self.depth = 0

    # ---------------------------------------------------------------------------------------- frames
    def frame(self, x):
        """('frame', data) or ('rows', frame, rows) for a frame, None for anything else."""
        o = strip_st(x)
        a = self.heap.get((o, '##args'))
        d = a.args[0] if a is not None and a.args else None
        i = strip_alloc(o)
        if d is None and gname(i) in ('pandas.DataFrame', 'cheval.ldf.api.LinkedDataFrame') and i.args[1]:
            d = i.args[1][0]
        if d is None:
            return ('frame', o.args[0]) if o.op == 'param' and o.args[0].startswith('frame') else None
        if d.op == 'rows':
            return ('rows', d.args[0], d.args[1])
        if d.op == 'param':
            return ('frame', d.args[0])
        return self.frame(d)

    def at_frame(self, x, pos):
        """(data, position in the data) of a row of a frame."""
        f = self.frame(x)
        if f is None:
            raise Unknown(f'frame {show(x, 4)}')
        if f[0] == 'frame':
            return f[1], pos
        if is_const(f[2], None):
            return self.at_frame(f[1], pos)
        return self.at_frame(f[1], self.position(f[2], pos))

    def position(self, k, pos):
        """The position that an array of positions (or a slice) gives for a row."""
        k0 = strip_st(k)
        if k0.op == 'slice':
            if all(is_const(a, None) for a in k0.args):
                return pos
            return ('pick', str(show(k0, 6)), pos)
        if k0.op == 'param':
            return ('pick', k0.args[0], pos)
        return self.at(k, pos)

    # ---------------------------------------------------------------------------------------- elements
    def at(self, v, pos):
        self.depth += 1
        if self.depth > 400:
            raise Unknown('too deep')
        try:
            return self.at1(v, pos)
        finally:
            self.depth -= 1

    def at1(self, v, pos):
        if pos == GARBAGE or pos == ('missing',):
            return GARBAGE
        if v.op == 'st':
            return self.stored(v.args[0], v.args[1], pos)
        if v.op == 'alloc':
            c = self.heap.get((v, '#')) if False else None
            return self.at(v.args[0], pos)
        if v.op == 'const':
            return ('const', cval(v)) if cval(v) == cval(v) else ('const', 'nan')
        if v.op == 'glob':
            if v.args[0] == 'pandas.NaT':
                return ('const', 'nat')
            return ('const', 'nan') if v.args[0] in ('numpy.nan', 'math.nan') else ('value', v.args[0])
        if v.op == 'param':
            return ('elem', v.args[0], pos) if v.args[0].startswith('arr') else ('value', v.args[0])
        if v.op == 'phi':
            return self.either(v, pos)
        if v.op == 'sub':
            x, k = v.args
            x0 = strip_st(x)
            if self.frame(x0) is not None and (is_const(k) or k.op == 'param'):
                d, p = self.at_frame(x0, pos)
                return self.col(d, cval(k) if is_const(k) else ('value', k.args[0]), p)
            fac = strip_alloc(x0)
            if fac.op == 'mcall' and fac.args[0] == 'factorize' and is_const(k):
                return self.group(fac, cval(k), pos)
            if gname(fac) == 'pandas.factorize' and is_const(k):
                return self.group(t('mcall', 'factorize', fac.args[1][0], (), ()), cval(k), pos)
            i = self.position(k, pos)
            if self.none and self.is_empty(x):
                return NO_ELEMENT
            return self.at(x, i)
        if v.op == 'attr':
            if v.args[1] in ('values', 'array', 'T'):
                return self.at(v.args[0], pos)
            if v.args[1] == 'index':
                x = v.args[0]
                if self.frame(x) is not None:
                    d, p = self.at_frame(x, pos)
                    return self.label(d, p)
                ix = self.heap.get((strip_st(x), 'index'))
                if ix is not None:
                    return self.at(ix, pos)
                x = strip_alloc(strip_st(x))
                if gname(x) == 'pandas.Series':
                    ix = kw(x, 'index', 1)
                    if ix is not None:
                        return self.at(ix, pos)
        if v.op == 'mcall':
            return self.method(v, pos)
        if v.op == 'call':
            return self.function(v, pos)
        if v.op in ('tup', 'lit'):
            raise Unknown(f'{show(v, 3)}')
        if v.op == 'new':
            return ('wrong', 'an object instead of values', v.args[0].rsplit('.', 1)[-1])
        raise Unknown(f'{v.op} {show(v, 4)}')

    def col(self, d, name, p):
        return GARBAGE if p in (GARBAGE, ('missing',)) else ('col', d, name, p)

    def label(self, d, p):
        return GARBAGE if p in (GARBAGE, ('missing',)) else ('label', d, p)

    def stored(self, o, c, pos):
        n = 0
        if self.none:
            i = c
            while i.op == 'upd':
                i = i.args[0]
            if i.op == 'init':
                v = self.at(strip_alloc(strip_st(i.args[0])), pos)
                if v == NO_ELEMENT:
                    return v
        while c.op == 'upd' and n < 40:
            n += 1
            if c.args[1] != 'set':
                raise Unknown(f'{c.args[1]}')
            m = self.masked(c.args[2], pos)
            if m:
                return self.at(c.args[3], pos)
            c = c.args[0]
        if c.op == 'init':
            return self.at(strip_alloc(strip_st(c.args[0])), pos)
        if c.op == 'phi':
            return self.either(t('phi', c.args[0], t('st', o, c.args[1]), t('st', o, c.args[2])), pos)
        raise Unknown(f'content {c.op}')

    def masked(self, k, pos):
        """Is this row one of the rows that an index (positions or mask) selects?"""
        k = strip_alloc(strip_st(k)) if k.op in ('st', 'alloc') else k
        if k.op == 'slice':
            return True
        if k.op == 'phi':
            # a test of whether there are any rows to select
            a = self.masked(k.args[1], pos)
            b = self.masked(k.args[2], pos)
            if a == b:
                return a
            d = self.decide(k.args[0], pos)
            if d is not None:
                return a if d else b
            if self.only_sizes(k.args[0]):
                return ('wrong-mask', show(k, 4))
            raise Unknown(f'selected rows {show(k.args[0], 8)}')
        if k.op == 'sub' and is_const(k.args[1], 0):
            x = strip_alloc(strip_st(k.args[0]))
            if gname(x) in ('numpy.nonzero', 'numpy.where') and len(x.args[1]) == 1:
                return self.masked(x.args[1][0], pos)
            if x.op == 'mcall' and x.args[0] == 'nonzero':
                return self.masked(x.args[1], pos)
        if gname(k) in ('numpy.flatnonzero', 'numpy.argwhere', 'numpy.asarray', 'numpy.array') and len(k.args[1]) == 1:
            return self.masked(k.args[1][0], pos)
        if k.op == 'mcall' and k.args[0] in ('to_numpy', 'copy', 'ravel') and not k.args[2]:
            return self.masked(k.args[1], pos)
        if k.op in ('not', 'inv') or k.op == 'un' and k.args[0] in ('~', 'not'):
            return not self.masked(k.args[-1], pos)
        if k.op == 'cmp':
            op, a, b = k.args
            for x, y, flip in ((a, b, False), (b, a, True)):
                if not (is_const(y) and isinstance(cval(y), int) or y.op == 'neg' and is_const(y.args[0])):
                    continue
                n = cval(y) if is_const(y) else -cval(y.args[0])
                i = self.at(x, pos)
                if i == GARBAGE:
                    return ('wrong-mask', show(k, 4))
                neg = i == ('missing',)
                if op == '==' and n == -1:
                    return neg
                if op == '==' and n != -1 and neg:
                    return False
                if op == '<' and not flip and n == 0:        # x < 0
                    return neg
                if op == '<=' and not flip and n == -1:      # x <= -1
                    return neg
                if op == '<' and flip and n == -1:           # -1 < x
                    return not neg
                if op == '<=' and flip and n == 0:           # 0 <= x
                    return not neg
                return ('wrong-mask', show(k, 4))
        raise Unknown(f'selected rows {show(k, 5)}')

    # ---------------------------------------------------------------------------------------- choices
    def decide(self, c, pos):
        """Value of a condition on arrays at a row that exists, or None."""
        if c.op == 'const':
            return bool(cval(c))
        if c.op in ('not',):
            r = self.decide(c.args[0], pos)
            return None if r is None else not r
        if c.op == 'cmp':
            op, a, b = c.args
            if op == '==' and a.op == 'len' and is_const(b, 0) or op == '<=' and a.op == 'len' and is_const(b, 0) or \
                    op == '<' and a.op == 'len' and is_const(b, 1):
                e = self.no_rows(a.args[0], pos)
                return e
            if op == '<' and b.op == 'len' and is_const(a, 0):
                e = self.no_rows(b.args[0], pos)
                return None if e is None else not e
        if c.op == 'len':
            e = self.no_rows(c.args[0], pos)
            return None if e is None else not e
        if c.op == 'mcall' and c.args[0] in ('any',) and not c.args[2] or gname(c) == 'numpy.any':
            x = c.args[1] if c.op == 'mcall' else c.args[1][0]
            try:
                return True if self.masked(x, pos) is True else None
            except Unknown:
                return None
        return None

    def no_rows(self, x, pos):
        if self.none and self.is_empty(x):
            return True
        try:
            m = self.masked(x, pos)
            return False if m is True else None
        except (Unknown,):
            pass
        try:
            self.at(x, pos)      # an array that has this row
            return False
        except Unknown:
            return None

    def either(self, v, pos):
        c, a, b = v.args
        d = self.decide(c, pos)
        if d is not None:
            return self.at(a if d else b, pos)
        neg = c.op == 'not'
        c0 = c.args[0] if neg else c
        if neg:
            a, b = b, a
        if c0.op == 'cmp' and c0.args[0] == '==':
            for x, n in (c0.args[1:], c0.args[:0:-1]):
                g = self.grouped(x.args[0]) if x.op == 'len' else None
                if g is None or not self.count(n, g):
                    continue
                by = strip_alloc(strip_st(strip_alloc(strip_st(x.args[0])).args[1]))
                if g[2] in ('nth', 'head', 'tail', 'apply') or by.args[3]:
                    # as many results, but maybe of other groups
                    r1, r2 = self.at(a, pos), self.at(b, pos)
                    return r1 if r1 == r2 else ('wrong', 'either', r1, r2)
                c0 = t('mcall', 'equals', t('attr', x.args[0], 'index'), (t('call', glob('numpy.arange'), (n,), ()),), ())
                break
        if c0.op == 'mcall' and c0.args[0] in ('equals', 'identical') and len(c0.args[2]) == 1:
            x, y = c0.args[1], c0.args[2][0]
            if self.none and any(self.keys_empty(u) and not self.keys_empty(w) for u, w in ((x, y), (y, x))):
                return self.at(b, pos)
            for p, q in ((x, y), (y, x)):
                g = strip_st(p)
                if g.op == 'attr' and g.args[1] == 'index' and self.grouped(g.args[0]) is not None:
                    w = self.whole(q, self.grouped(g.args[0]))
                    if w is None:
                        raise Unknown(f'condition {show(c0, 5)}')
                    if not w:
                        r1, r2 = self.at(a, pos), self.at(b, pos)
                        return r1 if r1 == r2 else ('wrong', 'either', r1, r2)
                    new = self.grouped(g.args[0]) not in self.aligned
                    self.aligned.add(self.grouped(g.args[0]))
                    r1 = self.at(a, pos)
                    if new:
                        self.aligned.discard(self.grouped(g.args[0]))
                    r2 = self.at(b, pos)
                    return r1 if r1 == r2 else ('wrong', 'either', r1, r2)
            r2 = self.at(b, pos)
            r1 = self.at(a, pos)
            if r1 == r2:
                return r1
            xs, ys = self.at(x, ('any',)), self.at(y, ('any',))
            if r1 == pos and isinstance(r2, tuple) and (r2 == ('missing',) or r2[0] == 'found'):
                # equal keys: the row of the same position
                want = {('found', ys, self.at(x, pos)), ('found', xs, self.at(y, pos))}
                if r2 in want:
                    return r2
                if r2 == ('missing',) and any(self.missed(w) for w in want):
                    return r2
            return ('wrong', 'either', r1, r2)
        r1, r2 = self.at(a, pos), self.at(b, pos)
        if r1 == r2:
            return r1
        if self.only_sizes(c):
            return ('wrong', 'either', r1, r2)
        for x in (c.args if c.op == 'and' else [c]):
            e = self.equality(x)
            if e is not None:
                return self.either(t('phi', t('mcall', 'equals', e[0], (e[1],), ()), a, b), pos)
        raise Unknown(f'condition {show(c, 5)}')

    @staticmethod
    def equality(c):
        if gname(c) in ('numpy.array_equal',) and len(c.args[1]) == 2:
            return c.args[1]
        if c.op == 'mcall' and c.args[0] == 'all' and c.args[1].op == 'cmp' and c.args[1].args[0] == '==':
            return c.args[1].args[1:]
        if gname(c) in ('numpy.all', 'builtins.all') and len(c.args[1]) == 1 and c.args[1][0].op == 'cmp' and c.args[1][0].args[0] == '==':
            return c.args[1][0].args[1:]
        return None

    def only_sizes(self, c):
        """Does a condition only depend on the number of rows?"""
        if c.op in ('and', 'or', 'not'):
            return all(self.only_sizes(x) for x in c.args)
        return c.op == 'cmp' and all(x.op == 'len' or x.op == 'attr' and x.args[1] == 'size' or
                                     x.op == 'sub' and x.args[0].op == 'attr' and x.args[0].args[1] == 'shape' or is_const(x)
                                     for x in c.args[1:])

    # ---------------------------------------------------------------------------------------- lookups
    def is_empty(self, x):
        """Does an array surely have no elements, because its frame has no rows?"""
        x0 = strip_st(x)
        if x0.op == 'phi':
            d = self.decide(x0.args[0], ROW)
            if d is not None:
                return self.is_empty(x0.args[1] if d else x0.args[2])
            return self.is_empty(x0.args[1]) and self.is_empty(x0.args[2])
        if x0.op == 'sub' and self.frame(x0.args[0]) is not None and is_const(x0.args[1]):
            return self.frame(x0.args[0])[1] in self.none
        if x0.op == 'attr' and x0.args[1] in ('values', 'array', 'T'):
            return self.is_empty(x0.args[0])
        if x0.op == 'attr' and x0.args[1] == 'index' and self.frame(x0.args[0]) is not None:
            return self.frame(x0.args[0])[1] in self.none
        x1 = strip_alloc(x0)
        if x1.op == 'mcall' and x1.args[0] in ('to_numpy', 'copy', 'astype', 'ravel', 'groupby', 'reindex', 'evaluate', 'eval'):
            if self.frame(x1.args[1]) is not None:
                return self.frame(x1.args[1])[1] in self.none
            return self.is_empty(x1.args[1])
        if self.grouped(x1) is not None:
            return self.is_empty(x1.args[1])
        if gname(x1) in ('pandas.Series', 'numpy.asarray', 'numpy.array', 'pandas.Index') and x1.args[1]:
            return self.is_empty(x1.args[1][0])
        return False

    def keys_empty(self, x):
        m = self.at(x, ('any',))
        return isinstance(m, tuple) and self.data_of(m) in self.none

    def data_of(self, k):
        if k[0] in ('col', 'label', 'level'):
            return k[1]
        return self.data_of(k[1]) if k[0] in ('keys', 'groups') and len(k) > 1 else None

    def missed(self, w):
        return self.miss.get(w)

    def found(self, keys, key):
        if self.none and self.data_of(keys) in self.none:
            return ('missing',)
        w = ('found', keys, key)
        if w not in self.miss:
            raise Split(w)
        return ('missing',) if self.miss[w] else w

    def group(self, fac, k, pos):
        z = fac.args[1]
        if any(n == 'sort' for n, _ in fac.args[3]):
            pass
        if k == 0:
            return ('group', self.at(z, ('any',)), self.at(z, pos))
        if k == 1:
            if pos == ('any',):
                return ('groups', self.at(z, ('any',)))
            return ('group-key', self.at(z, ('any',)), pos)
        raise Unknown('factorize')

    def grouped(self, v):
        """(series, codes, function, arguments) of the result of a groupby."""
        v = strip_alloc(strip_st(v))
        if v.op == 'mcall':
            g = strip_alloc(strip_st(v.args[1]))
            if g.op == 'mcall' and g.args[0] == 'groupby' and len(g.args[2]) == 1:
                if v.args[0] in ('agg', 'aggregate') and len(v.args[2]) == 1 and is_const(v.args[2][0]):
                    return (g.args[1], g.args[2][0], cval(v.args[2][0]), (), v.args[3])
                return (g.args[1], g.args[2][0], v.args[0], v.args[2], v.args[3])
        return None

    def whole(self, q, g):
        """Are these the numbers of all the groups of g, in order? None: not known."""
        q = strip_alloc(strip_st(q))
        while gname(q) in ('pandas.Index', 'numpy.asarray', 'numpy.array', 'pandas.Int64Index') and q.args[1]:
            q = strip_alloc(strip_st(q.args[1][0]))
        if gname(q) in ('numpy.arange', 'builtins.range', 'pandas.RangeIndex') and q.args[1]:
            n = q.args[1]
            if len(n) > 2:
                return None
            first = 0 if len(n) == 1 else cval(n[0]) if is_const(n[0]) else None
            r = self.count(n[-1], g)
            return r if first == 0 else False if first is not None else None
        return None

    def count(self, n, g):
        """Is this the number of the groups of g?"""
        n = strip_alloc(strip_st(n))
        if n.op == 'len':
            return self.is_group(n.args[0], 1, g)
        off, a = 0, n
        if n.op == 'bin' and n.args[0] in ('+', '-'):
            for a, b in ((n.args[1], n.args[2]), (n.args[2], n.args[1])):
                if is_const(b) and isinstance(cval(b), int):
                    off = cval(b) if n.args[0] == '+' else -cval(b)
                    break
            else:
                return None
        a = strip_alloc(strip_st(a))
        x = a.args[1] if a.op == 'mcall' and a.args[0] == 'max' and not a.args[2] else \
            a.args[1][0] if gname(a) in ('numpy.max', 'numpy.amax', 'builtins.max') and len(a.args[1]) == 1 else None
        if x is None:
            return None
        r = self.is_group(x, 0, g)
        return False if r and off != 1 else r

    def is_group(self, x, k, g):
        """Is x the numbers (k = 0) or the keys (k = 1) of the groups that g is by?"""
        x = strip_alloc(strip_st(x))
        if x.op == 'phi':
            rs = {self.is_group(a, k, g) for a in x.args[1:]}
            return rs.pop() if len(rs) == 1 else None
        if x.op == 'mcall' and x.args[0] in ('to_numpy', 'copy'):
            return self.is_group(x.args[1], k, g)
        c = self.at(g[1], ('any',))
        m = self.at(x, ('any',))
        if m[0] not in ('group', 'group-key', 'groups', 'found', 'missing', 'const', 'col', 'label', 'level'):
            return None
        return c[0] == 'group' and m == (c if k == 0 else ('groups', c[1]))

    def result_of(self, g, pos):
        """The result for one group."""
        series, codes, func, args, kws = g
        if pos == GARBAGE or pos == ('missing',):
            return GARBAGE
        if not (isinstance(pos, tuple) and pos[0] == 'found' and pos[1][0] == 'groups'):
            raise Unknown(f'group {pos}')
        c = self.at(codes, ('any',))
        if c[0] in ('found', 'missing', 'col', 'label', 'level', 'const'):
            return ('wrong', 'groups', c)
        if c[0] != 'group':
            raise Unknown(f'groups {c}')
        if c[1] != pos[1][1]:
            return ('wrong', 'groups', c[1], pos[1][1])
        if len(c) > 2 and c[2] != c[1]:
            return ('wrong', 'groups of other rows', c[2])
        extra = tuple(show(a, 4) for a in args) + tuple((n, show(a, 4)) for n, a in kws)
        return ('agg', func, self.at(series, ('any',)), pos[1][1], pos[2]) + ((extra,) if extra else ())

    def method(self, v, pos):
        name, o, xs, ks = v.args
        if name in ('to_numpy', 'copy', 'ravel', 'view', 'to_frame', 'rename', 'squeeze') or \
                name == 'astype' and kw(v, 'dtype', 0) is not None and False:
            return self.at(o, pos)
        if name == 'get_indexer':
            if any(n in ('method', 'limit', 'tolerance') for n, _ in ks) or len(xs) > 1:
                return ('wrong', 'inexact', show(v, 4))
            return self.found(self.at(o, ('any',)), self.at(xs[0], pos))
        if name == 'get_level_values' and len(xs) == 1:
            i = strip_st(o)
            if i.op == 'attr' and i.args[1] == 'index' and self.frame(i.args[0]) is not None:
                d, p = self.at_frame(i.args[0], pos)
                return GARBAGE if p in (GARBAGE, ('missing',)) else \
                    ('level', d, cval(xs[0]) if is_const(xs[0]) else show(xs[0], 4), p)
        if name == 'take' and len(xs) >= 1:
            m = kw(v, 'mode', 2)
            return self.at(o, self.position(xs[0], pos))
        if name == 'evaluate' and self.frame(o) is not None or name == 'eval' and self.frame(o) is not None:
            d, p = self.at_frame(o, pos)
            return ('eval', d, cval(xs[0]) if is_const(xs[0]) else show(xs[0], 4), p)
        if name == 'reindex' and (xs or ks):
            g = self.grouped(o)
            lab = kw(v, 'index', 0) if kw(v, 'index', 0) is not None else kw(v, 'labels')
            if g is not None and lab is not None:
                if is_const(g[1], None):
                    return ('wrong', 'groups of nothing')
                w = self.whole(lab, g)
                if w is not None:
                    return self.result_of(g, pos) if w else ('wrong', 'results for other groups', show(lab, 5))
        g = self.grouped(v)
        if g is not None:
            if g in self.aligned or self.is_aligned(v):
                return self.result_of(g, pos)
            return ('wrong', 'results of groups are taken by position')
        raise Unknown(f'{name}')

    def is_aligned(self, v):
        return any(g[:3] == self.grouped(v)[:3] for g in self.aligned)

    def function(self, v, pos):
        n = gname(v)
        xs = v.args[1]
        if n in ('numpy.datetime64', 'pandas.Timestamp') and xs and is_const(xs[0]) and str(cval(xs[0])).lower() == 'nat':
            return ('const', 'nat')
        if n == 'builtins.float' and xs and is_const(xs[0]) and str(cval(xs[0])).lower() == 'nan':
            return ('const', 'nan')
        if n in ('pandas.Series',) and xs:
            return self.at(xs[0], pos)
        if n in ('numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.copy', 'pandas.Index') and xs:
            return self.at(xs[0], pos)
        if n in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full', 'numpy.zeros_like', 'numpy.empty_like'):
            if n == 'numpy.full' and len(xs) > 1:
                return self.at(xs[1], pos)
            return GARBAGE
        if n in ('numpy.full_like',) and len(xs) > 1:
            return self.at(xs[1], pos)
        if n in ('numpy.arange', 'builtins.range') and len(xs) == 1:
            return pos
        if n == 'numpy.take' and len(xs) >= 2:
            return self.at(xs[0], self.position(xs[1], pos))
        if n == 'numpy.where' and len(xs) == 3:
            return self.at(xs[1] if self.masked(xs[0], pos) else xs[2], pos)
        if n in ('pandas.api.extensions.take', 'pandas.core.algorithms.take', 'pandas.core.algorithms.take_1d') and len(xs) >= 2:
            i = self.position(xs[1], pos)
            if i == ('missing',) and is_const(kw(v, 'allow_fill') or const(False), True):
                fv = kw(v, 'fill_value')
                return self.at(fv, pos) if fv is not None else ('const', 'nan')
            return self.at(xs[0], i)
        if n == 'pandas.MultiIndex.from_arrays' and xs:
            es = self.elements(xs[0])
            if es is not None:
                return ('keys',) + tuple(self.at(e, pos) for e in es)
        if n == 'pandas.MultiIndex.from_frame' and xs:
            f = strip_st(xs[0])
            if f.op == 'sub' and self.frame(f.args[0]) is not None:
                es = self.elements(f.args[1])
                if es is not None and all(is_const(e) for e in es):
                    d, p = self.at_frame(f.args[0], pos)
                    return ('keys',) + tuple(self.col(d, cval(e), p) for e in es)
        raise Unknown(f'{n or show(v, 4)}')

    def elements(self, x):
        o = strip_st(x)
        c = x.args[1] if x.op == 'st' else self.heap.get((o, '#'))
        if c is None:
            c = strip_alloc(o)
        if c.op == 'lit':
            return list(c.args[1:])
        if c.op == 'tup':
            return list(c.args)
        if c.op == 'upd':
            out = []
            while c.op == 'upd' and c.args[1] == 'append':
                out.insert(0, c.args[2])
                c = c.args[0]
            if c.op == 'init' and strip_alloc(c.args[0]).op == 'lit':
                return list(strip_alloc(c.args[0]).args[1:]) + out
        return None

    # ---------------------------------------------------------------------------------------- cases
    def cases(self, want):
        """[(missing keys, value)] of a function of this object, for all combinations of missing keys."""
        out = []

        def go(miss):
            self.miss = dict(miss)
            self.aligned = set()
            try:
                v = want()
            except Split as s:
                w = s.args[0]
                for m in (True, False):
                    go({**miss, w: m})
                return
            out.append((miss, v))
        go({})
        return out
