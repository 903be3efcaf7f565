"""The value-flow interpreter on small programs over choice models (witness programs).

A witness program builds a tree of choices with the public interface and asks for something that a user sees (the
choices, their order, the arrays given to the workers, what is refused).  It is not run: the value that it returns is
derived from the source.  Names of choices are known, data are symbolic.  On top of what `frames` follows exactly, sets,
generators of the project, arrays of known length, and indexes with known labels are followed element by element.  Sets
are enumerated in the opposite of the order of insertion, so that code which relies on their order shows.
"""
from __future__ import annotations

import ast

from .interp import FALSE, NONE, TRUE, UNDEF, Domain, const, cval, glob, is_const, strip_alloc, strip_st, t
from .frames import FrameInterp, same_key, sym

FILL = {'numpy.full': None, 'numpy.zeros': 0, 'numpy.ones': 1, 'numpy.empty': 'any'}


def known(x):
    """Is the identity of this element known?"""
    x = strip_st(x)
    return sym(x) or x.op == 'alloc' or x.op == 'param'


def const_tuple(x):
    x = strip_alloc(strip_st(x))
    return x.op == 'const' or x.op == 'tup' and all(const_tuple(y) for y in x.args)


def plain(x):
    """A constant term as a Python value."""
    x = strip_alloc(strip_st(x))
    return cval(x) if x.op == 'const' else tuple(plain(y) for y in x.args)


def term(v):
    return t('tup', *[term(x) for x in v]) if isinstance(v, tuple) else const(v)


class Labels:
    """An index with known labels."""

    def __init__(self, labels, multi, names=None):
        self.labels, self.multi, self.names = list(labels), multi, names

    @property
    def nlevels(self):
        return len(self.labels[0]) if self.multi and self.labels else 1


class ModelInterp(FrameInterp):
    def __init__(self, project, **kw):
        self.rows = kw.pop('rows', {})          # length of data that parameters stand for
        self.shapes = kw.pop('shapes', {})      # shape of arrays and frames that parameters stand for
        self.masks = kw.pop('masks', {})        # masks that parameters stand for -> how many rows they select
        self.gens = []
        super().__init__(project, **kw)

    # ---------------------------------------------------------------------------------------- sets
    def set_items(self, v):
        """The elements of a known set, in the order of insertion, or None."""
        o = strip_st(v)
        c = self.s.heap.get((o, '#')) if self.s is not None else None
        if c is None and v.op == 'st':
            c = v.args[1]
        if c is None:
            c = strip_alloc(o)
            if c.op == 'call' and c.args[0].op == 'glob' and c.args[0].args[0] in ('builtins.set', 'builtins.frozenset') and not c.args[2]:
                xs = [] if not c.args[1] else self.elems(c.args[1][0]) if len(c.args[1]) == 1 else None
                c = t('lit', 'set', *xs) if xs is not None else c
        if c.op != 'lit' or c.args[0] != 'set' or not all(known(x) for x in c.args[1:]):
            return None
        return self.distinct(c.args[1:])

    def distinct(self, xs):
        out = []
        for x in xs:
            if not any(self.same(x, y) for y in out):
                out.append(x)
        return out

    def same(self, a, b):
        return same_key(strip_st(a), strip_st(b))

    def new_set(self, xs, e):
        o = self.alloc(t('lit', 'set'), e)
        self.s.heap[(o, '#')] = t('lit', 'set', *self.distinct(xs))
        return o

    def array(self, v):
        """The elements of an array of known length, or None."""
        o = strip_st(v)
        c = self.s.heap.get((o, '#')) if self.s is not None else None
        if c is not None:
            return list(c.args[1:]) if c.op == 'lit' and c.args[0] == 'array' else None
        c = strip_alloc(o)
        if c.op == 'lit' and c.args[0] == 'array':
            return list(c.args[1:])
        if c.op == 'call' and c.args[0].op == 'glob' and c.args[1]:
            q, a = c.args[0].args[0], c.args[1]
            n = strip_alloc(strip_st(a[0]))
            if n.op in ('tup', 'lit') and len(n.args) == 1 + (n.op == 'lit'):
                n = n.args[-1]
            if q in FILL and is_const(n) and isinstance(cval(n), int):
                x = a[1] if q == 'numpy.full' and len(a) > 1 else dict(c.args[2]).get('fill_value') if q == 'numpy.full' else \
                    const(FILL[q]) if FILL[q] != 'any' else t('garbage')
                if x is None:
                    return None
                d = dict(c.args[2]).get('dtype')
                if q != 'numpy.full' and x.op == 'const' and d is not None and is_const(d) and str(cval(d)).lstrip('<=|') in ('?', 'bool', 'b1'):
                    x = const(bool(cval(x)))
                return [x] * cval(n)
            if q == 'numpy.arange' and len(a) == 1 and is_const(n) and isinstance(cval(n), int):
                return [const(i) for i in range(cval(n))]
            if q in ('numpy.array', 'numpy.asarray', 'numpy.fromiter'):
                xs = self.elems(a[0])
                return xs if xs is not None and all(self.elems(x) is None and strip_alloc(strip_st(x)).op != 'tup' for x in xs) else None
        if c.op == 'mcall' and c.args[0] == 'isin' and len(c.args[2]) == 1:
            a, b = self.labels(c.args[1]), self.label_list(c.args[2][0])
            return [const(x in b) for x in a.labels] if a is not None and b is not None else None
        if c.op == 'mcall' and c.args[0] in ('copy', 'astype', 'to_numpy', 'ravel') and self.array(c.args[1]) is not None:
            return self.array(c.args[1])
        if c.op in ('not', 'inv') and self.array(c.args[0]) is not None:
            xs = self.array(c.args[0])
            return [const(not cval(x)) for x in xs] if all(is_const(x) and isinstance(cval(x), bool) for x in xs) else None
        return None

    def shape_of(self, v, depth=0):
        """The shape of an array or frame as numbers, or None."""
        o = strip_st(v)
        if depth > 12 or self.s is None:
            return None
        h = self.s.heap.get((o, 'shape'))
        if h is not None:
            h = strip_alloc(strip_st(h))
            xs = [strip_st(x) for x in h.args] if h.op == 'tup' else [h]
            return tuple(cval(x) for x in xs) if all(is_const(x) and isinstance(cval(x), int) for x in xs) else None
        c = strip_alloc(o)
        if c.op == 'param':
            return self.shapes.get(c.args[0], (self.rows[c.args[0]],) if c.args[0] in self.rows else None)
        if c.op == 'attr' and c.args[1] in ('values', 'index', 'T'):
            x = self.shape_of(c.args[0], depth + 1)
            return x if x is None or c.args[1] == 'values' else x[:1] if c.args[1] == 'index' else x[::-1]
        if c.op == 'mcall' and c.args[0] in ('copy', 'to_numpy', 'astype', 'view', 'isnull', 'isna', 'clip', 'round'):
            return self.shape_of(c.args[1], depth + 1)
        if c.op == 'mcall' and c.args[0] == 'transpose' and not c.args[2]:
            x = self.shape_of(c.args[1], depth + 1)
            return x[::-1] if x is not None else None
        if c.op in ('not', 'inv', 'neg'):
            return self.shape_of(c.args[0], depth + 1)
        if c.op == 'mcall' and c.args[0] == 'reshape' and c.args[2] and not c.args[3]:
            x = strip_alloc(strip_st(c.args[2][0]))
            xs = list(x.args) if x.op == 'tup' and len(c.args[2]) == 1 else list(c.args[2])
            base = self.shape_of(c.args[1], depth + 1)
            if base is not None and all(is_const(y) and isinstance(cval(y), int) for y in xs):
                n = 1
                for y in base:
                    n *= y
                rest = 1
                for y in xs:
                    rest *= cval(y) if cval(y) >= 0 else 1
                return tuple(cval(y) if cval(y) >= 0 else n // rest if rest else 0 for y in xs)
            return None
        if c.op == 'call' and c.args[0].op == 'glob' and c.args[1]:
            q, kw = c.args[0].args[0], dict(c.args[2])
            if q in ('pandas.DataFrame', 'pandas.Series', 'numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.isnan',
                     'numpy.nan_to_num', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.full_like', 'numpy.empty_like'):
                return self.shape_of(c.args[1][0], depth + 1)
            if q == 'numpy.atleast_2d':
                x = self.shape_of(c.args[1][0], depth + 1)
                return (1,) + x if x is not None and len(x) == 1 else x
        if c.op == 'call' and c.args[0].op == 'glob' and c.args[0].args[0] in FILL:
            n = c.args[1][0] if c.args[1] else dict(c.args[2]).get('shape', NONE)
            xs = self.elems(n) if not is_const(n) else [n]
            if xs is None and strip_alloc(strip_st(n)).op == 'tup':
                xs = list(strip_alloc(strip_st(n)).args)
            xs = [strip_st(x) for x in xs or ()]
            return tuple(cval(x) for x in xs) if xs and all(is_const(x) and isinstance(cval(x), int) for x in xs) else None
        if c.op == 'sub':
            base = strip_alloc(strip_st(c.args[0]))
            if base.op == 'attr' and base.args[1] in ('loc', 'iloc'):
                x = self.shape_of(base.args[0], depth + 1)
                k = c.args[1].args[0] if c.args[1].op == 'tup' and c.args[1].args else c.args[1]
                n = self.mask_rows(k)
                return (n,) + x[1:] if n is not None and x and (k is c.args[1] or c.args[1].args[1].op == 'slice') else None
            x = self.shape_of(c.args[0], depth + 1)
            if x is None:
                return None
            k = c.args[1].args[0] if c.args[1].op == 'tup' and c.args[1].args else c.args[1]
            if self.mask_rows(k) is not None and (k is c.args[1] or all(y.op == 'slice' for y in c.args[1].args[1:])):
                return (self.mask_rows(k),) + x[1:]
            base = strip_alloc(strip_st(c.args[0]))
            if self.is_frame(strip_st(c.args[0])) or base.op == 'param' and self.given.get(base.args[0], '').endswith('DataFrame'):
                if c.args[1].op != 'tup' or not any(k.op == 'slice' for k in c.args[1].args):
                    return x[:1] if is_const(c.args[1]) else None
            if is_const(c.args[1], Ellipsis):
                return x
            ks = list(c.args[1].args) if c.args[1].op == 'tup' else [c.args[1]]
            out, x = [], list(x)
            for i, k in enumerate(ks):
                if is_const(k, None) or k is glob('numpy.newaxis'):
                    out.append(1)
                elif is_const(k, Ellipsis) and i == 0:
                    rest = sum(not (is_const(y, None) or y is glob('numpy.newaxis')) for y in ks[1:])
                    while len(x) > rest:
                        out.append(x.pop(0))
                elif not x:
                    return None
                elif is_const(k) and isinstance(cval(k), int):
                    x.pop(0)
                elif k.op == 'slice' and all(is_const(a) for a in k.args):
                    out.append(len(range(x.pop(0))[slice(*[cval(a) for a in k.args])]))
                elif k.op == 'positions':
                    x.pop(0)
                    out.append(len(k.args))
                else:
                    return None
            return tuple(out + x)
        xs = self.array(v)
        return (len(xs),) if xs is not None else None

    def mask_rows(self, k):
        """How many rows a mask selects, or None."""
        k = strip_alloc(strip_st(k))
        while k.op in ('attr', 'mcall') and (k.args[1] if k.op == 'attr' else k.args[0]) in ('values', 'array', 'to_numpy', 'astype', 'copy'):
            k = strip_alloc(strip_st(k.args[0 if k.op == 'attr' else 1]))
        return self.masks.get(k.args[0]) if k.op == 'param' else None

    def grid(self, v):
        """The rows of a small two-dimensional array whose elements are known, or None."""
        o = strip_st(v)
        c = self.s.heap.get((o, '#')) if self.s is not None else None
        if c is not None:
            return [list(x.args) for x in c.args[1:]] if c.op == 'lit' and c.args[0] == 'grid' else None
        c = strip_alloc(o)
        if c.op == 'call' and c.args[0].op == 'glob' and c.args[0].args[0] in FILL:
            n = self.shape_of(v)
            q = c.args[0].args[0]
            if n is not None and len(n) == 2 and n[0] * n[1] <= 40:
                x = (c.args[1][1] if len(c.args[1]) > 1 else dict(c.args[2]).get('fill_value')) if q == 'numpy.full' else \
                    const(FILL[q]) if FILL[q] != 'any' else t('garbage')
                return [[x] * n[1] for _ in range(n[0])] if x is not None else None
        return None

    def cells(self, k, n):
        """The cells of an array of this shape that a key selects, or None."""
        ks = list(k.args) if k.op == 'tup' else [k]
        out = []
        for i, m in enumerate(n):
            if i >= len(ks) or is_const(ks[i], Ellipsis):
                out.append(list(range(m)))
                continue
            y = strip_alloc(strip_st(ks[i]))
            if is_const(y) and isinstance(cval(y), int) and not isinstance(cval(y), bool):
                if not -m <= cval(y) < m:
                    return None
                out.append([cval(y) % m])
            elif y.op == 'slice' and all(is_const(a) for a in y.args):
                out.append(list(range(m))[slice(*[cval(a) for a in y.args])])
            else:
                xs = list(y.args) if y.op == 'positions' else self.array(ks[i])
                if xs is None:
                    xs = self.elems(ks[i])
                if xs is None or not all(is_const(x) for x in xs):
                    return None
                vs = [cval(x) for x in xs]
                out.append([j for j, b in enumerate(vs) if b] if vs and all(isinstance(b, bool) for b in vs) else vs)
        return [(a, b) for a in out[0] for b in out[1]]

    # ---------------------------------------------------------------------------------------- indexes
    def label_list(self, v):
        L = self.labels(v)
        if L is not None:
            return L.labels
        xs = self.elems(v)
        return [plain(x) for x in xs] if xs is not None and all(const_tuple(x) for x in xs) else None

    def labels(self, v):
        """The labels of an index, or None."""
        c = strip_alloc(strip_st(v))
        if (strip_st(v), '#') in self.s.heap:
            return None
        if c.op == 'call' and c.args[0].op == 'glob' and c.args[0].args[0].startswith('pandas.') and c.args[1]:
            q, kw = c.args[0].args[0], dict(c.args[2])
            names = kw.get('names', kw.get('name'))
            if q in ('pandas.Index', 'pandas.MultiIndex.from_tuples') and len(c.args[1]) == 1:
                xs = self.label_list(c.args[1][0])
                if xs is None:
                    return None
                tuples = bool(xs) and all(isinstance(x, tuple) for x in xs)
                if q == 'pandas.MultiIndex.from_tuples' and not tuples or tuples and len({len(x) for x in xs}) > 1:
                    return None
                ns = self.elems(names) if names is not None else None
                L = self.labels(c.args[1][0])
                multi = tuples and (L.multi if L is not None else kw.get('tupleize_cols') is not FALSE)
                return Labels(xs, multi, [cval(n) for n in ns] if ns is not None and all(is_const(n) for n in ns) else
                              cval(names) if names is not None and is_const(names) else L.names if L is not None else None)
        if c.op == 'mcall' and not c.args[2]:
            L = self.labels(c.args[1])
            if L is not None and c.args[0] == 'to_flat_index':
                return Labels(L.labels, False, None)
            if L is not None and c.args[0] in ('copy', 'view', '__copy__'):
                return L
        if c.op == 'mcall' and c.args[0] in ('take', 'rename', 'set_names') and len(c.args[2]) == 1:
            L = self.labels(c.args[1])
            if L is not None:
                if c.args[0] != 'take':
                    return Labels(L.labels, L.multi, 'renamed')
                xs = self.array(c.args[2][0]) or self.elems(c.args[2][0])
                if xs is not None and all(is_const(x) for x in xs):
                    return Labels([L.labels[cval(x)] for x in xs], L.multi, L.names)
        if c.op == 'sub':
            L = self.labels(c.args[0])
            xs = self.array(c.args[1]) if L is not None else None
            if xs is None and L is not None:
                xs = self.elems(c.args[1])
            if xs is not None and xs and all(is_const(x) and isinstance(cval(x), bool) for x in xs) and len(xs) == len(L.labels):
                return Labels([a for a, x in zip(L.labels, xs) if cval(x)], L.multi, L.names)
        return None

    # ---------------------------------------------------------------------------------------- sequences
    def elems(self, v):
        xs = super().elems(v) if strip_alloc(strip_st(v)).op != 'lit' or strip_alloc(strip_st(v)).args[0] != 'set' else None
        if xs is not None:
            return xs
        if self.s is None:
            return None
        xs = self.set_items(v)
        if xs is not None:
            return xs[::-1]
        ps = self.pairs(v)
        if ps is not None and strip_alloc(strip_st(v)).op in ('dictlit', 'call'):
            return [a for a, _ in ps]
        if v.op == 'mcall' and v.args[0] in ('items', 'keys', 'values') and not v.args[2]:
            ps = self.pairs(v.args[1])
            if ps is not None:
                return [t('tup', a, b) if v.args[0] == 'items' else a if v.args[0] == 'keys' else b for a, b in ps]
        c = strip_alloc(strip_st(v))
        if c.op == 'mcall' and c.args[0] in ('tolist', 'to_list') and not c.args[2]:
            L = self.labels(c.args[1])
            return [term(x) for x in L.labels] if L is not None else self.array(c.args[1])
        if c.op == 'call' and c.args[0] is glob('builtins.range') and all(is_const(x) and isinstance(cval(x), int) for x in c.args[1]):
            xs = range(*[cval(x) for x in c.args[1]])
            return [const(i) for i in xs] if len(xs) < 60 else None
        L = self.labels(v)
        return [term(x) for x in L.labels] if L is not None else None

    def truthy(self, v):
        xs = self.set_items(v)
        return const(bool(xs)) if xs is not None else super().truthy(v)

    def length(self, x):
        xs = self.set_items(x)
        if xs is None:
            xs = self.array(x)
        if xs is not None:
            return const(len(xs))
        o = strip_st(x)
        if o.op == 'param' and o.args[0] in self.rows:
            return const(self.rows[o.args[0]])
        n = self.shape_of(x)
        if n:
            return const(n[0])
        return super().length(x)

    def term_domain(self, v):
        xs = self.elems(v)
        if xs is None:
            xs = self.array(v)
        if xs is not None:
            return Domain(v, lambda iv: UNDEF, unroll=xs)
        return super().term_domain(v)

    def iterated(self, v, e):
        """What iterating over an object of the project gives."""
        o = strip_st(v)
        c = self.class_of(o)
        if c is None or o.op != 'alloc':
            return v
        fi = self.p.lookup(c, '__iter__')
        return self.call_repo(fi, [o], {}, e, cls=c) if fi is not None and not self.blocked(fi) else v

    def domain(self, e):
        if not isinstance(e, ast.Call):
            s0, n0 = self.s.copy(), len(self.events)
            v = self.ev(e)
            if self.s is not None:
                w = self.iterated(v, e)
                if self.s is not None and w is not v:
                    xs = self.elems(w)
                    if xs is not None:
                        return Domain(w, lambda iv: UNDEF, unroll=xs)
            self.s = s0
            del self.events[n0:]
            return super().domain(e)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'range' and not e.keywords:
            s0, n0 = self.s.copy(), len(self.events)
            a = [self.ev(x) for x in e.args]
            if self.s is not None and all(is_const(x) and isinstance(cval(x), int) for x in a):
                xs = range(*[cval(x) for x in a])
                if len(xs) < 60:
                    return Domain(UNDEF, lambda iv: UNDEF, unroll=[const(i) for i in xs])
            self.s = s0
            del self.events[n0:]
        elif isinstance(e, ast.Call) and not e.keywords:
            s0, n0 = self.s.copy(), len(self.events)
            v = self.ev(e)
            if self.s is not None:
                v = self.iterated(v, e)
            if self.s is not None:
                xs = self.elems(v)
                if xs is not None:
                    return Domain(v, lambda iv: UNDEF, unroll=xs)
            self.s = s0
            del self.events[n0:]
        return super().domain(e)

    def membership(self, x, coll):
        y, c = strip_st(x), strip_st(coll)
        if is_const(y) and is_const(c) and isinstance(cval(y), str) and isinstance(cval(c), str):
            return const(cval(y) in cval(c))
        if known(y) or const_tuple(y):
            xs = self.set_items(coll)
            if xs is None:
                L = self.labels(coll)
                if L is not None and const_tuple(y):
                    return const(plain(y) in L.labels)
                xs = self.elems(coll)
                if xs is not None and not all(known(z) or const_tuple(z) for z in xs):
                    xs = None
            if xs is not None:
                if const_tuple(y):
                    return const(any(const_tuple(z) and plain(z) == plain(y) for z in xs))
                if y.op != 'param' or any(self.same(y, z) for z in xs):
                    return const(any(self.same(y, z) for z in xs))
        return super().membership(x, coll)

    def mutating(self, o, name, args, kwargs, e):
        xs = self.set_items(o) if strip_st(o).op == 'alloc' else None
        if xs is None:
            ys = FrameInterp.elems(self, o) if strip_st(o).op == 'alloc' and name == 'remove' and len(args) == 1 else None
            r = super().mutating(o, name, args, kwargs, e)
            if ys is not None and all(known(y) for y in ys) and known(args[0]):
                for i, y in enumerate(ys):
                    if self.same(y, args[0]):
                        del ys[i]
                        self.s.heap[(strip_st(o), '#')] = t('lit', 'list', *ys)
                        break
                else:
                    self.do_raise(e, glob('builtins.ValueError'))
                    return UNDEF
            elif name == 'popitem' and self.s is not None:
                pass
            return r
        yss = [self.elems(a) for a in args]
        r = super().mutating(o, name, args, kwargs, e)
        new = None
        if name in ('add', 'remove', 'discard') and len(args) == 1 and known(args[0]):
            hit = any(self.same(x, args[0]) for x in xs)
            if name == 'remove' and not hit:
                self.do_raise(e, glob('builtins.KeyError'))
                return UNDEF
            new = xs + [args[0]] if name == 'add' else [x for x in xs if not self.same(x, args[0])]
        elif name == 'update' and all(y is not None and all(known(z) for z in y) for y in yss):
            new = xs + [z for y in yss for z in y]
        elif name == 'difference_update' and all(y is not None and all(known(z) for z in y) for y in yss):
            new = [x for x in xs if not any(self.same(x, z) for y in yss for z in y)]
        elif name == 'intersection_update' and all(y is not None and all(known(z) for z in y) for y in yss):
            new = [x for x in xs if all(any(self.same(x, z) for z in y) for y in yss)]
        elif name == 'clear':
            new = []
        if new is not None:
            self.s.heap[(strip_st(o), '#')] = t('lit', 'set', *self.distinct(new))
        return r

    def x_Delete(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            tg = n.targets[0]
            o, k = self.ev(tg.value), self.ev(tg.slice)
            if self.s is None:
                return
            self.emit('delsub', n, obj=o, key=k)
            ps = self.pairs(o) if strip_st(o).op == 'alloc' else None
            xs = FrameInterp.elems(self, o) if ps is None and strip_st(o).op == 'alloc' else None
            if ps is not None and sym(k):
                if not any(same_key(a, k) for a, _ in ps):
                    self.do_raise(n, glob('builtins.KeyError'))
                    return
                self.put(o, [(a, b) for a, b in ps if not same_key(a, k)])
            elif xs is not None and is_const(k) and isinstance(cval(k), int) and -len(xs) <= cval(k) < len(xs):
                del xs[cval(k)]
                self.s.heap[(strip_st(o), '#')] = t('lit', 'list', *xs)
            else:
                self.touch(o, t('upd', self.content(o), 'del', k))
            return
        if len(n.targets) > 1:
            for tg in n.targets:
                if self.s is not None:
                    self.x_Delete(ast.copy_location(ast.Delete(targets=[tg]), n))
            return
        super().x_Delete(n)

    def setsub(self, o, k, v, node, aug=None, operand=None):
        own = strip_st(o).op == 'alloc'
        arr = self.array(o) if own else None
        xs = FrameInterp.elems(self, o) if own and k.op == 'slice' and arr is None else None
        vs = self.elems(v) if xs is not None else None
        grid = self.grid(o) if own and arr is None and xs is None else None
        cells = self.cells(k, (len(grid), len(grid[0]) if grid else 0)) if grid is not None else None
        super().setsub(o, k, v, node, aug, operand)
        if cells is not None and self.shape_of(v) in (None, (), (1,)) and self.s is not None and not aug:
            for a, b in cells:
                grid[a][b] = self.val(v)
            self.s.heap[(strip_st(o), '#')] = t('lit', 'grid', *[t('tup', *x) for x in grid])
        elif arr is not None and is_const(k) and isinstance(cval(k), int) and -len(arr) <= cval(k) < len(arr):
            arr[cval(k)] = self.val(v)
            self.s.heap[(strip_st(o), '#')] = t('lit', 'array', *arr)
        elif xs is not None and vs is not None and all(is_const(a) for a in k.args):
            xs[slice(*[cval(a) for a in k.args])] = vs
            self.s.heap[(strip_st(o), '#')] = t('lit', 'list', *xs)

    def read_sub(self, o, k):
        if is_const(k) and isinstance(cval(k), int):
            xs = self.array(o)
            if xs is None:
                L = self.labels(o)
                xs = [term(x) for x in L.labels] if L is not None else None
            if xs is not None and -len(xs) <= cval(k) < len(xs):
                return xs[cval(k)]
        if k.op == 'tup' and len(k.args) == 2:
            g = self.grid(o)
            cs = self.cells(k, (len(g), len(g[0]) if g else 0)) if g is not None else None
            if cs is not None and len(cs) == 1 and all(is_const(x) for x in k.args):
                return g[cs[0][0]][cs[0][1]]
        return super().read_sub(o, k)

    # ---------------------------------------------------------------------------------------- operators
    def e_BinOp(self, e):
        if isinstance(e.op, ast.Add):
            s0, n0 = self.s.copy(), len(self.events)
            a, b = self.ev(e.left), self.ev(e.right)
            if self.s is not None:
                c = self.class_of(strip_st(a)) if strip_st(a).op == 'alloc' else None
                fi = self.p.lookup(c, '__add__') if c is not None else None
                if fi is not None and not self.blocked(fi):
                    return self.call_repo(fi, [strip_st(a), b], {}, e, cls=c)
                xs, ys = self.elems(a), self.elems(b)
                if xs is not None and ys is not None and all(strip_alloc(strip_st(x)).op == 'lit' and strip_alloc(strip_st(x)).args[0] == 'list'
                                                             for x in (a, b)):
                    return self.seq(xs + ys, e)
            self.s = s0
            del self.events[n0:]
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            s0, n0 = self.s.copy(), len(self.events)
            a, b = self.ev(e.left), self.ev(e.right)
            if self.s is not None:
                xs, ys = self.set_items(a), self.set_items(b)
                if xs is None and ys is not None:
                    xs = self.view_items(a)
                if ys is None and xs is not None:
                    ys = self.view_items(b)
                if xs is not None and ys is not None:
                    return self.new_set(self.combine(xs, ys, type(e.op).__name__), e)
            self.s = s0
            del self.events[n0:]
        return super().e_BinOp(e)

    def view_items(self, v):
        o = strip_st(v)
        ps = self.pairs(o.args[1]) if o.op == 'mcall' and o.args[0] == 'keys' else None
        if ps is None:
            if strip_alloc(o).op == 'lit' and all(known(x) for x in strip_alloc(o).args[1:]) and strip_alloc(o).args[0] == 'set' and \
                    (o, '#') not in self.s.heap:
                return list(strip_alloc(o).args[1:])
            return None
        return [a for a, _ in ps]

    def combine(self, xs, ys, op):
        def inside(x, zs): return any(self.same(x, z) for z in zs)
        if op == 'BitOr':
            return xs + ys
        if op == 'BitAnd':
            return [x for x in xs if inside(x, ys)]
        if op == 'Sub':
            return [x for x in xs if not inside(x, ys)]
        return [x for x in xs if not inside(x, ys)] + [y for y in ys if not inside(y, xs)]

    def x_AugAssign(self, n):
        if isinstance(n.op, (ast.BitOr, ast.Sub, ast.BitAnd)) and isinstance(n.target, (ast.Name, ast.Attribute)):
            s0, n0 = self.s.copy(), len(self.events)
            tg = ast.copy_location(ast.Attribute(n.target.value, n.target.attr, ast.Load()), n.target) \
                if isinstance(n.target, ast.Attribute) else ast.copy_location(ast.Name(n.target.id, ast.Load()), n.target)
            a, b = self.ev(tg), self.ev(n.value)
            if self.s is not None and strip_st(a).op == 'alloc' and self.set_items(a) is not None:
                ys = self.set_items(b)
                if ys is None:
                    ys = self.view_items(b)
                if ys is not None:
                    name = {'BitOr': 'update', 'Sub': 'difference_update', 'BitAnd': 'intersection_update'}[type(n.op).__name__]
                    self.mutating(a, name, [b], {}, n)
                    if isinstance(n.target, ast.Attribute) and self.s is not None:
                        self.emit('setattr', n, obj=strip_st(self.ev(tg.value)), key=tg.attr, value=a, op='|')
                    return
            self.s = s0
            del self.events[n0:]
        super().x_AugAssign(n)

    def comp(self, e, kind):
        if kind == 'set':
            s0, n0, q0 = self.s.copy(), len(self.events), self.nseq
            r = self.exact_comp(e, 'list')
            if r is not None and self.s is not None:
                xs = self.elems(r)
                if xs is not None and all(known(x) for x in xs):
                    return self.new_set(xs, e)
            if r is not None and self.s is None:
                return UNDEF
            self.s = s0
            del self.events[n0:]
            self.nseq = q0
        return super().comp(e, kind)

    # ---------------------------------------------------------------------------------------- generators
    def generator(self, fi):
        return False

    def e_Yield(self, e):
        g = self.gens[-1] if self.gens and self.gens[-1]['frame'] is self.stack[-1] else None
        if g is None:
            return super().e_Yield(e)
        v = self.ev(e.value) if e.value is not None else NONE
        if self.s is not None:
            self.collect(g, [v])
        return NONE

    def e_YieldFrom(self, e):
        g = self.gens[-1] if self.gens and self.gens[-1]['frame'] is self.stack[-1] else None
        if g is None:
            return super().e_YieldFrom(e)
        v = self.ev(e.value)
        if self.s is not None:
            v = self.iterated(v, e)
        if self.s is not None:
            xs = self.elems(v)
            if xs is None:
                g['vague'] = True
            else:
                self.collect(g, xs)
        return NONE

    def collect(self, g, xs):
        extra = [x for x in self.s.guards[g['guards']:] if x[2] not in ('survive', 'assume', 'loopexit')]
        if extra or sum(k is not None for k, _ in self.loops) > g['loops']:
            g['vague'] = True
        g['items'] += xs

    def call_repo(self, fi, args, kwargs, e, cls=None, parent=None):
        if not fi.is_gen or fi.is_ctx:
            return super().call_repo(fi, args, kwargs, e, cls=cls, parent=parent)
        s0, n0, q0 = self.s.copy(), len(self.events), self.nseq
        g = {'items': [], 'vague': False, 'guards': len(self.s.guards), 'loops': sum(k is not None for k, _ in self.loops), 'frame': None}
        self.gens.append(g)
        super().call_repo(fi, args, kwargs, e, cls=cls, parent=parent)
        self.gens.pop()
        if self.s is None and not g['vague']:
            return UNDEF
        if g['vague'] or self.s.guards[g['guards']:] and any(x[2] not in ('survive', 'assume', 'loopexit') for x in self.s.guards[g['guards']:]):
            self.s = s0
            del self.events[n0:]
            self.nseq = q0
            return self.opaque_call(t('fn', fi.qual), args, kwargs, e, fi=fi)
        return t('lit', 'list', *g['items'])

    def exec_function(self, fr, params, node):
        if self.gens and self.gens[-1]['frame'] is None:
            self.gens[-1]['frame'] = fr
        elif not fr.fi.is_gen:
            self.gens.append({'frame': 0})
            r = super().exec_function(fr, params, node)
            self.gens.pop()
            return r
        return super().exec_function(fr, params, node)

    # ---------------------------------------------------------------------------------------- calls
    def getattr_(self, o, name, node):
        x = strip_st(o)
        if self.s is None:
            return UNDEF
        if (x, name) not in self.s.heap:
            i = strip_alloc(x)
            if name in ('index', 'columns') and i.op == 'call' and i.args[0] is glob('pandas.DataFrame'):
                kw = dict(i.args[2])
                v = kw.get(name, i.args[1][1 if name == 'index' else 2] if len(i.args[1]) > (1 if name == 'index' else 2) else None)
                if v is not None and (strip_st(v).op == 'param' or self.labels(v) is not None):
                    return v
            if name in ('nlevels', 'size', 'shape', 'names', 'name', 'values', 'is_unique', 'empty', 'T'):
                L = self.labels(x)
                if L is not None:
                    n = len(L.labels)
                    return {'nlevels': const(L.nlevels), 'size': const(n), 'shape': t('tup', const(n)), 'values': x,
                            'is_unique': const(len(set(L.labels)) == n), 'empty': const(n == 0)}.get(name) or super().getattr_(o, name, node)
            if name in ('shape', 'size', 'T') and self.array(x) is not None:
                n = const(len(self.array(x)))
                return t('tup', n) if name == 'shape' else n if name == 'size' else x
            if name in ('shape', 'ndim', 'size'):
                n = self.shape_of(x)
                if n is not None:
                    size = 1
                    for y in n:
                        size *= y
                    return t('tup', *[const(y) for y in n]) if name == 'shape' else const(len(n) if name == 'ndim' else size)
        return super().getattr_(o, name, node)

    def isinstance_(self, x, c):
        cs = list(c.args) if c.op == 'tup' else [c]
        L = self.labels(x)
        if L is not None and all(z.op in ('glob', 'cls') for z in cs):
            return const(any(z.args[0].rsplit('.', 1)[-1] in ('Index', 'MultiIndex')[:1 + L.multi] for z in cs))
        if self.class_of(strip_st(x)) is not None and strip_st(x).op == 'alloc' and strip_st(x).args[0].op == 'new' and all(z.op == 'cls' for z in cs):
            q = strip_st(x).args[0].args[0]
            return const(any(self.p.has_base(q, z.args[0]) for z in cs))
        if all(z.op in ('glob', 'cls') for z in cs) and self.index_like(x):
            if any(z.args[0] in ('pandas.Index', 'pandas.core.indexes.base.Index') for z in cs):
                return TRUE
            if not any('Index' in z.args[0] or z.args[0].startswith(('builtins.object', 'collections', 'typing')) for z in cs):
                return FALSE
        return super().isinstance_(x, c)

    def index_like(self, x):
        """Decision units that were given, or the part of them that a mask selects."""
        o = strip_alloc(strip_st(x))
        while o.op == 'sub' and self.mask_rows(o.args[1]) is not None:
            o = strip_alloc(strip_st(o.args[0]))
        return o.op == 'param' and o.args[0] in self.rows

    def is_object(self, x, depth=0):
        o = strip_alloc(strip_st(x))
        if o.op == 'new' or self.labels(x) is not None or self.set_items(x) is not None or self.shape_of(x) is not None:
            return True
        return super().is_object(x, depth)

    def call_method(self, o, name, args, kwargs, e):
        x = strip_st(o)
        if self.s is None:
            return UNDEF
        if is_const(x) and isinstance(cval(x), str) and not kwargs:
            if name == 'join' and len(args) == 1:
                xs = self.elems(args[0])
                if xs is not None and all(is_const(strip_st(y)) and isinstance(cval(strip_st(y)), str) for y in xs):
                    return const(cval(x).join(cval(strip_st(y)) for y in xs))
            if name in ('startswith', 'endswith', 'count', 'find', 'rfind', 'replace', 'removeprefix', 'removesuffix', 'strip', 'lstrip', 'rstrip',
                        'isidentifier') and all(const_tuple(a) for a in args):
                return const(getattr(cval(x), name)(*[plain(a) for a in args]))
            if name in ('rpartition', 'partition') and all(is_const(a) for a in args):
                return t('tup', *[const(y) for y in getattr(cval(x), name)(*[cval(a) for a in args])])
        xs = self.set_items(x)
        if xs is not None:
            if name in ('copy', '__copy__') and not args:
                return self.new_set(xs, e)
            if name in ('union', 'difference', 'intersection', 'issubset', 'issuperset', 'isdisjoint') and not kwargs:
                yss = [self.elems(a) for a in args]
                if all(y is not None and all(known(z) for z in y) for y in yss):
                    if name.startswith('is') and len(yss) == 1:
                        a, b = self.combine(xs, yss[0], 'Sub'), self.combine(yss[0], xs, 'Sub')
                        return const(not a if name == 'issubset' else not b if name == 'issuperset' else len(a) == len(xs))
                    for y in yss:
                        xs = self.combine(xs, y, {'union': 'BitOr', 'difference': 'Sub', 'intersection': 'BitAnd'}[name])
                    return self.new_set(xs, e)
        if name in ('equals', 'identical') and len(args) == 1 and strip_st(args[0]) is x and (x, '#') not in self.s.heap:
            return TRUE
        L = self.labels(x)
        if L is not None:
            if name == 'get_loc' and len(args) == 1 and const_tuple(args[0]):
                return self.get_loc(L, plain(args[0]), e)
            if name in ('equals', 'identical') and len(args) == 1 and self.labels(args[0]) is not None:
                return const(self.labels(args[0]).labels == L.labels)
            if name in ('get_indexer', 'get_indexer_for') and len(args) == 1 and self.label_list(args[0]) is not None:
                return self.alloc(t('lit', 'array', *[const(L.labels.index(y) if y in L.labels else -1) for y in self.label_list(args[0])]), e)
        return super().call_method(o, name, args, kwargs, e)

    def get_loc(self, L, key, e):
        if L.multi and isinstance(key, str):
            key = (key,)
        hits = [i for i, y in enumerate(L.labels) if y == key or L.multi and y[:len(key)] == key]
        if not hits:
            self.do_raise(e, glob('builtins.KeyError'))
            return UNDEF
        if len(hits) == 1 and (not L.multi or len(key) == L.nlevels):
            return const(hits[0])
        return t('positions', *[const(i) for i in hits])

    def call_global(self, f, args, kwargs, e):
        q = f.args[0]
        if q in ('builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.iter', 'builtins.enumerate', 'builtins.sorted') and args and not kwargs:
            args = [self.iterated(args[0], e)] + list(args[1:])
            if self.s is None:
                return UNDEF
        if q in ('builtins.set', 'builtins.frozenset') and len(args) <= 1 and not kwargs:
            xs = self.elems(args[0]) if args else []
            if xs is not None and all(known(x) for x in xs):
                return self.new_set(xs, e)
        if q == 'itertools.chain' and not kwargs and not any(a.op == 'star' for a in args):
            yss = [self.elems(a) for a in args]
            if all(y is not None for y in yss):
                return t('lit', 'list', *[x for y in yss for x in y])
        if q == 'itertools.chain.from_iterable' and len(args) == 1:
            xs = self.elems(args[0])
            yss = [self.elems(a) for a in xs] if xs is not None else [None]
            if all(y is not None for y in yss):
                return t('lit', 'list', *[x for y in yss for x in y])
        if q == 'builtins.str' and len(args) == 1 and is_const(args[0]):
            return const(str(cval(args[0])))
        if q in ('builtins.str', 'builtins.repr') and len(args) == 1 and not kwargs:
            o = strip_st(args[0])
            cls = self.class_of(o) if o.op == 'alloc' else None
            for nm in ('__str__', '__repr__')[q.endswith('repr'):] if cls is not None else ():
                fi = self.p.lookup(cls, nm)
                if fi is not None and not self.blocked(fi):
                    return self.call_repo(fi, [o], {}, e, cls=cls)
        if q == 'builtins.float' and len(args) == 1 and is_const(args[0]) and isinstance(cval(args[0]), (int, float)):
            return const(float(cval(args[0])))
        if q == 'builtins.int' and len(args) == 1 and is_const(args[0]) and isinstance(cval(args[0]), (int, float)):
            return const(int(cval(args[0])))
        if q in ('builtins.list', 'builtins.tuple', 'builtins.sorted') and len(args) == 1 and not kwargs:
            xs = self.elems(args[0])
            if xs is not None:
                if q.endswith('sorted'):
                    if all(const_tuple(x) for x in xs):
                        try:
                            return self.seq(sorted(xs, key=plain), e)
                        except TypeError:
                            pass
                else:
                    return self.seq(xs, e) if q.endswith('list') else t('tup', *xs)
        if q == 'builtins.dict' and not args and not kwargs:
            return self.alloc(t('dictlit'), e)
        if q == 'builtins.getattr' and len(args) == 3 and is_const(args[1]):
            o = strip_st(args[0])
            if (o, cval(args[1])) in self.s.heap:
                return self.s.heap[(o, cval(args[1]))]
            c = self.class_of(o)
            if c is not None and o.op == 'alloc' and not any(self.p.lookup(c, cval(args[1]), k) for k in ('methods', 'props')) and \
                    not any(cval(args[1]) in k.attrs for k in self.p.mro(c)):
                return args[2]
        if q == 'builtins.hasattr' and len(args) == 2 and is_const(args[1]):
            o, name = strip_st(args[0]), cval(args[1])
            if (o, name) in self.s.heap:
                return TRUE
            if name in ('shape', 'ndim', 'dtype', 'size', 'T') and self.shape_of(o) is not None:
                return TRUE
            n = o.args[0] if o.op == 'neg' else o
            if is_const(n) and isinstance(cval(n), (int, float, str, bool)) or n.op == 'glob' and n.args[0] in ('numpy.nan', 'numpy.inf'):
                y = cval(n) if is_const(n) else 1.0
                return const(hasattr(y, name))
        if q in ('numpy.ndim', 'numpy.shape') and len(args) == 1 and not kwargs:
            n = self.shape_of(args[0])
            if n is not None:
                return const(len(n)) if q.endswith('ndim') else t('tup', *[const(y) for y in n])
        if q in ('builtins.max', 'builtins.min') and kwargs.get('default') is not None and len(args) == 1:
            xs = self.elems(args[0])
            if xs is not None:
                return kwargs['default'] if not xs else super().call_global(f, args, {}, e)
        return super().call_global(f, args, kwargs, e)
