"""Small arrays and frames followed cell by cell, with the labels of their axes."""
from __future__ import annotations

import ast
import re

from .interp import FALSE, NONE, TRUE, UNDEF, Domain, const, cval, glob, is_const, strip_alloc, strip_st, t
from .models import FILL, ModelInterp, const_tuple, plain, term
from .terms import cmp, nneg

FLOATS = {'numpy.float32', 'numpy.float64', 'f4', 'f8', 'float', 'float32', 'float64', 'builtins.float', '<f8', '<f4', 'd'}
SAME = ('copy', 'to_numpy', 'view', '__copy__', '__array__')


def size(n):
    k = 1
    for x in n:
        k *= x
    return k


def places(n):
    """All positions of an array of this shape, in order."""
    out = [()]
    for m in n:
        out = [p + (i,) for p in out for i in range(m)]
    return out


def plus(a, b):
    if is_const(a) and is_const(b) and all(isinstance(cval(x), (int, float)) for x in (a, b)):
        return const(cval(a) + cval(b))
    xs = [y for x in (a, b) for y in (x.args if x.op == 'plus' else [x]) if not (is_const(y) and cval(y) == 0)]
    return const(0.0) if not xs else xs[0] if len(xs) == 1 else t('plus', *sorted(xs, key=repr))


class GridInterp(ModelInterp):
    """Adds arrays of up to 60 cells, indexing with the meaning of numpy, and frames made of them."""

    # ---------------------------------------------------------------------------------------- values
    def image(self, v, depth=0):
        """(shape, cells in row order), or None."""
        o = strip_st(v)
        if self.s is None or depth > 25 or o.op in ('const', 'phi', 'undef', 'tup'):
            return None
        c = self.s.heap.get((o, '#'))
        if c is not None:
            if c.op == 'nd':
                x = tuple(cval(y) for y in c.args[0].args), list(c.args[1].args)
            elif c.op == 'lit' and c.args[0] == 'array':
                x = (len(c.args) - 1,), list(c.args[1:])
            else:
                return None
        else:
            x = self.image_of(strip_alloc(o), depth + 1)
        if x is None or size(x[0]) > 60:
            return None
        h = self.s.heap.get((o, 'shape'))
        if h is not None:
            n = self.numbers(h)
            return (self.fit(n, len(x[1])), x[1]) if n is not None and self.fit(n, len(x[1])) is not None else None
        return x

    def numbers(self, v):
        v = strip_alloc(strip_st(v))
        xs = list(v.args) if v.op == 'tup' else self.elems(v) if not is_const(v) else [v]
        xs = [strip_st(x) for x in xs] if xs is not None else None
        return tuple(cval(x) for x in xs) if xs is not None and all(is_const(x) and isinstance(cval(x), int) for x in xs) else None

    @staticmethod
    def fit(n, k):
        if sum(x < 0 for x in n) == 1:
            rest = size([x for x in n if x >= 0])
            n = tuple(x if x >= 0 else k // rest if rest else 0 for x in n)
        return tuple(n) if size(n) == k else None

    def image_of(self, c, depth):
        if c.op == 'param' and c.args[0] in self.shapes:
            n = self.shapes[c.args[0]]
            return n, [t('cell', c.args[0], *[const(i) for i in p]) for p in places(n)]
        if c.op == 'lit' and c.args[0] == 'array':
            return (len(c.args) - 1,), list(c.args[1:])
        if c.op == 'nd':
            return tuple(cval(y) for y in c.args[0].args), list(c.args[1].args)
        if c.op == 'call' and c.args[0].op == 'glob':
            return self.made(c.args[0].args[0], list(c.args[1]), dict(c.args[2]), depth)
        if c.op == 'attr':
            if c.args[1] == 'values':
                return self.image(c.args[0], depth)
            if c.args[1] == 'T':
                return self.turned(self.image(c.args[0], depth))
        if c.op == 'mcall':
            name, base, a, kw = c.args[0], c.args[1], list(c.args[2]), dict(c.args[3])
            x = self.image(base, depth)
            if x is None:
                return None
            if name in SAME:
                d = kw.get('dtype', a[0] if a and name == 'to_numpy' else None)
                return x if d is None or self.keeps(d) else None
            if name == 'astype' and a:
                return x if self.keeps(a[0]) else None
            if name in ('transpose', 'swapaxes') and not a:
                return self.turned(x)
            if name in ('ravel', 'flatten') and not a:
                return (len(x[1]),), x[1]
            if name == 'reshape' and a and not kw:
                n = self.numbers(a[0]) if len(a) == 1 else self.numbers(t('tup', *a))
                n = self.fit(n, len(x[1])) if n is not None else None
                return (n, x[1]) if n is not None else None
            if name == 'take' and len(a) == 1 and (len(x[0]) == 1 or 'axis' in kw):
                ax = cval(kw['axis']) if 'axis' in kw and is_const(kw['axis']) else 0
                return self.part(x, t('tup', *[t('slice', NONE, NONE, NONE)] * ax, a[0])) if isinstance(ax, int) and 0 <= ax < len(x[0]) else None
            return None
        if c.op == 'sub':
            base = strip_alloc(strip_st(c.args[0]))
            if base.op == 'attr' and base.args[1] in ('loc', 'iloc'):
                x = self.image(base.args[0], depth)
                k = self.by_position(base.args[0], c.args[1]) if base.args[1] == 'loc' else c.args[1]
                return self.part(x, k) if x is not None and k is not None else None
            x = self.image(c.args[0], depth)
            if x is None:
                return None
            if self.labelled(c.args[0]) and len(x[0]) == 2:
                cols = self.axis(c.args[0], 'columns')
                L = self.labels(cols) if cols is not None else None
                j = self.label_places(L, c.args[1]) if L is not None else None
                if j is not None:
                    return self.part(x, t('tup', t('slice', NONE, NONE, NONE), j))
                m = self.image(c.args[1])
                return self.part(x, c.args[1]) if m is not None and all(is_const(y) and isinstance(cval(y), bool) for y in m[1]) else None
            return self.part(x, c.args[1])
        if c.op == 'cmp':
            x, y = self.image(c.args[1], depth), self.image(c.args[2], depth)
            xs = x[1] if x is not None else None
            ys = y[1] if y is not None else None
            if xs is None and is_const(strip_st(c.args[1])) and ys is not None:
                x, xs = y, [strip_st(c.args[1])] * len(ys)
            if ys is None and is_const(strip_st(c.args[2])) and xs is not None:
                ys = [strip_st(c.args[2])] * len(xs)
            if xs is None or ys is None or len(xs) != len(ys) or not all(is_const(a) for a in xs + ys):
                return None
            names = {'<': 'Lt', '<=': 'LtE', '>': 'Gt', '>=': 'GtE', '==': 'Eq', '!=': 'NotEq'}
            zs = [cmp(names[c.args[0]], a, b) for a, b in zip(xs, ys)] if c.args[0] in names else [UNDEF]
            return (x[0], zs) if all(is_const(z) for z in zs) else None
        if c.op in ('not', 'inv'):
            x = self.image(c.args[0], depth)
            return (x[0], [const(not cval(y)) for y in x[1]]) if x is not None and all(is_const(y) and isinstance(cval(y), bool) for y in x[1]) else None
        if c.op == 'bin' and c.args[0] == '+':
            x, y = self.image(c.args[1], depth), self.image(c.args[2], depth)
            return (x[0], [plus(a, b) for a, b in zip(x[1], y[1])]) if x is not None and y is not None and x[0] == y[0] else None
        return None

    def keeps(self, d):
        d = strip_alloc(strip_st(d))
        if d.op == 'call' and d.args[0] is glob('numpy.dtype') and d.args[1]:
            d = strip_st(d.args[1][0])
        return d.op == 'attr' and d.args[1] == 'dtype' or (d.args[0] if d.op == 'glob' else cval(d) if is_const(d) else None) in FLOATS or is_const(d, None)

    def made(self, q, a, kw, depth):
        if q == 'pandas.DataFrame':
            data = a[0] if a else kw.get('data')
            if data is None:
                return None
            ps = self.pairs(data)
            if ps is not None:
                xs = [self.image(y, depth) for _, y in ps]
                if not xs or any(x is None or len(x[0]) != 1 or x[0] != xs[0][0] for x in xs) or any(self.labelled(y) for _, y in ps):
                    return None
                return (xs[0][0][0], len(xs)), [x[1][i] for i in range(xs[0][0][0]) for x in xs]
            x = self.image(data, depth)
            if x is None or self.labelled(data) and (len(a) > 1 or 'index' in kw or 'columns' in kw):
                return None
            return ((x[0][0], 1), x[1]) if len(x[0]) == 1 else x
        if q == 'pandas.Series':
            data = a[0] if a else kw.get('data')
            x = self.image(data, depth) if data is not None else None
            if x is None and data is not None and self.elems(data):
                x = self.cells_of(data)
            return x if x is not None and len(x[0]) == 1 and not (self.labelled(data) and (len(a) > 1 or 'index' in kw)) else None
        if q in ('numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.asfortranarray', 'numpy.copy', 'numpy.asanyarray', 'numpy.require') and a:
            x = self.image(a[0], depth)
            if x is None:
                x = self.cells_of(a[0])
            d = kw.get('dtype', a[1] if len(a) > 1 else None)
            return x if d is None or self.keeps(d) else None
        if q == 'numpy.expand_dims' and a and (len(a) > 1 or 'axis' in kw):
            x, n = self.image(a[0], depth), kw.get('axis', a[1] if len(a) > 1 else None)
            if x is None or not is_const(n) or not isinstance(cval(n), int) or not -len(x[0]) - 1 <= cval(n) <= len(x[0]):
                return None
            i = cval(n) % (len(x[0]) + 1)
            return x[0][:i] + (1,) + x[0][i:], x[1]
        if q == 'numpy.transpose' and len(a) == 1:
            return self.turned(self.image(a[0], depth))
        if q in ('numpy.ravel', 'numpy.reshape') and a:
            x = self.image(a[0], depth)
            n = self.numbers(a[1]) if len(a) > 1 else (-1,)
            n = self.fit(n, len(x[1])) if x is not None and n is not None else None
            return (n, x[1]) if n is not None else None
        if q in FILL or q.rpartition('_')[0] in FILL:
            like = q not in FILL
            n = self.image(a[0], depth) if like and a else self.numbers(a[0] if a else kw.get('shape', NONE)) if a or 'shape' in kw else None
            n = n[0] if like and n is not None else n
            q = q.rpartition('_')[0] if like else q
            x = (a[1] if len(a) > 1 else kw.get('fill_value')) if q == 'numpy.full' else const(FILL[q]) if FILL[q] != 'any' else t('garbage')
            if n is None or x is None or size(n) > 60 or min(n, default=1) < 0:
                return None
            kind = self.number_kind('numpy.full' if q == 'numpy.full' else q, a, kw) if not like else 'f'
            x = strip_st(x) if like else self.stored(strip_st(x), kind)
            return (n, [x] * size(n)) if x is not None else None
        if q in ('numpy.unique', 'numpy.sort') and len(a) == 1 and not kw:
            x = self.image(a[0], depth)
            if x is not None and all(is_const(y) for y in x[1]):
                xs = sorted(set(cval(y) for y in x[1]) if q.endswith('unique') else [cval(y) for y in x[1]])
                return (len(xs),), [const(y) for y in xs]
        if q == 'numpy.isnan' and a:
            return None
        return None

    def number_kind(self, q, a, kw):
        """What an array made by numpy.zeros, ones, empty or full can hold: f, i, b, or None."""
        n = 2 if q == 'numpy.full' else 1
        d = kw.get('dtype', a[n] if len(a) > n else None)
        if d is None or is_const(strip_st(d), None):
            x = strip_st(a[1] if len(a) > 1 else kw.get('fill_value', NONE)) if q == 'numpy.full' else None
            if x is None or not is_const(x) or cval(x) is None:
                return 'f'
            return 'b' if isinstance(cval(x), bool) else 'i' if isinstance(cval(x), int) else 'f'
        if self.keeps(d):
            return 'f'
        d = strip_alloc(strip_st(d))
        d = d.args[0].split('.')[-1] if d.op == 'glob' else cval(d) if is_const(d) else None
        if not isinstance(d, str):
            return None
        d = d.lstrip('<>=')
        return 'b' if re.fullmatch(r'bool_?\d?|\?|b1', d) else 'i' if re.fullmatch(r'u?int(c|p|\d+|_)?|[iu]\d|long', d) else 'f' if re.fullmatch(r'float(16|32|64)?_?|f[248]|double|single', d) else None

    def stored(self, x, kind):
        """A value as an array of this kind holds it, or None."""
        if kind == 'f' or x.op == 'garbage':
            return x
        if kind in ('i', 'b') and is_const(x) and isinstance(cval(x), (int, float)) and abs(cval(x)) < 1e15:
            return const(bool(cval(x)) if kind == 'b' else int(cval(x)))
        return None

    def kind_held(self, o):
        c = strip_alloc(o)
        if c.op == 'call' and c.args[0].op == 'glob' and c.args[0].args[0] in FILL:
            return self.number_kind(c.args[0].args[0], list(c.args[1]), dict(c.args[2]))
        return 'f'

    def cells_of(self, v):
        xs = self.elems(v)
        return ((len(xs),), [strip_st(y) for y in xs]) if xs and all(is_const(strip_st(y)) or strip_st(y).op == 'cell' for y in xs) else None

    @staticmethod
    def turned(x):
        if x is None or len(x[0]) < 2:
            return x
        n, m = x[0]
        return (m, n), [x[1][i * m + j] for j in range(m) for i in range(n)]

    # ---------------------------------------------------------------------------------------- selection
    def select(self, k, n):
        """(shape, positions in the flat array) that a key selects in an array of this shape, or None."""
        ix = strip_alloc(strip_st(k))
        outer = ix.op == 'call' and ix.args[0] is glob('numpy.ix_')
        ks = list(ix.args[1]) if outer else list(k.args) if k.op == 'tup' else [k]
        mask = self.image(ks[0]) if len(ks) == 1 and not outer else None
        if mask is not None and len(mask[0]) == 2 and mask[0] == tuple(n) and all(is_const(y) and isinstance(cval(y), bool) for y in mask[1]):
            hit = [i for i, y in enumerate(mask[1]) if cval(y)]
            return (len(hit),), hit
        used = sum(not (is_const(y, None) or y is glob('numpy.newaxis') or is_const(y, Ellipsis)) for y in ks)
        if used > len(n) or sum(is_const(y, Ellipsis) for y in ks) > 1:
            return None
        whole = t('slice', NONE, NONE, NONE)
        at = [i for i, y in enumerate(ks) if is_const(y, Ellipsis)]
        if at:
            ks[at[0]:at[0] + 1] = [whole] * (len(n) - used)
        else:
            ks += [whole] * (len(n) - used)
        axes, ax = [], 0                       # ('new',), ('one', i), ('many', [..]) or ('array', [..])
        for y in ks:
            if is_const(y, None) or y is glob('numpy.newaxis'):
                axes.append(('new', None))
                continue
            m = n[ax]
            ax += 1
            z = strip_alloc(strip_st(y))
            if is_const(z) and isinstance(cval(z), int) and not isinstance(cval(z), bool):
                if not -m <= cval(z) < m:
                    return None
                axes.append(('one', [cval(z) % m]))
            elif z.op == 'call' and z.args[0] is glob('builtins.slice') and len(z.args[1]) == 1 and is_const(z.args[1][0], None):
                axes.append(('many', list(range(m))))
            elif z.op == 'slice' and all(is_const(x) for x in z.args):
                axes.append(('many', list(range(m))[slice(*[cval(x) for x in z.args])]))
            else:
                xs = list(z.args) if z.op == 'positions' else None
                if xs is None:
                    im = self.image(y)
                    xs = im[1] if im is not None and len(im[0]) == 1 else self.elems(y) if im is None else None
                if xs is None or not all(is_const(strip_st(x)) for x in xs):
                    return None
                vs = [cval(strip_st(x)) for x in xs]
                if vs and all(isinstance(b, bool) for b in vs):
                    if len(vs) != m:
                        return None
                    vs = [i for i, b in enumerate(vs) if b]
                if not all(isinstance(b, int) and -m <= b < m for b in vs):
                    return None
                axes.append(('array', [b % m for b in vs]))
        arrays = [x for kind, x in axes if kind == 'array']
        if len(arrays) > 1 and not outer:
            k2 = max(len(x) for x in arrays)
            if any(len(x) not in (1, k2) for x in arrays) or any(kind in ('many', 'new') for kind, _ in axes):
                return None
            rows = []
            for i in range(k2):
                p, at = 0, 0
                for (kind, x), m in zip(axes, n):
                    p = p * m + (x[0] if len(x) == 1 else x[i])
                rows.append(p)
            return (k2,), rows
        shape, out, dims = [], [0], iter(n)
        for kind, x in axes:
            if kind == 'new':
                shape.append(1)
                continue
            m = next(dims)
            out = [p * m + i for p in out for i in x]
            if kind != 'one':
                shape.append(len(x))
        return tuple(shape), out

    def part(self, x, k):
        s = self.select(k, x[0])
        return (s[0], [x[1][i] for i in s[1]]) if s is not None else None

    def spread(self, v, n):
        """The cells of a value that is stored to a selection of this shape, or None."""
        x = self.image(v)
        if x is None:
            w = self.tidy(strip_st(self.val(v)))
            return [w] * size(n) if self.single(w) else None
        m = x[0]
        while len(m) > len(n) and m[0] == 1:
            m = m[1:]
        if len(m) > len(n) or any(a not in (1, b) for a, b in zip(m[::-1], n[::-1])):
            return None
        m = (1,) * (len(n) - len(m)) + tuple(m)
        out = []
        for p in places(n):
            q = 0
            for i, a in zip(p, m):
                q = q * a + (i if a > 1 else 0)
            out.append(x[1][q])
        return out

    def tidy(self, w):
        if w.op == 'bin' and w.args[0] == '+':
            a, b = [self.tidy(strip_st(y)) for y in w.args[1:3]]
            return plus(a, b) if self.single(a) and self.single(b) else w
        return w

    @staticmethod
    def single(w):
        return is_const(w) and isinstance(cval(w), (int, float, bool)) or w.op in ('cell', 'plus', 'garbage', 'param', 'neg') or \
            w.op == 'glob' and w.args[0] in ('numpy.nan', 'numpy.inf')

    # ---------------------------------------------------------------------------------------- frames
    def labelled(self, v):
        c = strip_alloc(strip_st(v))
        if c.op == 'call' and c.args[0].op == 'glob':
            return c.args[0].args[0] in ('pandas.DataFrame', 'pandas.Series')
        if c.op == 'mcall' and c.args[0] in ('copy', 'astype', 'transpose', 'reindex'):
            return self.labelled(c.args[1])
        if c.op == 'attr' and c.args[1] in ('T', 'loc', 'iloc'):
            return self.labelled(c.args[0])
        return c.op == 'sub' and self.labelled(c.args[0])

    def axis(self, v, name):
        """The labels of an axis of a frame or series, as a term, or None."""
        o = strip_st(v)
        if self.s is None:
            return None
        if (o, name) in self.s.heap:
            return self.s.heap[(o, name)]
        c = strip_alloc(o)
        if c.op == 'call' and c.args[0].op == 'glob' and c.args[0].args[0] in ('pandas.DataFrame', 'pandas.Series'):
            kw, a = dict(c.args[2]), c.args[1]
            if name == 'columns' and c.args[0].args[0] == 'pandas.Series':
                return None
            v = kw.get(name, a[1 if name == 'index' else 2] if len(a) > (1 if name == 'index' else 2) else None)
            data = a[0] if a else kw.get('data', NONE)
            if v is None and name == 'columns' and self.pairs(data) is not None:
                return t('call', glob('pandas.Index'), (t('lit', 'list', *[k for k, _ in self.pairs(data)]),), ())
            if v is None and self.labelled(data):
                return self.axis(data, name)
            if v is None and self.image(data) is not None:
                n = self.image(data)[0]
                n = n[0] if name == 'index' else n[1] if len(n) > 1 else 1
                return t('call', glob('pandas.Index'), (t('lit', 'list', *[const(i) for i in range(n)]),), ())
            if v is not None and self.labels(v) is None and self.elems(v) is not None:
                return t('call', glob('pandas.Index'), (v,), ())
            return v
        if c.op == 'mcall' and c.args[0] in ('copy', 'astype'):
            return self.axis(c.args[1], name)
        if c.op == 'mcall' and c.args[0] == 'transpose' and not c.args[2] or c.op == 'attr' and c.args[1] == 'T':
            return self.axis(c.args[1] if c.op == 'mcall' else c.args[0], 'columns' if name == 'index' else 'index')
        if c.op == 'sub':
            base = strip_alloc(strip_st(c.args[0]))
            if base.op == 'attr' and base.args[1] in ('loc', 'iloc') and self.labelled(base.args[0]):
                k = self.by_position(base.args[0], c.args[1]) if base.args[1] == 'loc' else c.args[1]
                old = self.axis(base.args[0], name)
                L = self.labels(old) if old is not None else None
                if L is None or k is None:
                    return None
                ks = list(k.args) if k.op == 'tup' else [k]
                i = 0 if name == 'index' else 1
                s = self.select(ks[i], (len(L.labels),)) if i < len(ks) else ((len(L.labels),), list(range(len(L.labels))))
                return t('call', glob('pandas.Index'), (t('lit', 'list', *[term(L.labels[j]) for j in s[1]]),), ()) if s is not None and s[0] else None
            if name == 'index' and self.labelled(c.args[0]) and self.axis(c.args[0], 'columns') is not None:
                cols = self.labels(self.axis(c.args[0], 'columns'))
                if cols is not None and self.label_places(cols, c.args[1]) is not None:
                    return self.axis(c.args[0], 'index')
        return None

    def label_places(self, L, k):
        """Positions of labels, as a key, or None."""
        if const_tuple(k) and plain(k) in L.labels and L.labels.count(plain(k)) == 1:
            return const(L.labels.index(plain(k)))
        if is_const(k) or k.op == 'slice':
            return k if k.op == 'slice' and all(is_const(x, None) for x in k.args) else None
        im = self.image(k)
        if im is not None and all(is_const(y) and isinstance(cval(y), bool) for y in im[1]):
            return k
        xs = self.label_list(k)
        if xs is not None and all(x in L.labels for x in xs):
            return t('lit', 'list', *[const(L.labels.index(x)) for x in xs])
        return None

    def by_position(self, frame, k):
        ks = list(k.args) if k.op == 'tup' and not const_tuple(k) else [k]
        out = []
        for y, name in zip(ks, ('index', 'columns')):
            ax = self.axis(frame, name)
            L = self.labels(ax) if ax is not None else None
            p = self.label_places(L, y) if L is not None else None
            if p is None:
                return None
            out.append(p)
        return t('tup', *out)

    # ---------------------------------------------------------------------------------------- hooks
    def array(self, v):
        x = self.image(v)
        return list(x[1]) if x is not None and len(x[0]) == 1 else super().array(v)

    def shape_of(self, v, depth=0):
        x = self.image(v)
        return x[0] if x is not None else super().shape_of(v, depth)

    def grid(self, v):
        x = self.image(v)
        if x is not None and len(x[0]) == 2:
            return [x[1][i * x[0][1]:(i + 1) * x[0][1]] for i in range(x[0][0])]
        return super().grid(v) if x is None else None

    def setsub(self, o, k, v, node, aug=None, operand=None):
        own = strip_st(o)
        x = self.image(o) if own.op in ('alloc', 'param') or self.root(own) is not None else None
        root = self.root(own) if x is not None else None
        cells = None
        if x is not None:
            s = self.select(k, x[0])
            vs = self.spread(v, s[0]) if s is not None else None
            if vs is not None:
                kind = self.kind_held(root if root is not None else own)
                vs = [self.stored(w, kind) for w in vs]
            if vs is not None and None not in vs:
                cells = list(x[1])
                for i, w in zip(s[1], vs):
                    cells[i] = w
        super().setsub(o, k, v, node, aug, operand)
        if cells is not None and self.s is not None:
            base = root if root is not None and root is not own else own
            n = self.image_shape(base, x[0])
            self.s.heap[(base, '#')] = t('nd', t('tup', *[const(y) for y in n]), t('tup', *cells))
            if base is not own:
                self.root(own, clear=base)

    def root(self, o, clear=None):
        """The array whose memory a whole view shares, or None; the contents of the views in between are forgotten."""
        for _ in range(10):
            c = strip_alloc(o)
            if clear is not None and o is not clear:
                self.s.heap.pop((o, '#'), None)
            if (o, '#') in self.s.heap:
                return o
            if c.op == 'attr' and c.args[1] == 'values':
                o = strip_st(c.args[0])
            elif c.op == 'sub' and is_const(c.args[1], Ellipsis):
                o = strip_st(c.args[0])
            elif c.op == 'mcall' and c.args[0] == 'to_numpy' and not (dict(c.args[3]).get('copy', FALSE) is TRUE):
                o = strip_st(c.args[1])
            elif c.op == 'call' and c.args[0].op == 'glob' and c.args[0].args[0] in ('pandas.DataFrame', 'numpy.asarray') and c.args[1] and \
                    not self.pairs(c.args[1][0]):
                o = strip_st(c.args[1][0])
            else:
                return o if o.op == 'alloc' and c.op == 'call' else None
        return None

    def image_shape(self, base, n):
        return n

    def read_sub(self, o, k):
        x = self.image(o)
        if x is not None and not (self.labelled(o) and len(x[0]) == 2):
            s = self.select(k, x[0])
            if s is not None and s[0] == ():
                return x[1][s[1][0]]
        return super().read_sub(o, k)

    def consts(self, v):
        x = self.image(v)
        return [cval(y) for y in x[1]] if x is not None and all(is_const(y) for y in x[1]) else None

    def filled(self, o, args, node):
        """arr.fill(v) writes every cell."""
        x = self.image(o)
        if x is not None and len(args) == 1 and self.spread(args[0], x[0]) is not None:
            self.setsub(o, const(Ellipsis), args[0], node)

    REDUCE = {'any': any, 'all': all, 'sum': sum, 'min': min, 'max': max, 'count_nonzero': lambda xs: sum(map(bool, xs))}

    def call_method(self, o, name, args, kwargs, e):
        if self.s is not None and name in self.REDUCE and not args and not kwargs and self.labels(o) is None:
            xs = self.consts(o)
            if xs is not None and (xs or name not in ('min', 'max')):
                return const(self.REDUCE[name](xs))
        if self.s is not None and name in ('reindex', 'reindex_like') and self.labelled(o) and self.image(o) is not None:
            r = self.reindexed(o, args, kwargs, e)
            if r is not None:
                return r
        r = super().call_method(o, name, args, kwargs, e)
        if self.s is not None and name == 'fill' and not kwargs:
            self.filled(o, args, e)
        if self.s is not None and name in ('copy', 'astype', 'flatten', 'take', 'to_numpy') and r is not None and strip_alloc(strip_st(r)).op == 'mcall' and \
                (name != 'to_numpy' or dict(strip_alloc(strip_st(r)).args[3]).get('copy') is TRUE):
            r = self.snapshot(r, e)
        return r

    def snapshot(self, r, e):
        """A new array with the present cells."""
        x = self.image(r)
        if x is None:
            return r
        r = r if r.op == 'alloc' else self.alloc(strip_st(r), e)
        self.s.heap[(r, '#')] = t('nd', t('tup', *[const(y) for y in x[0]]), t('tup', *x[1]))
        return r

    def e_Subscript(self, e):
        r = super().e_Subscript(e)
        if self.s is not None and r.op == 'sub' and isinstance(e.ctx, ast.Load):
            base = strip_alloc(strip_st(r.args[0]))
            ks = list(r.args[1].args) if r.args[1].op == 'tup' else [r.args[1]]
            if base.op == 'attr' and base.args[1] in ('loc', 'iloc') or any(not is_const(k) and k.op not in ('slice', 'glob') for k in ks):
                return self.snapshot(r, e)
        return r

    def reindexed(self, o, args, kw, e):
        x = self.image(o)
        ix, cols = kw.get('index', args[0] if args else None), kw.get('columns')
        if len(args) > 1 or set(kw) - {'index', 'columns', 'fill_value', 'copy'} or len(x[0]) != 2:
            return None
        fill = kw.get('fill_value', glob('numpy.nan'))
        keep = [ix, cols]
        hits = []
        for i, (name, want) in enumerate((('index', ix), ('columns', cols))):
            old = self.axis(o, name)
            L = self.labels(old) if old is not None else None
            if L is None:
                return None
            new = self.label_list(want) if want is not None and not is_const(want, None) else L.labels
            if new is None or len(set(L.labels)) != len(L.labels):
                return None
            keep[i] = want if want is not None and not is_const(want, None) else old
            hits.append([L.labels.index(y) if y in L.labels else None for y in new])
        cells = [strip_st(fill) if a is None or b is None else x[1][a * x[0][1] + b] for a in hits[0] for b in hits[1]]
        nd = self.alloc(t('nd', t('tup', const(len(hits[0])), const(len(hits[1]))), t('tup', *cells)), e)
        return self.alloc(t('call', glob('pandas.DataFrame'), (nd,), (('columns', keep[1]), ('index', keep[0]))), e)

    def call_global(self, f, args, kwargs, e):
        q = f.args[0]
        if self.s is not None and q.rpartition('.')[0] in ('numpy', 'builtins') and q.rpartition('.')[2] in self.REDUCE and len(args) == 1 and not kwargs:
            xs = self.consts(args[0])
            if xs is not None and (xs or q.rpartition('.')[2] not in ('min', 'max')):
                return const(self.REDUCE[q.rpartition('.')[2]](xs))
        return super().call_global(f, args, kwargs, e)

    def domain(self, e):
        if isinstance(e, ast.Call) and not e.keywords and isinstance(e.func, (ast.Name, ast.Attribute)) and \
                (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) == 'prange':
            s0, n0 = self.s.copy(), len(self.events)
            a = [self.ev(x) for x in e.args]
            if self.s is not None and all(is_const(x) and isinstance(cval(x), int) for x in a) and len(range(*[cval(x) for x in a])) < 60:
                return Domain(UNDEF, lambda iv: UNDEF, unroll=[const(i) for i in range(*[cval(x) for x in a])])
            self.s = s0
            del self.events[n0:]
        return super().domain(e)

    def getattr_(self, o, name, node):
        if self.s is not None and name in ('index', 'columns') and (strip_st(o), name) not in self.s.heap and self.labelled(o):
            v = self.axis(o, name)
            if v is not None:
                return v
        return super().getattr_(o, name, node)

    def kind(self, v):
        """What a value is: 'DataFrame', 'Series', 'ndarray' or None."""
        c = strip_alloc(strip_st(v))
        if c.op == 'call' and c.args[0].op == 'glob':
            q = c.args[0].args[0]
            return q[7:] if q in ('pandas.DataFrame', 'pandas.Series') else 'ndarray' if q.startswith('numpy.') and self.image(v) is not None else None
        if c.op == 'mcall' and c.args[0] in ('copy', 'astype', 'transpose', 'reindex', 'view') or c.op == 'attr' and c.args[1] == 'T':
            return self.kind(c.args[1] if c.op == 'mcall' else c.args[0])
        if c.op == 'mcall' and c.args[0] == 'to_numpy' or c.op == 'attr' and c.args[1] == 'values':
            return 'ndarray'
        return 'ndarray' if c.op in ('nd', 'param') and c.args[0] in self.shapes else None

    def isinstance_(self, x, c):
        k = self.kind(x) if self.s is not None else None
        cs = list(c.args) if c.op == 'tup' else [c]
        if k is not None and all(z.op in ('glob', 'cls') for z in cs):
            names = [z.args[0].rsplit('.', 1)[-1] for z in cs if z.op == 'glob']
            if not set(names) & {'object', 'NDFrame', 'Iterable', 'Sized', 'Container', 'Collection', 'Sequence'}:
                return const(k in names)
        return super().isinstance_(x, c)

    def e_Compare(self, e):
        c = super().e_Compare(e)
        neg = c.op == 'not'
        d = c.args[0] if neg else c
        if d.op == 'cmp' and d.args[0] == 'in' and is_const(strip_st(d.args[1])) and self.kind(d.args[2]) == 'DataFrame':
            ax = self.axis(d.args[2], 'columns')
            L = self.labels(ax) if ax is not None else None
            if L is not None:
                return const((cval(strip_st(d.args[1])) in L.labels) != neg)
        if c.op == 'cmp' and c.args[0] == 'is' and c.args[1] is not c.args[2]:
            a, b = strip_st(c.args[1]), strip_st(c.args[2])
            if a.op == b.op == 'alloc' and a is not b:
                return FALSE
            L, M = self.labels(a), self.labels(b)
            if L is not None and M is not None and L.labels != M.labels:
                return FALSE
        if c.op == 'not' and c.args[0].op == 'cmp':
            d = c.args[0]
            a, b = strip_st(d.args[1]), strip_st(d.args[2])
            if d.args[0] == 'is' and a is not b and a.op == b.op == 'alloc':
                return TRUE
        return c
