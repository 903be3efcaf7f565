"""Choice models: trees, results, readiness, utilities and copies, by the meaning of witness programs."""
from __future__ import annotations

import ast

from .lib import *  # noqa: F401,F403
from .frames import add_source
from .interp import strip_alloc, strip_st
from .models import Labels, ModelInterp, const_tuple, plain, same_key, term
from .rules_core import ROLES
from .rules_ldf import CONVERTED, Parsed
from .terms import FALSE, NONE, TRUE, T, const, cval, glob, is_const, show, t

MODEL_CLS = 'cheval.model.ChoiceModel'
NOT_READY = 'ModelNotReadyError'
RAW, LOGSUM, NESTED, DRAWN, DRAWN_LOGSUM = (t('param', x) for x in ('raw_p', 'logsum_p', 'nested_p', 'raw_d', 'logsum_d'))
DU, DU2 = t('param', 'du'), t('param', 'du2')
GIVEN = {'du': 'pandas.Index', 'du2': 'pandas.Index', 'arr1': 'numpy.ndarray', 'arr2': 'numpy.ndarray', 'arr3': 'numpy.ndarray', 'df1': 'pandas.DataFrame',
         'df2': 'pandas.DataFrame', 'df3': 'pandas.DataFrame', 's1': 'pandas.Series', 'mask': 'pandas.Series', 'raw_p': 'numpy.ndarray', 'raw_d': 'numpy.ndarray'}
PARAMS = 'du, du2, arr1, arr2, arr3, df1, df2, df3, s1, mask, seed, any1'
NROWS = 5


class MW:
    """A witness program about a model and what is known about its result."""

    def __init__(self, c, name, body, what, exprs=None, calls=None, **kw):
        self.c, self.what = c, what
        src = f'import pandas as pd\nfrom cheval.model import ChoiceModel\nfrom cheval.api import ExpressionGroup\ndef {name}({PARAMS}):\n' + \
            ''.join('    ' + x + '\n' for x in body)
        mod = f'witness_{name}'
        add_source(c.p, mod, src)
        self.seen = []
        stubs = {'worker_multinomial_probabilities': self.worker('flat_p', RAW, LOGSUM, NESTED),
                 'worker_nested_probabilities': self.worker('nested_p', RAW, LOGSUM, NESTED),
                 'worker_multinomial_sample': self.worker('flat_d', DRAWN, DRAWN_LOGSUM),
                 'worker_nested_sample': self.worker('nested_d', DRAWN, DRAWN_LOGSUM),
                 'to_numpy': lambda it, args, k: args[0] if len(args) == 1 and not k else None,
                 'fast_indexed_add': self.added,
                 'parse': Parsed(c, exprs or {}, texts=True)}
        stubs.update(calls or {})
        stubs = {k: v for k, v in stubs.items() if v is not None}
        given = dict(GIVEN, **kw.pop('given', {}))
        self.it = kw.pop('engine', ModelInterp)(c.p, calls=stubs, given=given, rows={'du': NROWS, 'du2': NROWS}, shapes=kw.pop('shapes', {}), **kw)
        self.r = self.it.run(c.p.functions[f'{mod}.{name}'])
        self.it.s = self.r.state
        c.functions |= {f for f in self.it.functions_seen if not f.startswith('witness')}
        c.n_events += len(self.r.events)
        v = self.r.value
        self.value = None if self.r.state is None or v is None or v.op == 'undef' else v
        self.parts = list(self.value.args) if self.value is not None and self.value.op == 'tup' else [self.value]

    def worker(self, kind, *out):
        def stub(it, args, kw):
            fi = it.p.fn('cheval.core.worker_' + {'flat': 'multinomial_', 'nested': 'nested_'}[kind[:-2]] +
                         {'p': 'probabilities', 'd': 'sample'}[kind[-1]])
            names = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args]
            by = dict(zip(names, args), **kw)
            got = {r: by[x] for r, x in zip(ROLES[fi.name], names) if x in by}
            arrays = {k: it.array(v) for k, v in got.items()}
            self.seen.append((kind, got, arrays, it.val(got['utilities']) if 'utilities' in got else NONE))
            if kind[-1] == 'd':
                n = got.get('n', NONE)
                it.s.heap[(out[0], 'shape')] = t('tup', const(NROWS), n)
            else:
                it.s.heap[(out[0], 'shape')] = t('tup', const(NROWS), t('len', out[0]))
            return t('tup', *out)
        return stub

    def added(self, it, args, kw):
        self.seen.append(('add', args, kw, None))
        if args:
            it.touch(args[0], t('upd', it.content(strip_st(args[0])), 'added', *args[1:]))
        return NONE

    def raises(self):
        """Exceptions that are raised without any condition that is not known."""
        return [e for e in self.r.events if e.kind == 'raise' and not [g for g in e.guards if g[2] not in ('survive', 'assume', 'loopexit') and
                                                                        not is_const(g[0]) and not (g[2] == 'assert' and g[1])]]

    def refused(self):
        return self.value is None

    def maybe(self):
        """Exceptions that may be raised."""
        return [e for e in self.r.events if e.kind == 'raise' and not any(k == 'except' for g, p, k in e.guards)]


def raised_class(e):
    v = strip_alloc(strip_st(e.value))
    while v.op == 'call':
        v = v.args[0]
    return v.args[0].rsplit('.', 1)[-1] if v.op in ('new', 'glob', 'cls') and v.args else None


# ---------------------------------------------------------------------------------------------- trees
class Tree:
    """What a sequence of additions has to give.  A step is a path, or (path, scale)."""

    def __init__(self, *steps):
        self.steps = [(s, None) if isinstance(s, str) else s for s in steps]
        self.order, self.scale = [], {}
        for s, z in self.steps:
            self.order = [x for x in self.order if x != s and not x.startswith(s + '.')] + [s]
            self.scale[s] = 1.0 if z is None else z

    @property
    def depth(self):
        return max(x.count('.') + 1 for x in self.order)

    def label(self, x):
        d = self.depth
        return x if d == 1 else tuple(x.split('.') + ['.'] * (d - x.count('.') - 1))

    @property
    def choices(self):
        return [self.label(x) for x in self.order]

    def parent(self, x):
        return any(y.startswith(x + '.') for y in self.order)

    @property
    def leaves(self):
        return [x for x in self.order if not self.parent(x)]

    @property
    def elemental(self):
        return [self.label(x) for x in self.leaves]

    @property
    def places(self):
        return [i for i, x in enumerate(self.order) if not self.parent(x)]

    def arrays(self):
        return {'hierarchy': [self.order.index(x.rpartition('.')[0]) if '.' in x else -1 for x in self.order],
                'levels': [x.count('.') for x in self.order],
                'logsum_scales': [float(self.scale[x]) if self.parent(x) else 1.0 for x in self.order],
                'bottom_flags': [not self.parent(x) for x in self.order]}

    def body(self, m='m', new=True):
        out = ['%s = ChoiceModel()' % m] if new else []
        for s, z in self.steps:
            p, _, n = s.rpartition('.')
            out.append(f'{var(s, m)} = {var(p, m) if p else m}.add_choice("{n}"{"" if z is None else ", logsum_scale=%r" % z})')
        return out


def var(path, m='m'):
    return f'{m}_' + path.replace('.', '_')


TREES = {
    'flat': Tree('c', 'a', 'b'),
    'pair': Tree('b', 'a'),
    'nest': Tree(('b', .5), 'b.y', 'b.x', 'a'),
    'twins': Tree('b', ('a', .25), ('c', .5), 'c.x', 'a.y', 'a.x', 'c.y'),
    'deep': Tree('b', ('a', .5), 'a.z', ('a.x', .25), 'a.x.q', 'a.x.p', 'c'),
    'mixed': Tree(('a', .5), ('a.a', .25), 'a.a.a', 'a.a.b', ('a.b', .75), 'a.b.b', 'a.b.a', ('b', .125), 'b.a', 'b.b'),
    'deeper': Tree(('t', .5), 'u', ('t.v', .25), ('t.v.w', .75), 't.v.w.y', 't.v.w.x', 't.v.z', 't.s', ('r', .375), 'r.y', 'r.x'),
    'four': Tree(('p', .5), 'p.q', 'p.r', 'p.s', 'n', 'o'),
    'replaced': Tree(('a', .5), 'a.x', 'a.y', 'ab', 'c', ('b', .25), 'b.a', 'b.x', ('a', .75)),
    'again': Tree(('a', .5), ('a.x', .25), 'a.x.p', 'a.x.q', 'a.y', ('b', .75), 'b.x', 'b.y', ('a.x', .125), 'a.x.p', 'a.x.r'),
    'moved': Tree('a', 'b', 'a', 'c'),
}


def model_fn(c, name):
    return c.p.fn(f'{MODEL_CLS}.{name}')


def refuse(c, rule, W, fi):
    rs = W.raises() or W.maybe()
    c.ob(rule, rs[0] if rs else fi, False, '', f'{W.what}: refused')


def p10(c):
    ch, el, de = (model_fn(c, n) for n in ('choices', 'elemental_choices', 'depth'))
    run, dis = model_fn(c, 'run_stochastic'), model_fn(c, 'run_discrete')
    for name, tr in TREES.items():
        what = f'the choices {", ".join(s for s, _ in tr.steps)}'
        W = MW(c, f'p10_{name}', tr.body() + ['return m.choices, m.elemental_choices, m.depth'], what)
        if W.refused():
            refuse(c, 'choices-of-tree', W, ch)
        else:
            for part, fi, want, text in ((0, ch, tr.choices, 'choices'), (1, el, tr.elemental, 'elemental choices')):
                v = W.parts[part]
                L = W.it.labels(v)
                if L is None and not is_const(v):
                    c.skip('choices-of-tree', fi, f'{what}: {text} are {show(v, 4)}')
                    continue
                multi = tr.depth > 1
                ok = L is not None and L.labels == want and L.multi == multi
                got = 'nothing' if L is None else ', '.join(map(str, L.labels)) + ('' if L.multi == multi else f' ({L.nlevels} level(s))')
                c.ob('choices-of-tree', fi, ok, f'{text} of a tree are its nodes, in the order of insertion',
                     f'{what}: the {text} are {got}, they have to be {", ".join(map(str, want))}')
            d = W.parts[2]
            if not is_const(d):
                c.skip('depth-of-tree', de, f'{what}: the depth is {show(d, 4)}')
            else:
                c.ob('depth-of-tree', de, cval(d) == tr.depth and type(cval(d)) is int, 'the depth of a tree is the largest level of a node',
                     f'{what}: the depth is {cval(d)!r}, it has to be {tr.depth}')
        for kind, fi, call in (('p', run, 'm.run_stochastic()'), ('d', dis, 'm.run_discrete(random_seed=seed)')):
            W = MW(c, f'p10{kind}_{name}', tr.body() + ['m.decision_units = du', f'r = {call}', 'return r'], what)
            if W.refused():
                refuse(c, 'arrays-of-tree', W, fi)
                continue
            ks = [x for x in W.seen if x[0][-1] == kind]
            if len(ks) != 1:
                c.skip('arrays-of-tree', fi, f'{what}: {len(ks)} calls of workers')
                continue
            want = 'flat' if tr.depth == 1 else 'nested'
            c.ob('worker-of-tree', fi, ks[0][0].startswith(want), 'flat models use the multinomial computations, nested ones the nested ones',
                 f'{what}: the {ks[0][0].split("_")[0]} worker is used')
            if want == 'flat' or not ks[0][0].startswith('nested'):
                continue
            for k, xs in tr.arrays().items():
                got = ks[0][2].get(k)
                if got is None or not all(is_const(x) for x in got):
                    c.skip('arrays-of-tree', fi, f'{what}: the array {k} is not followed')
                    continue
                ys = [cval(x) for x in got]
                c.ob('arrays-of-tree', fi, [float(y) for y in ys] == [float(x) for x in xs] and len(ys) == len(xs),
                     'the arrays of the tree hold the data of each choice at its position', f'{what}: {k} is {ys}, it has to be {xs}')


# ---------------------------------------------------------------------------------------------- results
class Unread(Exception):
    pass


class Reader:
    """Tables of results: labels of rows and columns, and what each column holds."""

    def __init__(self, W):
        self.W, self.it, self.h = W, W.it, W.it.s.heap

    def const_of(self, x):
        x = strip_alloc(strip_st(x))
        return cval(x) if is_const(x) else None

    def positions(self, k, n):
        """Which of n columns are selected by a key."""
        xs = self.it.array(k)
        if xs is None:
            xs = self.it.elems(k)
        if xs is not None and all(is_const(x) for x in xs):
            vs = [cval(x) for x in xs]
            if all(isinstance(x, bool) for x in vs):
                return [i for i, x in enumerate(vs) if x]
            return vs
        if is_const(k) and isinstance(cval(k), int):
            return cval(k)
        if k.op == 'slice':
            if all(is_const(a) for a in k.args):
                return list(range(n))[slice(*[cval(a) for a in k.args])]
        raise Unread(f'the columns {show(k, 4)}')

    def whole(self, k):
        return k.op == 'slice' and all(is_const(a, None) for a in k.args) or is_const(k, Ellipsis)

    def clean(self, o):
        c = self.h.get((o, '#'))
        if c is not None and c.op != 'init':
            raise Unread('changed data')

    def array2(self, v):
        """The columns of a two-dimensional array, or the meaning of a column."""
        o = strip_st(v)
        self.clean(o)
        i = strip_alloc(o)
        if i.op == 'param' and i in (RAW, NESTED, DRAWN):
            n = self.width(i)
            return [('raw', i.args[0], j) for j in range(n)]
        if i.op == 'mcall' and i.args[0] in ('copy', 'to_numpy', 'view') and not i.args[2]:
            return self.array2(i.args[1])
        if i.op == 'mcall' and i.args[0] in ('ravel', 'flatten', 'squeeze') and not i.args[2]:
            xs = self.array2(i.args[1])
            if isinstance(xs, list) and len(xs) == 1:
                return xs[0]
            if isinstance(xs, tuple):
                return xs
            raise Unread('flattened data')
        if i.op == 'attr' and i.args[1] == 'values':
            return self.table(i.args[0])[2]
        if i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0] in ('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.copy') \
                and len(i.args[1]) == 1:
            return self.array2(i.args[1][0])
        if i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0] == 'numpy.compress' and len(i.args[1]) == 2:
            xs = self.array2(i.args[1][1])
            ax = dict(i.args[2]).get('axis')
            if ax is not None and self.const_of(ax) in (1, -1):
                return [xs[j] for j in self.positions(i.args[1][0], len(xs))]
        if i.op == 'mcall' and i.args[0] in ('take', 'compress'):
            ax = dict(i.args[3]).get('axis', i.args[2][1] if len(i.args[2]) > 1 else None)
            base = i.args[1]
            if ax is not None and self.const_of(ax) in (1, -1):
                xs = self.array2(base)
                k = i.args[2][0] if i.args[0] == 'take' else i.args[2][0]
                return [xs[j] for j in self.positions(k, len(xs))]
            return self.looked(base, i.args[2][0])
        if i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0] == 'numpy.take' and len(i.args[1]) == 2 and not i.args[2]:
            return self.looked(*i.args[1])
        if i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0] == 'pandas.Categorical.from_codes' and i.args[1]:
            cs = dict(i.args[2]).get('categories', i.args[1][1] if len(i.args[1]) > 1 else None)
            x = self.array2(i.args[1][0])
            return self.mark(self.label_of(cs, x), 'category')
        if i.op == 'sub':
            k = i.args[1]
            if k.op == 'tup' and len(k.args) == 2 and self.whole(k.args[0]):
                xs = self.array2(i.args[0])
                if not isinstance(xs, list):
                    raise Unread(show(i, 4))
                js = self.positions(k.args[1], len(xs))
                return xs[js] if isinstance(js, int) else [xs[j] for j in js]
            if self.whole(k):
                return self.array2(i.args[0])
            L = self.lookup(i.args[0])
            if L is not None:
                return self.looked(i.args[0], k)
        if i.op == 'mcall' and i.args[0] == 'astype':
            return self.mark(self.array2(i.args[1]), self.dtype(i.args[2][0]))
        if i.op == 'attr' and i.args[1] == 'T':
            raise Unread('transposed data')
        raise Unread(show(i, 4))

    def width(self, i):
        s = self.h.get((i, 'shape'))
        n = s.args[1] if s is not None else NONE
        if is_const(n) and isinstance(cval(n), int):
            return cval(n)
        if i in (RAW, NESTED):
            return self.n_choices
        raise Unread('the number of columns')

    n_choices = 0

    def dtype(self, d):
        d = strip_alloc(strip_st(d))
        return str(cval(d)) if is_const(d) else d.args[0] if d.op == 'param' else show(d, 3)

    def mark(self, x, dt):
        if isinstance(x, list):
            return [self.mark(y, dt) for y in x]
        return x[:3] + (dt,) if x[0] == 'label' else ('cast', x, dt)

    def lookup(self, v):
        """The labels that positions are looked up in: (labels, dtype)."""
        o = strip_st(v)
        i = strip_alloc(o)
        L = self.it.labels(v)
        if L is not None:
            if L.multi:
                return (L.labels, 'multi')
            return (L.labels, None)
        if i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0] == 'pandas.Categorical' and len(i.args[1]) == 1:
            x = self.lookup(i.args[1][0])
            cs = dict(i.args[2]).get('categories')
            if cs is not None:
                y = self.lookup(cs)
                if x is None or y is None or x[0] != y[0]:
                    return None
            return (x[0], 'category') if x is not None and x[1] != 'multi' else None
        if i.op == 'mcall' and i.args[0] == 'astype' and i.args[2]:
            x = self.lookup(i.args[1])
            return (x[0], self.dtype(i.args[2][0])) if x is not None and x[1] != 'multi' else None
        if i.op == 'mcall' and i.args[0] in ('to_numpy', 'copy', 'tolist') or i.op == 'attr' and i.args[1] in ('values', 'array'):
            return self.lookup(i.args[1] if i.op == 'mcall' else i.args[0])
        if i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0] in ('numpy.array', 'numpy.asarray', 'pandas.array') and i.args[1]:
            x = self.lookup(i.args[1][0])
            d = dict(i.args[2]).get('dtype')
            return (x[0], self.dtype(d)) if x is not None and d is not None else x
        xs = self.it.elems(v)
        if xs is not None and all(const_tuple(x) for x in xs):
            return ([plain(x) for x in xs], None)
        return None

    def looked(self, base, k):
        L = self.lookup(base)
        if L is None or L[1] == 'multi':
            raise Unread(f'looking up in {show(base, 4)}')
        x = self.array2(k)
        return [('label', tuple(L[0]), y, L[1]) for y in x] if isinstance(x, list) else ('label', tuple(L[0]), x, L[1])

    def label_of(self, cs, x):
        L = self.lookup(cs) if cs is not None else None
        if L is None or L[1] == 'multi':
            raise Unread('the categories')
        return [('label', tuple(L[0]), y, L[1]) for y in x] if isinstance(x, list) else ('label', tuple(L[0]), x, L[1])

    def attr(self, o, name, default):
        return self.h.get((o, name), default)

    def table(self, v):
        """('frame' or 'series', index, what the columns hold, labels of the columns or name)."""
        o = strip_st(v)
        self.clean(o)
        i = strip_alloc(o)
        if i.op == 'call' and i.args[0].op == 'glob':
            q, a, kw = i.args[0].args[0], i.args[1], dict(i.args[2])
            if q == 'pandas.DataFrame' and a or q == 'pandas.DataFrame' and 'data' in kw:
                data = a[0] if a else kw['data']
                ix = self.attr(o, 'index', kw.get('index', a[1] if len(a) > 1 else NONE))
                cols = self.attr(o, 'columns', kw.get('columns', a[2] if len(a) > 2 else NONE))
                ps = self.it.pairs(data)
                if ps is not None:
                    xs = [self.column(x) for _, x in ps]
                    if is_const(cols, None):
                        cols = t('lit', 'list', *[k for k, _ in ps])
                else:
                    xs = self.array2(data)
                    if not isinstance(xs, list):
                        xs = [xs]
                if kw.get('dtype') is not None:
                    xs = self.mark(xs, self.dtype(kw['dtype']))
                return ('frame', ix, xs, cols)
            if q == 'pandas.Series' and (a or 'data' in kw):
                x = self.column(a[0] if a else kw['data'])
                if kw.get('dtype') is not None:
                    x = self.mark(x, self.dtype(kw['dtype']))
                ix = self.attr(o, 'index', kw.get('index', a[1] if len(a) > 1 else NONE))
                return ('series', ix, x, self.attr(o, 'name', kw.get('name', NONE)))
            if q == 'pandas.concat' and a:
                ax = kw.get('axis', a[1] if len(a) > 1 else const(0))
                xs = self.it.elems(a[0])
                if xs is None and self.it.pairs(a[0]) is not None:
                    xs = [x for _, x in self.it.pairs(a[0])]
                ts = [self.table(x) for x in xs] if xs is not None else []
                if not ts or any(x[0] != 'series' or x[1] is not ts[0][1] for x in ts):
                    raise Unread('concatenated data')
                if self.const_of(ax) not in (1, 'columns'):
                    return ('stacked', ts[0][1], [x[2] for x in ts], NONE)
                cols = kw.get('keys', t('lit', 'list', *[x[3] for x in ts]))
                return ('frame', self.attr(o, 'index', ts[0][1]), [x[2] for x in ts], self.attr(o, 'columns', cols))
        if i.op == 'phi':
            raise Unread('a result that depends on ' + show(i.args[0], 4))
        if i.op == 'mcall':
            name, base, a, kw = i.args[0], i.args[1], i.args[2], dict(i.args[3])
            if name in ('copy',):
                k, ix, xs, cols = self.table(base)
                return (k, self.attr(o, 'index', ix), xs, self.attr(o, 'columns' if k == 'frame' else 'name', cols))
            if name == 'astype':
                k, ix, xs, cols = self.table(base)
                return (k, self.attr(o, 'index', ix), self.mark(xs, self.dtype(a[0])), self.attr(o, 'columns' if k == 'frame' else 'name', cols))
            if name == 'squeeze':
                k, ix, xs, cols = self.table(base)
                ax = kw.get('axis', a[0] if a else NONE)
                if k == 'frame' and len(xs) == 1 and (self.const_of(ax) in (1, 'columns')):
                    return ('series', ix, xs[0], self.attr(o, 'name', self.label_at(cols, 0)))
                raise Unread('squeezed data')
            if name == 'rename' and a and not kw:
                k, ix, xs, cols = self.table(base)
                if k == 'series':
                    return (k, ix, xs, self.attr(o, 'name', a[0]))
            if name == 'to_frame':
                k, ix, xs, nm = self.table(base)
                return ('frame', ix, [xs], self.attr(o, 'columns', t('lit', 'list', kw.get('name', a[0] if a else nm))))
        if i.op == 'sub':
            base, k = strip_st(i.args[0]), i.args[1]
            if base.op == 'attr' and base.args[1] in ('iloc', 'loc') and k.op == 'tup' and len(k.args) == 2 and self.whole(k.args[0]):
                kind, ix, xs, cols = self.table(base.args[0])
                if kind != 'frame':
                    raise Unread(show(i, 4))
                js = self.positions(k.args[1], len(xs)) if base.args[1] == 'iloc' else self.by_label(cols, k.args[1])
                if isinstance(js, int):
                    return ('series', ix, xs[js], self.attr(o, 'name', self.label_at(cols, js)))
                return ('frame', ix, [xs[j] for j in js], self.attr(o, 'columns', t('sub', strip_st(cols), k.args[1]) if self.it.labels(cols) else cols))
            if not (base.op == 'attr' and base.args[1] in ('iloc', 'loc')):
                kind, ix, xs, cols = self.table(base)
                js = self.by_label(cols, k)
                if isinstance(js, int):
                    return ('series', ix, xs[js], self.attr(o, 'name', k))
                return ('frame', ix, [xs[j] for j in js], self.attr(o, 'columns', k))
        raise Unread(show(i, 4))

    def column(self, x):
        try:
            return self.array2(x)
        except Unread:
            k, ix, y, nm = self.table(x)
            return y

    def by_label(self, cols, k):
        L = self.column_labels(cols)
        if L is None:
            raise Unread('the labels of the columns')
        if const_tuple(k) and plain(k) in L:
            return L.index(plain(k))
        want = self.it.label_list(k)
        if want is not None and all(x in L for x in want):
            return [L.index(x) for x in want]
        xs = self.positions(k, len(L))
        if isinstance(xs, list) and self.it.array(k) is not None:
            return xs
        raise Unread('the columns')

    def label_at(self, cols, j):
        i = strip_alloc(strip_st(cols))
        L = self.it.labels(cols)
        if L is not None:
            return t('tup', *[const(x) for x in L.labels[j]]) if isinstance(L.labels[j], tuple) else const(L.labels[j])
        xs = self.it.elems(cols)
        return xs[j] if xs is not None else t('opaque', 'label', j)

    def column_labels(self, cols):
        i = strip_alloc(strip_st(cols))
        if i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0] == 'pandas.RangeIndex' and i.args[1]:
            n = self.const_of(i.args[1][0])
            if len(i.args[1]) == 1 and isinstance(n, int):
                return list(range(n))
        L = self.it.labels(cols)
        if L is not None:
            return L.labels
        return self.it.label_list(cols)

    def column_name(self, cols):
        i = strip_alloc(strip_st(cols))
        if (strip_st(cols), 'name') in self.h:
            return self.h[(strip_st(cols), 'name')]
        return dict(i.args[2]).get('name', NONE) if i.op == 'call' else NONE


def meaning_text(x):
    if x[0] == 'raw':
        return f'position {x[2]} of the {"probabilities" if x[1] == "raw_p" else "nested logsums" if x[1] == "nested_p" else "samples"}'
    if x[0] == 'label':
        return f'the label among ({", ".join(map(str, x[1]))}) at {meaning_text(x[2])}' + (f' as {x[3]}' if x[3] else '')
    return f'{meaning_text(x[1])} as {x[2]}'


def is_units(ix):
    return strip_st(ix) is DU


def check_table(c, rule, W, v, fi, what, kind, cells, labels=None, name=None, multi=None):
    """Obligations on one table or series of results."""
    R = Reader(W)
    R.n_choices = len(labels) if labels is not None and kind == 'nested' else W.n_choices
    if v is None or is_const(v):
        c.ob(rule, fi, False, '', f'{what}: nothing is returned')
        return
    try:
        k, ix, xs, cols = R.table(v)
    except Unread as e:
        c.skip(rule, fi, f'{what}: {e}')
        return
    want_kind = 'series' if kind == 'series' else 'frame'
    c.ob(rule, fi, k == want_kind, 'results have the shape that was asked for', f'{what}: a {k} is returned, not a {want_kind}')
    if k != want_kind:
        return
    c.ob(rule, fi, is_units(ix), 'rows of results carry the decision units', f'{what}: the rows are labelled with {show(ix, 4)}')
    xs = xs if isinstance(xs, list) else [xs]
    c.ob(rule, fi, xs == cells, 'results hold what was computed for each choice or record',
         f'{what}: it holds ' + '; '.join(map(meaning_text, xs)) + ' where it has to hold ' + '; '.join(map(meaning_text, cells)))
    if labels is not None:
        L = R.it.labels(cols)
        got = R.column_labels(cols)
        if got is None and not is_const(cols):
            c.skip(rule, fi, f'{what}: columns {show(cols, 4)}')
        else:
            c.ob(rule, fi, got == labels and (L is None or multi is None or L.multi == multi), 'columns of results carry the choices',
                 f'{what}: the columns are labelled {"with nothing" if got is None else ", ".join(map(str, got))}')
    if name is not None:
        got = cols if kind == 'series' else R.column_name(cols)
        if got.op in ('const', 'param'):
            c.ob(rule, fi, got is name, 'results have the name that was asked for', f'{what}: the name is {show(got, 3)} instead of {show(name, 3)}')
        else:
            c.skip(rule, fi, f'{what}: the name is {show(got, 4)}')


def simple(W, v):
    """A series of one-dimensional data: (data, index)."""
    o = strip_st(v)
    i = strip_alloc(o)
    if i.op == 'call' and i.args[0] is glob('pandas.Series') and i.args[1]:
        return strip_st(i.args[1][0]), W.it.s.heap.get((o, 'index'), dict(i.args[2]).get('index', i.args[1][1] if len(i.args[1]) > 1 else NONE))
    return None


def check_logsum(c, rule, W, v, fi, what, want):
    if v is None or is_const(v):
        c.ob(rule, fi, False, '', f'{what}: no logsum is returned')
        return
    x = simple(W, v)
    if x is None:
        c.skip(rule, fi, f'{what}: the logsum is {show(v, 4)}')
        return
    c.ob(rule, fi, x[0] is want and is_units(x[1]), 'logsums carry the decision units', f'{what}: the logsum is {show(v, 4)}')


def p11(c):
    sto, dis = model_fn(c, 'run_stochastic'), model_fn(c, 'run_discrete')
    for name in ('flat', 'nest', 'twins', 'deep', 'deeper', 'replaced'):
        tr = TREES[name]
        n = len(tr.order)
        what = f'a run with the choices {", ".join(tr.order)}'
        W = MW(c, f'p11_{name}', tr.body() + ['m.decision_units = du', 'p, l, nl = m.run_stochastic()', 'return p, l, nl'], what)
        W.n_choices = n
        if W.refused():
            refuse(c, 'stochastic-results', W, sto)
        elif len(W.parts) == 3:
            cells = [('raw', 'raw_p', j) for j in (tr.places if tr.depth > 1 else range(n))]
            check_table(c, 'stochastic-results', W, W.parts[0], sto, what + ', probabilities', 'frame', cells, tr.elemental, multi=tr.depth > 1)
            check_logsum(c, 'stochastic-results', W, W.parts[1], sto, what, LOGSUM)
            check_table(c, 'stochastic-results', W, W.parts[2], sto, what + ', nested logsums', 'frame',
                        [('raw', 'nested_p', j) for j in range(n)], tr.choices, multi=tr.depth > 1)
        else:
            c.skip('stochastic-results', sto, f'{what}: {show(W.value, 3)}')
        for dt, draws, squeeze in (('category', 1, None), ('category', 1, False), ('category', 3, None), ('category', 2, False), ('index', 1, None),
                                   ('index', 1, False), ('index', 2, None), ('index', 2, False), ('str', 1, True), ('str', 3, True), ('str', 1, False)):
            if name not in ('flat', 'twins') and (draws == 2 or squeeze is False and dt != 'category'):
                continue
            w2 = f'{what}, n_draws={draws}, astype={dt}' + ('' if squeeze is None else f', squeeze={squeeze}')
            args = ['random_seed=seed', f'n_draws={draws}', 'result_name=any1'] + ([f'astype="{dt}"'] if dt != 'category' else []) + \
                ([f'squeeze={squeeze}'] if squeeze is not None else [])
            W = MW(c, f'p11_{name}_{dt}_{draws}_{squeeze}', tr.body() + ['m.decision_units = du', f'r, l = m.run_discrete({", ".join(args)})', 'return r, l'], w2)
            W.n_choices = n
            if W.refused():
                refuse(c, 'discrete-results', W, dis)
                continue
            raw = [('raw', 'raw_d', j) for j in range(draws)]
            cells = raw if dt == 'index' else [('label', tuple(tr.choices), x, dt) for x in raw]
            one = draws == 1 and squeeze is not False
            check_table(c, 'discrete-results', W, W.parts[0], dis, w2, 'series' if one else 'frame', cells, None if one else list(range(draws)),
                        name=t('param', 'any1'))
            if len(W.parts) == 2:
                check_logsum(c, 'discrete-results', W, W.parts[1], dis, w2, DRAWN_LOGSUM)
            else:
                c.ob('discrete-results', dis, False, '', f'{w2}: no logsum is returned')


# ---------------------------------------------------------------------------------------------- readiness
EXPRS = {'n': (('n',), {}), 'v': (('v',), {}), 'n_v': (('n', 'v'), {}), 't.c': ((), {'t': (('__t_1', ('c',), None, None),)}),
         'v_t.c': (('v',), {'t': (('__t_2', ('c',), None, None),)}), 'w': (('w',), {}), 'NAN': (('NAN',), {}), 'nothing': ((), {}),
         's.c': ((), {'s': (('__s_1', ('c',), None, None),)}), 't.c_s.c': ((), {'t': (('__t_3', ('c',), None, None),), 's': (('__s_2', ('c',), None, None),)}),
         's.c_t.c': ((), {'s': (('__s_3', ('c',), None, None),), 't': (('__t_4', ('c',), None, None),)}), 'n_w': (('n', 'w'), {}), 'm2': (('m2',), {})}
READY = ['m = ChoiceModel()', 'm.add_choice("a")', 'm.add_choice("b")', 'm.decision_units = du']
DECLARE = ['m.declare_number("n")', 'm.declare_vector("v", 0)', 'm.declare_vector("w", 1)', 'm.declare_table("t", 0)']
ASSIGN = ['m["n"].assign(5)', 'm["v"].assign(arr1)', 'm["w"].assign(arr2)', 'm["t"].assign(df1)']


def not_ready(W):
    return [e for e in W.raises() if raised_class(e) == NOT_READY]


def p13(c):
    va = model_fn(c, 'validate')
    runs = (('m.run_stochastic()', model_fn(c, 'run_stochastic')), ('m.run_discrete()', model_fn(c, 'run_discrete')))
    n = [0]

    def refused(body, what, calls, add=()):
        for call, fi in calls:
            n[0] += 1
            W = MW(c, f'p13_{n[0]}', list(body) + list(add) + [f'r = {call}', 'return 1'], f'{call.split("(")[0][2:]} of a model with {what}', EXPRS)
            rs = W.raises()
            if not W.refused():
                maybe = [e for e in W.maybe() if raised_class(e) == NOT_READY]
                c.ob('incomplete-model-refused', fi, False, 'an incomplete model is refused', f'{W.what} is not refused') if not maybe or W.seen else \
                    c.skip('incomplete-model-refused', fi, f'{W.what}: {maybe[0].loc}')
                continue
            c.ob('incomplete-model-refused', fi, bool(not_ready(W)), 'an incomplete model is refused with ModelNotReadyError',
                 f'{W.what} raises {raised_class(rs[-1]) if rs else "something else"}') if rs else c.skip('incomplete-model-refused', fi, W.what)
            ev = [e for e in W.r.events if e.kind == 'call' and e.func is not None and e.func.op == 'glob' and e.func.args[0] == 'numexpr.evaluate']
            c.ob('refused-before-evaluation', ev[0] if ev else fi, not ev and not W.seen, 'nothing is evaluated for an incomplete model',
                 f'{W.what}: expressions are evaluated before it is refused')

    def accepted(body, what, calls, add=()):
        for call, fi in calls:
            n[0] += 1
            W = MW(c, f'p13_{n[0]}', list(body) + list(add) + [f'r = {call}', 'return 1'], f'{call} of a model with {what}', EXPRS)
            rs = not_ready(W)
            c.ob('complete-model-accepted', rs[0] if rs else fi, not rs, 'a model that is complete, or whose gaps were not asked for, is accepted',
                 f'{W.what} is refused')

    check = (('m.validate()', va),)
    pre = (('m.preval("g")', model_fn(c, 'preval')),)
    du = ['m.decision_units = du']
    one = ['m = ChoiceModel()']
    refused(one + du, 'no choices', runs + check)
    refused(one + du + ['m.add_choice("a")'], 'a single choice', runs + check)
    refused(one + du + ['a = m.add_choice("a")', 'a.add_choice("x")', 'a.add_choice("y")'], 'a single choice at the top', runs + check)
    refused(one + du + ['a = m.add_choice("a")', 'b = m.add_choice("b")', 'a.add_choice("x")'], 'a nest with a single child', runs + check)
    refused(one + du + ['a = m.add_choice("a")', 'b = m.add_choice("b")', 'x = b.add_choice("x")', 'b.add_choice("y")', 'x.add_choice("p")'],
            'a nest with a single child at the second level', runs + check)
    refused(one + du + ['b = m.add_choice("b")', 'a = m.add_choice("a")', 'x = a.add_choice("x")', 'a.add_choice("y")', 'p = x.add_choice("p")',
                        'x.add_choice("q")', 'p.add_choice("k")'], 'a nest with a single child at the third level', runs + check)
    refused(one + ['m.add_choice("a")', 'm.add_choice("b")'], 'no decision units', runs + check)
    refused(READY + DECLARE + ['m.expressions.append("nothing", group="g")', 'm.expressions.append("n")'], 'a number that was not assigned', runs + check)
    for sym, e in (('n', 'n'), ('v', 'v'), ('w', 'w'), ('t', 't.c')):
        k = [i for i, x in enumerate(ASSIGN) if not x.startswith(f'm["{sym}"]')]
        rest = [ASSIGN[i] for i in k]
        refused(READY + DECLARE + rest, f'a symbol ({sym}) that was not assigned', runs + check, [f'm.expressions.append("{e}")'])
        refused(READY + DECLARE + rest, f'a symbol ({sym}) of a group that was not assigned', runs + check, [f'm.expressions.append("{e}", group="g")'])
        refused(READY + DECLARE + rest, f'a symbol ({sym}) of the group that was not assigned', pre, [f'm.expressions.append("{e}", group="g")'])
        refused(READY + DECLARE + rest, f'a symbol ({sym}) of the group that was not assigned', (('m.run_stochastic(group="g")', runs[0][1]),),
                [f'm.expressions.append("{e}", group="g")'])
        refused(READY + [x for x in DECLARE if f'("{sym}"' not in x] + rest, f'a symbol ({sym}) that was not declared', runs + check,
                [f'm.expressions.append("{e}")'])
        refused(READY + [x for x in DECLARE if f'("{sym}"' not in x] + rest, f'a symbol ({sym}) of the group that was not declared',
                pre + (('m.run_stochastic(group="g")', runs[0][1]), ('m.validate(group="g")', va)), [f'm.expressions.append("{e}", group="g")'])
        refused(READY + [x for x in DECLARE if f'("{sym}"' not in x] + rest, f'a symbol ({sym}) that was not declared', (('m.validate(assignment=False)', va),),
                [f'm.expressions.append("{e}")'])
    full = READY + DECLARE + ['m["n"].assign(5)']
    refused(full, 'a symbol of the last of several expressions that was not assigned', runs + check,
            ['m.expressions.append("n")', 'm.expressions.append("nothing")', 'm.expressions.append("n_v")'])
    refused(full, 'a symbol of the last of several groups that was not assigned', runs + check,
            ['m.expressions.append("n")', 'm.expressions.append("n", group="h")', 'm.expressions.append("n_v", group="g")'])
    refused(full, 'a symbol of a table in the last group that was not assigned', runs + check,
            ['m.expressions.append("n")', 'm.expressions.append("n", group="h")', 'm.expressions.append("t.c", group="g")'])
    refused(full, 'an unassigned symbol in the first expression of a group', pre + (('m.run_stochastic(group="g")', runs[0][1]),),
            ['m.expressions.append("v", group="g")', 'm.expressions.append("n", group="g")', 'm.expressions.append("n", group="h")'])
    two = full + ['m.declare_table("s", 0)', 'm["t"].assign(df1)']
    for g in ('', ', group="g"', ', group=""', ', group=0'):
        where = 'ungrouped expressions' if not g else 'the group ' + g[8:]
        calls = runs + check if not g else runs[:1] + (('m.run_stochastic(' + g[2:] + ')', runs[0][1]), ('m.validate(' + g[2:] + ')', va))
        for xs in (('t.c_s.c',), ('s.c_t.c',), ('t.c', 's.c'), ('t.c', 'n', 's.c', 't.c'), ('n', 'v'), ('n', 'n_v'), ('t.c', 'v')):
            refused(two, f'an unassigned symbol in {", ".join(xs)} of {where}', calls, [f'm.expressions.append("{x}"{g})' for x in xs])
            accepted(two + ['m["s"].assign(df2)', 'm["v"].assign(arr1)'], f'{", ".join(xs)} in {where}', calls[-1:], [f'm.expressions.append("{x}"{g})' for x in xs])
    refused(full, 'a symbol emptied by new decision units', runs + check, ['m["v"].assign(arr1)', 'm.decision_units = du2', 'm.expressions.append("v")'])
    refused(full, 'a symbol emptied by a new choice', runs + check, ['m["w"].assign(arr2)', 'm.add_choice("c")', 'm.expressions.append("w")'])
    for sym, e in (('n', 'n'), ('v', 'v'), ('w', 'w'), ('t', 't.c')):
        rest = [x for x in ASSIGN if not x.startswith(f'm["{sym}"]')]
        for cp in ('m.copy()', 'm.copy(data=True)', 'm.copy().copy()', 'm.copy_subset(mask)'):
            for g in ('', ', group="g"'):
                refused(READY + DECLARE + rest + ['m.expressions.append("nothing", group="g")', f'm.expressions.append("{e}"{g})', f'm = {cp}', 'm.decision_units = du'],
                        f'a symbol ({sym}) {"of a group " if g else ""}that was not assigned in {cp}', runs[:1] if cp != 'm.copy()' else runs + check)
        refused(READY + DECLARE + rest + [f'm.expressions.append("{e}")', 'm.expressions = ["nothing", "NAN"]'], f'a symbol ({sym}) of the first of expressions', runs[:1])
    # what is complete, or not asked for
    accepted(READY, 'no expressions', runs + check)
    accepted(full, 'all symbols that are used', runs + check, ['m.expressions.append("n")', 'm.expressions.append("NAN")'])
    accepted(full, 'all symbols of the group', pre + (('m.run_stochastic(group="g")', runs[0][1]), ('m.validate(group="g")', va)),
             ['m.expressions.append("n", group="g")', 'm.expressions.append("v", group="h")', 'm.expressions.append("t.c")'])
    accepted(one, 'nothing', (('m.validate(tree=False, decision_units=False, expressions=False, assignment=False)', va),))
    accepted(one + ['m.add_choice("a")', 'm.add_choice("b")'], 'choices only', (('m.validate(decision_units=False, expressions=False, assignment=False)', va),))
    accepted(READY + DECLARE, 'declared symbols', (('m.validate(assignment=False)', va),), ['m.expressions.append("n_v")'])
    accepted(one + du + ['a = m.add_choice("a")'], 'one choice', (('m.validate(tree=False)', va),))
    accepted(one + ['m.add_choice("a")', 'm.add_choice("b")'], 'no decision units', (('m.validate(decision_units=False)', va),))


# ---------------------------------------------------------------------------------------------- utilities
class X:
    """An expression of a witness: its text as the user writes it and what the parser makes of it."""

    def __init__(self, text, names=(), lookups=(), literals=None, at=None, made=None):
        self.text, self.names, self.lookups, self.literals, self.at = text, names, lookups, literals or {}, at
        self.made = (made or text.split('@')[0].strip())

    @property
    def links(self):
        out = {}
        for s, link, col in self.lookups:
            out.setdefault(link, []).append((s, (col,), None, None))
        return out


class Texts(Parsed):
    """The parser of witnesses whose expressions are evaluated."""

    def __init__(self, c, xs):
        super().__init__(c, {x.text: (x.names, x.links) for x in xs})
        self.xs = {x.text: x for x in xs}

    def __call__(self, it, args, kw):
        o = super().__call__(it, args, kw)
        if o is None:
            return None
        x, h = self.xs[cval(args[0] if args else kw['e'])], it.s.heap
        h[(o, 'transformed')] = const(x.made + '\n')
        h[(o, 'filter_')] = const(x.at) if x.at else NONE
        lits_ = [(const(s), t('alloc', t('dictlit', *[(term(k), const(v)) for k, v in d.items()]), ('parsed', x.text, s))) for s, d in x.literals.items()]
        h[(o, 'dict_literals')] = t('alloc', t('dictlit', *lits_), ('parsed', x.text, 3))
        return o


def as_vector(it, args, kw):
    s = args[0] if args else kw.get('s')
    return it.alloc(t('mcall', 'to_numpy', s, (), (('dtype', CONVERTED),)), None) if s is not None else None


EVALUATE = 'numexpr.evaluate'


def run_names(n):
    """Declarations and data of the symbols that expressions of witnesses use, with n choices."""
    return ['m.declare_number("n")', 'm.declare_number("k")', 'm.declare_vector("v", 0)', 'm.declare_vector("w", 1)', 'm.declare_table("t", 0)',
            'm.declare_table("u", 1)', 'm.declare_matrix("x")', 'm["n"].assign(5)', 'm["k"].assign(7)', 'm["v"].assign(arr1)', 'm["w"].assign(arr2)',
            'm["t"].assign(df1)', 'm["u"].assign(df3)', 'm["x"].assign(pd.DataFrame(arr3, index=du, columns=m.choices))']


def shapes_for(n):
    return {'arr1': (NROWS,), 'arr2': (n,), 'df1': (NROWS, 3), 'arr3': (NROWS, n), 'df2': (NROWS, n), 'df3': (n, 3)}


class Part:
    """A whole array, or some of its columns: root, columns (None: all), number of dimensions."""

    def __init__(self, root, cols, ndim):
        self.root, self.cols, self.ndim = root, cols, ndim


def part_of(W, v):
    it = W.it
    o = strip_st(v)
    i = strip_alloc(o)
    n = it.shape_of(v)
    if i.op == 'sub' and is_const(i.args[1], Ellipsis):
        p = part_of(W, i.args[0])
        return Part(p.root, p.cols, len(n) if n is not None else p.ndim) if p is not None else None
    if i.op == 'sub' and i.args[1].op == 'tup':
        ks = list(i.args[1].args)
        p = part_of(W, i.args[0])
        base = it.shape_of(i.args[0])
        if p is None or base is None or n is None:
            return None
        if len(base) == 1 and all(Reader.whole(None, k) or is_const(k, None) or k is glob('numpy.newaxis') for k in ks):
            return Part(p.root, p.cols, len(n))
        if len(base) == 2 and len(ks) == 2 and Reader.whole(None, ks[0]):
            k = ks[1]
            have = p.cols if p.cols is not None else list(range(base[1]))
            if is_const(k) and isinstance(cval(k), int):
                return Part(p.root, [have[cval(k)]], 1) if -len(have) <= cval(k) < len(have) else None
            if k.op == 'slice' and all(is_const(a) for a in k.args):
                return Part(p.root, have[slice(*[cval(a) for a in k.args])], 2)
        return None
    if i.op == 'mcall' and i.args[0] in ('ravel', 'flatten', 'squeeze', 'reshape', 'view'):
        p = part_of(W, i.args[1])
        base = it.shape_of(i.args[1])
        if p is None or base is None:
            return None
        if i.args[0] in ('ravel', 'flatten', 'squeeze'):
            return Part(p.root, p.cols if p.cols is not None else [0], 1) if len(base) == 1 or 1 in base else None
        if i.args[0] == 'reshape':
            return Part(p.root, p.cols if p.cols is not None or len(n or ()) == 2 else [0], len(n)) if n is not None and (1 in base or len(base) == 1) else None
        return p
    if n is None:
        return None
    return Part(o, None, len(n))


def is_eval(x):
    return x.op == 'call' and x.args[0] is glob(EVALUATE)


def reached(v, out=None, seen=None):
    """The evaluations whose results are in this value, in the order of their nesting."""
    out, seen = ([], set()) if out is None else (out, seen)
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if is_eval(x):
            out.append(x)
        todo += x.args
    return out


class Summed:
    """What an evaluation adds: column and text, with the names it uses."""

    def __init__(self, W, x):
        self.W, self.x = W, x
        a, kw = x.args[1], dict(x.args[2])
        self.text = a[0] if a else kw.get('ex')
        self.names = kw.get('local_dict', a[1] if len(a) > 1 else None)
        self.out = kw.get('out', a[3] if len(a) > 3 else None)
        self.casting = kw.get('casting', a[5] if len(a) > 5 else const('safe'))
        self.order = kw.get('order')

    def read(self):
        """(text of the expression, or None; reason)"""
        if self.text is None or not is_const(strip_alloc(strip_st(self.text))):
            return None, 'a text that is not followed'
        try:
            tree = ast.parse(cval(strip_alloc(strip_st(self.text))).strip(), mode='eval').body
        except SyntaxError:
            return None, None
        if self.out is None:
            return None, 'results that are not written to an array'
        if not (isinstance(tree, ast.BinOp) and isinstance(tree.op, ast.Add)):
            return None, None
        why = None
        for a, b in ((tree.left, tree.right), (tree.right, tree.left)):
            if isinstance(a, ast.Name) and not any(isinstance(n, ast.Name) and n.id == a.id for n in ast.walk(b)):
                g = self.value(a.id)
                if g is None:
                    if self.names is not None and self.pairs() is None:
                        why = f'the names are {show(self.names, 3)}'
                    continue
                x, y = part_of(self.W, g), part_of(self.W, self.out)
                if strip_alloc(strip_st(g)).op == 'phi':
                    why = f'{a.id} is {show(g, 3)}'
                if strip_st(g) is strip_st(self.out) or x is not None and y is not None and (x.root, x.cols, x.ndim) == (y.root, y.cols, y.ndim):
                    return ast.dump(b), None
        return None, why

    def pairs(self):
        d = self.names
        if d is None:
            return None
        c = d.args[1] if d.op == 'st' else strip_alloc(d)
        return {cval(k): v for k, v in c.args if is_const(k)} if c.op == 'dictlit' else None

    def value(self, name):
        ps = self.pairs()
        return ps.get(name) if ps is not None else None


def literal_row(tr, d):
    """The values that a dict literal has for each choice."""
    out = [0] * len(tr.order)
    for k, v in d.items():
        part, kids = (k[:k.index('_')], True) if '_' in k else (k, False)
        path = '.'.join(part)
        for i, s in enumerate(tr.order):
            if s.startswith(path + '.') if kids else s == path:
                out[i] = v
    return out


def check_sum(c, W, fi, what, tr, util, want):
    """Obligations on the utilities that a worker gets: the sum of exactly these expressions."""
    n = len(tr.order)
    got = [Summed(W, x) for x in reached(util)]
    left = list(want)
    for s in got:
        text, why = s.read()
        if text is None:
            if why:
                c.skip('utilities-are-the-sum', fi, f'{what}: {why}')
                return
            c.ob('utilities-are-the-sum', fi, False, '', f'{what}: {show(s.text, 4)} is evaluated, which is not the utilities plus an expression')
            return
        p = part_of(W, s.out)
        if p is None:
            c.skip('utilities-are-the-sum', fi, f'{what}: results are written to {show(s.out, 4)}')
            return
        col = p.cols
        match = [x for x in left if ast.dump(ast.parse(x.made.strip(), mode='eval').body) == text]
        here = [x for x in match if col is None and x.at is None or x.at is not None and col == [tr.order.index(x.at)]]
        if not match:
            c.ob('utilities-are-the-sum', fi, False, '', f'{what}: {show(s.text, 4)} is added, which is not an expression to be evaluated, or once too often')
            return
        if not here:
            c.ob('utilities-are-the-sum', fi, False, '', f'{what}: {match[0].text} is added to ' +
                 ('all choices' if col is None else 'the column ' + ', '.join(map(str, col))))
            return
        x = here[0]
        left.remove(x)
        c.ob('same-kind', fi, is_const(s.casting, 'same_kind') or is_const(s.casting, 'unsafe') or not is_const(s.casting), 'expressions of any kind of number can be added',
             f'{what}: results are cast by the rule {show(s.casting, 3)}')
        check_names(c, W, fi, f'{what}, {x.text}', tr, s, x, p)
    c.ob('utilities-are-the-sum', fi, not left, 'the utilities are the sum of the expressions',
         f'{what}: not added: ' + ', '.join(x.text for x in left))


def check_names(c, W, fi, what, tr, s, x, out):
    n = len(tr.order)
    k = None if x.at is None else tr.order.index(x.at)
    want = {}
    for y in x.names:
        want[y] = {'n': ('number', 5.0), 'k': ('number', 7.0), 'v': ('rows', t('param', 'arr1')), 'w': ('row', t('param', 'arr2')),
                   'x': ('cells', t('param', 'arr3')), 'NAN': ('special', glob('numpy.nan')), 'NEG_INF': ('special', t('neg', glob('numpy.inf')))}[y]
    for y, link, col in x.lookups:
        want[y] = ('rows' if link == 't' else 'row', t('sub', t('param', 'df1' if link == 't' else 'df3'), const(col)))
    for y, d in x.literals.items():
        want[y] = ('literal', literal_row(tr, d))
    if s.pairs() is None:
        c.skip('names-are-data', fi, f'{what}: the names are {show(s.names, 3) if s.names is not None else "those of the caller"}')
        return
    for y, (kind, w) in want.items():
        v = s.value(y)
        if v is None:
            c.ob('names-are-data', fi, False, '', f'{what}: {y} has no value')
            continue
        o = strip_alloc(strip_st(v))
        bad = f'{what}: {y} is {show(v, 5)}'
        if kind in ('number', 'special'):
            if kind == 'number':
                c.ob('names-are-data', fi, is_const(o) and cval(o) == w, 'names are the data of their symbols', bad)
            else:
                c.ob('names-are-data', fi, o is w or is_const(o) and str(cval(o)) in ('nan', '-inf'), 'names are the data of their symbols', bad)
            continue
        p = part_of(W, v)
        shape = W.it.shape_of(v)
        if p is None or shape is None:
            c.skip('names-are-data', fi, bad)
            continue
        if kind == 'literal':
            g = W.it.grid(p.root)
            ys = g[0] if g is not None and len(g) == 1 else W.it.array(p.root)
            if ys is None or not all(is_const(z) for z in ys):
                c.skip('names-are-data', fi, bad)
                continue
            ys = [cval(z) for z in ys]
            if p.cols is not None:
                ys = [ys[j] for j in p.cols]
            wv = w if k is None else [w[k]]
            c.ob('literal-by-choice', fi, [float(z) for z in ys] == [float(z) for z in wv], 'a dict literal has its values at the choices named',
                 f'{what}: {y} is {ys} where it has to be {wv}')
            if k is None:
                c.ob('names-are-data', fi, shape == (1, n) or shape == (n,), 'data is laid out along its side', f'{bad} with the shape {shape}')
            continue
        r = p.root
        i = strip_alloc(r)
        if i.op == 'mcall' and i.args[0] == 'to_numpy' and dict(i.args[3]).get('dtype') is CONVERTED:
            r = i.args[1]
        r = plain_root(r)
        c.ob('names-are-data', fi, r is w, 'names are the data of their symbols', bad)
        if k is None:
            wide = {'rows': (NROWS, 1), 'row': (1, n), 'cells': (NROWS, n)}[kind]
            c.ob('names-are-data', fi, shape == wide or kind == 'row' and shape == (n,), 'data is laid out along its side', f'{bad} with the shape {shape}')
            continue
        cols = p.cols if p.cols is not None else list(range(shape[1])) if len(shape) == 2 else [0]
        c.ob('names-of-column', fi, cols == ([0] if kind == 'rows' else [k]), 'an expression for one choice uses the data of that choice',
             f'{what}: the column {", ".join(map(str, cols))} of {y} is used for the column {k}')
        flat = len(shape) == out.ndim or shape[0] == 1
        c.ob('names-of-column', fi, flat, 'the data of one choice is laid out like the result', f'{bad} with the shape {shape}')


def plain_root(r):
    """The parameter, or column of a parameter, that data comes from."""
    while True:
        i = strip_alloc(strip_st(r))
        if i.op == 'sub' and is_const(i.args[1], Ellipsis):
            r = i.args[0]
        elif i.op == 'attr' and i.args[1] == 'values' or i.op == 'mcall' and i.args[0] in ('to_numpy', 'view', 'copy'):
            r = i.args[0 if i.op == 'attr' else 1]
        elif i.op == 'call' and i.args[0] is glob('pandas.DataFrame') and i.args[1]:
            r = i.args[1][0]
        elif i.op == 'sub' and strip_alloc(strip_st(i.args[0])).op == 'attr' and strip_alloc(strip_st(i.args[0])).args[1] == 'loc' and \
                i.args[1].op == 'tup' and Reader.whole(None, i.args[1].args[0]):
            return t('sub', plain_root(strip_alloc(strip_st(i.args[0])).args[0]), i.args[1].args[1])
        elif i.op == 'sub':
            return t('sub', plain_root(i.args[0]), i.args[1])
        else:
            return i


def start_of(W, util):
    """What the utilities start from: 'zeros', or None."""
    x, depth = util, 0
    while depth < 30:
        depth += 1
        i = strip_alloc(strip_st(x))
        if i.op == 'mcall' and i.args[0] in ('copy', 'to_numpy', 'astype', 'view'):
            x = i.args[1]
        elif i.op == 'attr' and i.args[1] == 'values' or i.op == 'sub' and is_const(i.args[1], Ellipsis):
            x = i.args[0]
        elif i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0] in ('pandas.DataFrame', 'numpy.array', 'numpy.asarray', 'numpy.copy') and i.args[1]:
            x = i.args[1][0]
        elif i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0] in ('numpy.zeros', 'numpy.full', 'numpy.ones', 'numpy.empty'):
            q = i.args[0].args[0]
            stores = [e for e in W.r.events if e.kind == 'setsub' and strip_st(e.obj) is strip_st(x)]
            if stores:
                # filled afterwards
                whole = [e for e in stores if all(is_const(k, Ellipsis) or k.op == 'slice' and all(is_const(a, None) for a in k.args)
                                                  for k in (e.key.args if e.key.op == 'tup' else (e.key,)))]
                if not whole or stores[-1] is not whole[-1] or lits(whole[-1].facts()):
                    return None
                x = whole[-1].value
                continue
            if q == 'numpy.empty' and any(e.kind == 'mutate' and strip_st(e.obj) is strip_st(x) for e in W.r.events):
                return None
            if q == 'numpy.zeros' or q == 'numpy.full' and len(i.args[1]) > 1 and is_const(i.args[1][1]) and cval(i.args[1][1]) == 0:
                return W.it.shape_of(x)
            return ()
        else:
            return None
    return None


def added(xs, group=None, m='m'):
    return [f'{m}.expressions.append({x.text!r}' + (f', group={group!r})' if group is not None else ')') for x in xs]


class Runs:
    """Witnesses that build a model, do some steps, run it, and whose utilities are checked."""

    def __init__(self, c, prefix, rule='utilities-are-the-sum'):
        self.c, self.prefix, self.n, self.rule = c, prefix, 0, rule

    def program(self, body, what, xs, k=3, **kw):
        self.n += 1
        return MW(self.c, f'{self.prefix}_{self.n}', body, what, calls={'parse': Texts(self.c, xs), 'convert_series': as_vector}, shapes=shapes_for(k), **kw)

    def __call__(self, tr, steps, what, call='m.run_stochastic(scale_utilities=True)', xs=(), fi=None, want=None, before=(), build=None, end=None,
                 names=True, **kw):
        """tr: the tree at the end, build: the tree in the beginning."""
        c = self.c
        fi = fi if fi is not None else model_fn(c, 'run_stochastic')
        k = kw.pop('shapes_k', len((build or tr).order))
        body = (build or tr).body() + ['m.decision_units = du'] + (run_names(k) if names else []) + list(before) + list(steps) + \
            [f'r = {call}', f'return {end}' if end else 'return 1']
        W = self.program(body, what, xs, k, **kw)
        if W.refused():
            refuse(c, self.rule, W, fi)
            return W
        ks = [x for x in W.seen if x[0] != 'add']
        if not ks:
            c.skip(self.rule, fi, f'{what}: no worker is called')
            return W
        util = ks[-1][3]
        check_sum(c, W, fi, what, tr, util, list(xs) if want is None else want)
        z = start_of(W, util)
        if z is None:
            c.skip('starts-from-zero', fi, f'{what}: the utilities start from {show(util, 4)}')
        else:
            c.ob('starts-from-zero', fi, z == (NROWS, len(tr.order)), 'the utilities of each unit and choice start from zero',
                 f'{what}: the utilities start from an array of the shape {z}' if z else f'{what}: the utilities start from something else than zero')
        return W


A, B = X('n + v', ('n', 'v')), X('w < 1', ('w',))
C, D = X('t.c * 2', (), [('t_c', 't', 'c')], made='t_c * 2'), X('x or k', ('x', 'k'), made='x | k')
E, N = X('u.d - t.c', (), [('u_d', 'u', 'd'), ('t_c2', 't', 'c')], made='u_d - t_c2'), X('n * NAN', ('n', 'NAN'))
TWO_GROUPS = ['g = ExpressionGroup()', f'g.append({A.text!r})', f'g.append({B.text!r}, group="g")', 'h = ExpressionGroup()', f'h.append({C.text!r})',
              f'h.append({D.text!r}, group="g")', f'h.append({E.text!r}, group="h")', 'q = g + h']
KEYS = TWO_GROUPS[:-1] + ['g.append("n + v", group="k")']


def texts(c, run, body, what, xs, want, method):
    """Obligations on the expressions that containers hold."""
    W = run.program(['m = ChoiceModel()'] + body, what, xs)
    fi = c.p.fn('cheval.api.ExpressionGroup.' + method)
    if W.refused() or len(W.parts) != len(want):
        refuse(c, 'containers-keep', W, fi)
        return
    for v, w in zip(W.parts, want):
        ys = W.it.elems(v)
        if ys is None or not all(is_const(strip_alloc(strip_st(y))) for y in ys):
            c.skip('containers-keep', fi, f'{what}: {show(v, 4)}')
            continue
        got = sorted(cval(strip_alloc(strip_st(y))) for y in ys)
        c.ob('containers-keep', fi, got == sorted(x.text for x in w), 'containers keep every expression, once, in its group',
             f'{what}: they are {", ".join(got)} where they have to be {", ".join(sorted(x.text for x in w))}')


def p14(c):
    sto, dis = (model_fn(c, x) for x in ('run_stochastic', 'run_discrete'))
    run, add = Runs(c, 'p14'), added
    flat, pair, nest, deep = (TREES[x] for x in ('flat', 'pair', 'nest', 'deep'))
    calls = (('m.run_stochastic()', sto), ('m.run_discrete(random_seed=seed)', dis))
    for call, fi in calls:
        nm = call.split('(')[0][2:]
        for tn, tr in (('flat', flat), ('nest', nest)):
            run(tr, add([A, B, C, D, E]), f'{nm} with a {tn} tree', call, [A, B, C, D, E], fi)
        run(flat, [], f'{nm} without expressions', call, [], fi)
        run(flat, add([A, A, B]), f'{nm} with an expression twice', call, [A, A, B], fi)
        run(flat, add([A]) + add([B, C], 'g') + add([D], 'h') + add([E]), f'{nm} with groups', call, [A, B, C, D, E], fi)
        run(flat, add([N]), f'{nm} with NAN', call, [N], fi)
        # filters, at every place of the tree
        for tn, tr in (('flat', flat), ('nest', nest), ('deep', deep)):
            for at in tr.order:
                if call != calls[0][0] and at != tr.order[-1]:
                    continue
                xs = [X(f'n + v * w @ {at}', ('n', 'v', 'w'), at=at), X(f'x + k @ {at}', ('x', 'k'), at=at),
                      X(f't.c - u.d @ {at}', (), [('t_c', 't', 'c'), ('u_d', 'u', 'd')], at=at, made='t_c - u_d')]
                run(tr, add(xs + [A]), f'{nm} with expressions for {at} of a {tn} tree', call, xs + [A], fi)
                if tn == 'nest':
                    run(tr, add([A] + xs[:1]) + add([A, B]), f'{nm} with an expression for {at} between others', call, [A] + xs[:1] + [A, B], fi)
    # groups, repeated runs, containers
    run(flat, add([A]) + add([B, C], 'g') + add([D], 'h'), 'run_stochastic for a group', 'm.run_stochastic(group="g")', [A, B, C, D], want=[B, C])
    run(flat, add([B, C], 'g') + add([D], 'h'), 'run_stochastic for the last group', 'm.run_stochastic(group="h")', [B, C, D], want=[D])
    run(flat, add([A, B]) + ['m.run_stochastic(clear_scope=False)'], 'a second run', 'm.run_stochastic()', [A, B])
    run(flat, add([A, B]) + ['m.run_discrete(clear_scope=False)'], 'a second run', 'm.run_discrete()', [A, B], dis)
    run(flat, add([A], 'g') + ['m.run_stochastic(group="g", clear_scope=False)'] + add([B]), 'a run after one for a group', 'm.run_stochastic()', [A, B])
    run(flat, add([A], 'g') + ['m.run_stochastic(group="g", clear_scope=False)'] + add([B], 'g'), 'a run after more expressions', 'm.run_stochastic(group="g")', [A, B])
    run(flat, add([A, B]) + ['m.preval("g", cleanup_scope=False)'], 'a run after preval()', 'm.run_stochastic()', [C, D, A, B], before=add([C, D], 'g'))
    run(flat, add([A, B]) + ['m.preval("g")'], 'a run after preval()', 'm.run_stochastic()', [C, D, A, B], before=add([C, D], 'g'))
    run(flat, add([A, B]) + ['m.preval("g")'], 'a run after preval()', 'm.run_discrete()', [C, D, A, B], dis, before=add([C, D], 'g'))
    run(flat, ['m.preval("g")', 'm.preval("h")'] + add([A]), 'a run after preval() of two groups', 'm.run_stochastic()', [C, D, E, A],
        before=add([C], 'g') + add([D, E], 'h'))
    run(flat, ['m.preval("g", drop_group=False, cleanup_scope=False)'] + add([A]), 'a run after preval() that keeps the group', 'm.run_stochastic()', [C, D, C, D, A],
        before=add([C, D], 'g'), want=[C, D, C, D, A])
    run(flat, ['m.preval("g")', 'm.run_stochastic(clear_scope=False)'] + add([A]), 'a second run after preval()', 'm.run_stochastic()', [C, D, A], before=add([C, D], 'g'))
    run(flat, add([A, B]) + add([C], 'g') + ['o = m.copy()', 'o.run_stochastic(clear_scope=False)', 'o.expressions.clear()'], 'a run after a run of a copy', xs=[A, B, C])
    run(flat, add([A, B]) + add([C], 'g') + ['o = m.copy()'] + ['m.expressions.clear()'], 'a run of a copy', 'o.run_stochastic()', [A, B, C])
    run(flat, add([A, B]) + add([C], 'g') + add([D], 'h') + ['o = m.copy()'], 'a run of a copy for a group', 'o.run_stochastic(group="g")', [A, B, C, D], want=[C])
    run(flat, ['m.preval("g")', 'o = m.copy()'] + add([A, B]), 'a run of a copy after preval()', 'o.run_stochastic()', [C, D, A, B], before=add([C, D], 'g'), want=[C, D])
    run(flat, ['m.preval("g")', 'o = m.copy(utilities=False)'], 'a run of a copy without utilities', 'o.run_stochastic()', [C, D], before=add([C, D], 'g'), want=[])
    texts(c, run, TWO_GROUPS + ['return [e.raw for e in q], [e.raw for e in q.get_group("g")], [e.raw for e in q.get_group("h")], q.tolist()'],
          'expressions that were added together', [A, B, C, D, E], [[A, C, B, D, E], [B, D], [E], [A, C]], '__add__')
    for q in ('q = g + h', 'q = h + g', 'q = g.copy() + h.copy()', 'q = (g + h).copy()'):
        texts(c, run, KEYS + [q, 'return [e.raw for e in q], [e.raw for e in q.get_group("g")], [e.raw for e in q.get_group("h")], [e.raw for e in q.get_group("k")]'],
              q, [A, B, C, D, E], [[A, B, A, C, D, E], [B, D], [E], [A]], '__add__')
    texts(c, run, TWO_GROUPS + ['p = q.copy()', 'q.clear()', 'q = p'] +
          ['return [e.raw for e in q], [e.raw for e in q.get_group("g")], [e.raw for e in q.get_group("h")], q.tolist()'],
          'a copy of expressions', [A, B, C, D, E], [[A, C, B, D, E], [B, D], [E], [A, C]], 'copy')
    texts(c, run, TWO_GROUPS + ['q.append("n + v")', 'q.append("w < 1", group="g")', 'q.drop_group("h")', 'r = g + h'] +
          ['return [e.raw for e in g], [e.raw for e in h.get_group("g")], [e.raw for e in h.get_group("h")], [e.raw for e in r], [e.raw for e in q]'],
          'expressions after their sum was changed', [A, B, C, D, E], [[A, B], [D], [E], [A, C, B, D, E], [A, C, A, B, D, B]], '__add__')
    run(flat, [f'm.expressions = [{A.text!r}, {B.text!r}]', f'm.expressions = [{C.text!r}]'], 'a run of expressions that were set', xs=[A, B, C])
    run(flat, add([A]) + add([B], 'g') + ['m.expressions.drop_group("g")'] + add([C], 'h'), 'a run after a group is dropped', xs=[A, B, C], want=[A, C])
    run(flat, add([A]) + add([B], 'g') + ['m.expressions.clear()'] + add([C], 'h'), 'a run after the expressions are cleared', xs=[A, B, C], want=[C])
    # dict literals
    L1 = X('{a: 3, c: 4} * v', ('v',), literals={'_d1': {('a',): 3.0, ('c',): 4.0}}, made='_d1 * v')
    L2 = X('{b: 1} + {c: 2}', (), literals={'_d1': {('b',): 1.0}, '_d2': {('c',): 2.0}}, made='_d1 + _d2')
    run(flat, add([L1, L2, A]), 'a run with dict literals', xs=[L1, L2, A])
    L0 = X('{} * n', ('n',), literals={'_d1': {}}, made='_d1 * n')
    run(flat, add([L0, L1]), 'a run with an empty dict literal', xs=[L0, L1])
    M1 = X('{b.x: 3, b: 4} * v', ('v',), literals={'_d1': {('b', 'x'): 3.0, ('b',): 4.0}}, made='_d1 * v')
    M2 = X('{b._: 3, a: 4}', (), literals={'_d1': {('b', '_'): 3.0, ('a',): 4.0}}, made='_d1')
    run(nest, add([M1, M2]), 'a run with dict literals for nests', xs=[M1, M2])
    K1 = X('{a._: 3, a.x.q: 4} * v', ('v',), literals={'_d1': {('a', '_'): 3.0, ('a', 'x', 'q'): 4.0}}, made='_d1 * v')
    K2 = X('{a.x._: 3, a: 4, b: 2}', (), literals={'_d1': {('a', 'x', '_'): 3.0, ('a',): 4.0, ('b',): 2.0}}, made='_d1')
    run(deep, add([K1, K2]), 'a run with dict literals for deep nests', xs=[K1, K2])
    for at in ('a', 'b'):
        F1 = X(f'{{a: 3}} * v @ {at}', ('v',), literals={'_d1': {('a',): 3.0}}, made='_d1 * v', at=at)
        run(flat, add([F1]), f'a dict literal for {at}', xs=[F1])


def named(c, run, body, what, xs, want, method):
    """Obligations on the names that containers report."""
    W = run.program(['m = ChoiceModel()'] + body, what, xs)
    fi = c.p.fn('cheval.api.ExpressionGroup.' + method)
    if W.refused() or len(W.parts) != 2 * len(want):
        refuse(c, 'names-of-expressions', W, fi)
        return
    for i, (v, (kind, w)) in enumerate(zip(W.parts, [(k, x) for x in want for k in ('simple', 'chained')])):
        ys = W.it.elems(v)
        if ys is None or not all(is_const(strip_alloc(strip_st(y))) for y in ys):
            c.skip('names-of-expressions', fi, f'{what}: {show(v, 4)}')
            continue
        got = {cval(strip_alloc(strip_st(y))) for y in ys}
        need = {n for x in w for n in (x.names if kind == 'simple' else x.links)}
        c.ob('names-of-expressions', fi, got == need, 'containers report the names of their expressions',
             f'{what}: the {kind} names are {", ".join(sorted(map(str, got)))} where they have to be {", ".join(sorted(map(str, need)))}')


def both(q, groups=''):
    return f'list({q}.itersimple({groups})), list({q}.iterchained({groups}))'


def p33(c):
    run = Runs(c, 'p33')
    xs = [A, B, C, D, E]
    start = KEYS
    g, h, own = [A, B, A], [C, D, E], 'groups=False'
    for method, more, q, want in (('append', [], 'g', (g, [A], [B])), ('append', [], 'h', (h, [C], [D])),
                                  ('copy', ['q = g.copy()'], 'q', (g, [A], [B])), ('copy', ['q = h.copy()', 'h.clear()'], 'q', (h, [C], [D])),
                                  ('__add__', ['q = g + h'], 'q', (g + h, [A, C], [B, D])), ('__add__', ['q = h + g', 'h.clear()'], 'q', (g + h, [A, C], [B, D])),
                                  ('__add__', ['q = g + h', 'q.append("t.c * 2", group="g")'], 'q', (g + h, [A, C], [B, C, D])),
                                  ('__add__', ['q = g + h', 'q.append("t.c * 2", group="g")'], 'g', (g, [A], [B])),
                                  ('__add__', ['q = g + h', 'q.append("w < 1")', 'q.append("u.d - t.c")'], 'h', (h, [C], [D]))):
        named(c, run, start + more + [f'return {both(q)}, {both(q, own)}, {both(f"{q}.get_group({chr(34)}g{chr(34)})")}'],
              f'{q} of {"; ".join(more) or "two containers"}', xs, want, method)
    named(c, run, start + [f'h.drop_group("h")', f'return {both("h")}, {both("h", own)}'], 'a container after a group is dropped', xs, [[C, D], [C]], 'drop_group')
    named(c, run, start + [f'h.clear()', 'h.append("n + v", group="g")', f'return {both("h")}, {both("h", own)}'], 'a container after it is cleared', xs, [[A], []], 'clear')

    # several expressions in one place, several tables in one expression, groups of any name
    k = ['k = ExpressionGroup()', 'o = ExpressionGroup()'] + [f'k.append({x.text!r}{"" if q is None else f", group={q}"})' for q, x in
                                                             ((None, A), (None, E), ('""', C), ('""', E), (0, B), (0, A), ('"h"', D))] + [f'o.append({C.text!r}, group=0)', f'o.append({E.text!r}, group=0)']
    alone, empty, zero = [A, E], [C, E], [B, A]
    for method, more, q, want in (('append', [], 'k', (alone + empty + zero + [D], alone, empty, zero)), ('copy', ['q = k.copy()'], 'q', (alone + empty + zero + [D], alone, empty, zero)),
                                  ('__add__', ['q = k + o'], 'q', (alone + empty + zero + [C, D, E], alone, empty, zero + [C, E])),
                                  ('__add__', ['q = o + k'], 'q', (alone + empty + zero + [C, D, E], alone, empty, zero + [C, E])),
                                  ('append', ['k.append("w < 1")', 'k.append("t.c * 2", group="h")'], 'k', (alone + empty + zero + [C, D], alone + [B], empty, zero))):
        named(c, run, k + more + [f'return {both(q)}, {both(q, own)}, ' + both(q + '.get_group("")') + ', ' + both(q + '.get_group(0)')],
              f'{q} of {"; ".join(more) or "several groups"}', xs, want, method)


RULES = {'P10': p10, 'P11': p11, 'P13': p13, 'P14': p14, 'P33': p33}
