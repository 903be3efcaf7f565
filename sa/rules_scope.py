"""Rules on the data assigned to a model (P18) and on the validity of trees and settings (P19)."""
import copy as copy_

from .lib import *  # noqa: F401,F403
from .lib import callargs, callname, flat_phi, lits
from .rules_core import CORE
from .rules_model import MODEL, SELF, all_slice, du_field, registry
from .rules_run import cache_field, data_field, scope_field, top_field
from .rules_state import final, init_fields

WHICH = {0: 'decision units', 1: 'choices'}
REORDER = ('.sort_index', '.sort_values', '.dropna', '.unique', '.drop_duplicates', '.sample', '.head', '.tail', 'numpy.sort',
           'numpy.unique', 'numpy.flip', 'numpy.flipud', 'builtins.sorted', 'builtins.reversed', '.nlargest', '.nsmallest',
           '.reset_index', 'numpy.roll', '.iloc')


def bare(x):
    x = strip_st(x)
    return strip_alloc(x) if x.op == 'alloc' else x


# ---------------------------------------------------------------------------------------------- indices
def model_side(c, x):
    """0: the decision units of the model; 1: its choices; None: neither."""
    x = bare(x)
    if callname(x) in ('pandas.Index', '.copy'):
        x = strip_st(callargs(x)[0] if x.op == 'call' else x.args[1])
    if x.op == 'attr' and x.args[1] in ('decision_units', du_field(c)):
        return 0
    if x.op == 'attr' and x.args[1] in ('choices', 'elemental_choices'):
        return 1 if x.args[1] == 'choices' else 2
    return None


def data_axis(x, data):
    """Which axis of the data as it was handed over an index belongs to: 0, 1 or None."""
    x = bare(x)
    if callname(x) == 'pandas.Index' and callargs(x):
        return data_axis(callargs(x)[0], data)
    if x.op == 'attr' and x.args[1] in ('index', 'columns'):
        t_ = turned(x.args[0], data)
        if t_ is None:
            return None
        return (0 if x.args[1] == 'index' else 1) ^ t_
    if x.op == 'sub' and x.args[0].op == 'attr' and x.args[0].args[1] == 'axes' and cval(x.args[1]) in (0, 1):
        t_ = turned(x.args[0].args[0], data)
        return None if t_ is None else cval(x.args[1]) ^ t_
    return None


def turned(x, data):
    """0: the data as handed over; 1: the transposed data; None: something else."""
    x = bare(x)
    if x is data:
        return 0
    if callname(x) in ('.transpose',):
        i = turned(x.args[1], data)
        return None if i is None else i ^ 1
    if x.op == 'attr' and x.args[1] == 'T':
        i = turned(x.args[0], data)
        return None if i is None else i ^ 1
    if callname(x) in ('.copy', '.astype'):
        return turned(x.args[1], data)
    return None


def index_pair(l):
    """The two things a condition compares for equality of all labels in order, or None."""
    if callname(l) in ('.equals', '.identical') and l.op == 'mcall' and callargs(l):
        return l.args[1], callargs(l)[0]
    if l.op == 'cmp' and l.args[0] == 'is':
        return l.args[1], l.args[2]
    if callname(l) in ('numpy.array_equal',) and len(callargs(l)) == 2:
        return tuple(callargs(l))
    if callname(l) in ('.all', 'numpy.all', 'builtins.all'):
        x = strip_st(l.args[1] if l.op == 'mcall' else callargs(l)[0])
        if x.op == 'cmp' and x.args[0] == '==':
            return x.args[1], x.args[2]
    return None


def equal_atoms(c, xs, data):
    """{condition: (side of the model, axis of the data, whether it is only identity)} over all conditions in terms."""
    out = {}
    for x in xs:
        for y in walk(x, True):
            pr = index_pair(y)
            if pr is None or y in out:
                continue
            a, b = pr
            s, ax = model_side(c, a), data_axis(b, data)
            if s is None and ax is None:
                s, ax = model_side(c, b), data_axis(a, data)
            if s is not None and ax is not None:
                out[y] = (s, ax, y.op == 'cmp')
    return out


def terms_of(r):
    for e in r.events:
        for x in (e.value, e.obj, e.key):
            if isinstance(x, T):
                yield x
        for x in e.args or ():
            if isinstance(x, T):
                yield x
        for g in e.guards:
            yield g[0]


class View:
    """The events of a run as they are under further facts: merged values resolved, unreachable events left out."""

    def __init__(self, r, facts):
        self.r, self.fi, self.params = r, r.fi, r.params
        self.base = tuple(facts)
        self.memo = {}
        self.events = []
        for e in r.events:
            n = copy_.copy(e)
            n.guards = tuple((self.s(g), p, k) for g, p, k in e.guards) + tuple((g, p, 'assume') for g, p in self.base)
            for a in ('obj', 'key', 'value', 'func'):
                if isinstance(getattr(e, a), T):
                    setattr(n, a, self.s(getattr(e, a)))
            n.args = tuple(self.s(x) if isinstance(x, T) else x for x in e.args) if e.args else e.args
            n.kwargs = tuple((k, self.s(x) if isinstance(x, T) else x) for k, x in e.kwargs) if e.kwargs else e.kwargs
            if not any(v is not None and v is not p for g, p, _ in n.guards for v in [self.truth(g)]) and reachable(n, self.base):
                self.events.append(n)

    def s(self, x):
        y = spec(x, self.base, self.memo)
        return y if y is x else spec(y, self.base, self.memo)

    def truth(self, x):
        d = decide(x, self.base)
        return d if d is not None else truth(x)


def reachable(e, facts):
    for l, p in lits(e.facts()):
        v = truth_(l, facts)
        if v is not None and v is not p:
            return False
    return True


def truth_(x, facts):
    y = spec(x, facts)
    v = truth(y)
    return v if v is not None else decide(y, facts)


def rooted(x, a):
    return root(strip_st(x)) == [a]


def own_orientation(fields):
    return next((F for F in fields if 'orientation' in F), None)


def side_facts(me, F, o):
    a = t('attr', me, F)
    return [(cmp('Eq', a, const(0)), o == 0), (cmp('Eq', a, const(1)), o == 1), (a, bool(o))]


def stores(r, me, D):
    return [e for e in r.events if e.kind == 'setattr' and strip_st(e.obj) is me and e.key == D and not is_const(e.value, None)]


def size_pair(c, y, data):
    """(side, axis) if a condition compares nothing but the number of labels of the model and of the data."""
    if y.op != 'cmp' or y.args[0] != '==':
        return None

    def side(z):
        z = strip_st(z)
        if z.op == 'len' or z.op == 'attr' and z.args[1] in ('size', 'shape'):
            return model_side(c, z.args[0])
        return side(z.args[0]) if z.op == 'sub' and is_const(z.args[1], 0) else None

    def axis(z):
        z = strip_st(z)
        if z.op == 'len' or z.op == 'attr' and z.args[1] == 'size':
            return turned(z.args[0], data) if turned(z.args[0], data) is not None else data_axis(z.args[0], data)
        if z.op == 'sub' and z.args[0].op == 'attr' and z.args[0].args[1] == 'shape' and cval(z.args[1]) in (0, 1):
            i = turned(z.args[0].args[0], data)
            return None if i is None else i ^ cval(z.args[1])
        return None
    for a, b in ((y.args[1], y.args[2]), (y.args[2], y.args[1])):
        if side(a) in (0, 1) and axis(b) is not None:
            return side(a), axis(b)
    return None


def labels_compared(c, fi, rule, what, xs, atoms, data):
    """Whether both sides are compared by label, with the verdict if they surely are not."""
    ok = True
    for s in (0, 1):
        if any(v[0] == s for v in atoms.values()):
            continue
        ok = False
        weak = [y for x in xs for y in walk(x, True) if (size_pair(c, y, data) or (None,))[0] == s]
        if weak:
            c.ob(rule, fi, False, f'{what}: the {WHICH[s]} are compared by label', f'{what}: the {WHICH[s]} are only compared by number')
        else:
            c.skip(rule, fi, f'the {WHICH[s]} are compared in another way')
    return ok


def show_index(s):
    return {0: 'decision units', 1: 'choices', 2: 'elemental choices'}.get(s, '?')


OPAQUE18 = ('choices', 'decision_units', 'convert_series', 'to_numpy', 'elemental_choices')


# ---------------------------------------------------------------------------------------------- P18
def p18(c):
    number_rule(c)
    vector_rule(c)
    table_rule(c)
    table_lookup(c)
    from .rules_names import pairing
    pairing(c, 'lookup-path', ('cheval.api.TableSymbol._get',))
    matrix_rule(c)
    partial_rule(c)
    indexed_add(c)
    conversion_rule(c)


def conversion_rule(c):
    """Values are converted for expressions one by one, in order, and text is never cut."""
    for q in ('cheval.utils.convert_series', 'cheval.utils.to_numpy'):
        fi = c.p.fn(q)
        r = c.run(fi, noinline=('to_numpy',) if q.endswith('series') else ())
        s = r.params[fi.node.args.args[0].arg]
        for e in r.events:
            if e.kind != 'return' or e.value is None:
                continue
            for fs, x in flat_phi(e.value, tuple(e.facts())):
                if infeasible(fs):
                    continue
                ok, why = kept_value(x, s, WHOLE)
                if ok is None:
                    c.skip('converted-whole', e, why)
                else:
                    c.ob('converted-whole', e, ok, 'every value is converted, in order', f'{fi.name} returns {show(x, 5)}')
                for y in walk(x, True):
                    if callname(y) not in ('.astype', '.to_numpy', 'numpy.asarray', 'numpy.array'):
                        continue
                    a = callargs(y)
                    d = tkw(y, 'dtype') or (a[0] if callname(y) == '.astype' and a else None)
                    for fd, k in flat_phi(d, fs) if d is not None else ():
                        if infeasible(fd):
                            continue
                        v = cval(k) if k.op == 'const' else None
                        if k.op == 'const' and isinstance(v, str) and v[:1] in 'SU|<a' and any(z.isdigit() for z in v):
                            c.ob('text-whole', e, False, 'text is never cut', f'text is cut to {v}')
                        elif k.op == 'const' and isinstance(v, str) and v in ('S', 'U', 'str', 'bytes'):
                            c.ob('text-whole', e, True, 'text is never cut')
                        elif k.op == 'const' and isinstance(v, str):
                            c.ob('converted-exact', e, v in ('float', 'f8', 'float64', 'd', 'object', 'O'), 'numbers keep their precision',
                                 f'numbers are converted to {v}')
                        elif k.op in ('fstr', 'fmt', 'bin', 'call', 'mcall') and has_len(k):
                            big = any((callname(z) or '').split('.')[-1] in ('max', 'nanmax', 'amax') for z in walk(k, True))
                            less = any(z.op == 'bin' and z.args[0] in ('-', '//', '/') for z in walk(k, True))
                            c.ob('text-whole', e, big and not less, 'text is never cut', f'text is cut to {show(k, 6)}')


def has_len(k):
    return any(callname(z) in ('.len', 'builtins.len') or z.op == 'len' for z in walk(k, True))


def number_rule(c):
    D = data_field(c, 'NumberSymbol')[0]
    r = c.run('cheval.api.NumberSymbol.assign')
    me = SELF(r)
    data = r.params[r.fi.node.args.args[1].arg]
    for e in stores(r, me, D):
        for fs, x in flat_phi(e.value, tuple(e.facts())):
            x = uncast(x)
            c.ob('number', e, x is data or contains(x, data), 'a number is the one assigned', f'the number is {show(x, 4)}')
    c.ob('number', r.fi, bool(stores(r, me, D)), 'an assigned number is kept')
    for cls in ('NumberSymbol', 'VectorSymbol', 'MatrixSymbol'):
        D = data_field(c, cls)[0]
        r = c.run(f'cheval.api.{cls}._get')
        me = SELF(r)
        for e in r.events:
            if e.kind != 'return' or e.value is None:
                continue
            for fs, x in flat_phi(e.value, tuple(e.facts())):
                x = bare(x)
                if infeasible(fs):
                    continue
                c.ob('data-given', e, x is t('attr', me, D), f'a {cls} gives the data assigned to it', f'{cls} gives {show(x, 5)}') \
                    if not (contains(x, t('attr', me, D)) and not is_const(x)) or x is t('attr', me, D) else c.skip(
                        'data-given', e, show(x, 5))


def is_label(y):
    return y.op == 'attr' and y.args[1] in ('index', 'columns', 'axes')


def only_size(l):
    """A condition that looks at labels only for their number."""
    if l.op == 'len' or l.op == 'attr' and l.args[1] in ('shape', 'size', 'dtype', 'ndim', 'name', 'is_unique'):
        return True
    if callname(l) in ('len', 'builtins.len', 'isinstance', 'builtins.set', 'builtins.frozenset', 'builtins.sorted', '.isin', '.difference',
                       '.symmetric_difference', '.intersection', 'numpy.isin', '.sort_values', 'numpy.sort', 'numpy.setdiff1d', '.union'):
        return True  # says nothing of their order
    if is_label(l):
        return False
    return all(only_size(a) for a in l.args if isinstance(a, T)) and all(
        only_size(b) for a in l.args if isinstance(a, tuple) for b in a if isinstance(b, T))


def kept_value(x, data, ok_calls):
    """(verdict, why): True if a value is the whole data in its order, in some representation."""
    x = bare(x)
    if x is data:
        return True, None
    n = callname(x) or ''
    if n in REORDER or n.split('.')[-1] in ('sort_index', 'sort_values', 'dropna', 'unique', 'drop_duplicates', 'sort', 'flip'):
        return False, n
    if n in ok_calls:
        y = callargs(x)[0] if x.op == 'call' else x.args[1]
        return kept_value(y, data, ok_calls)
    if x.op == 'attr' and x.args[1] in ('values', 'array'):
        return kept_value(x.args[0], data, ok_calls)
    if x.op == 'attr' and x.args[1] in ('codes', 'categories', 'index', 'dtype'):
        return False, show(x, 4)
    if x.op == 'sub':
        k = x.args[1]
        ks = k.args if k.op == 'tup' else (k,)
        if all(all_slice(z) or is_const(z, Ellipsis, None) or show(z) in ('Ellipsis', 'numpy.newaxis') for z in ks):
            return kept_value(x.args[0], data, ok_calls)
        if any(z.op == 'slice' or z.op == 'call' and callname(z) == 'slice' for z in ks):
            return False, f'a part or another order of the data ({show(k, 3)})'
        return None, show(x, 5)
    if not contains(x, data):
        return False, show(x, 5)
    return None, show(x, 5)


WHOLE = ('convert_series', 'cheval.utils.convert_series', 'to_numpy', 'cheval.utils.to_numpy', '.to_numpy', '.copy', '.view',
         'numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', '.astype', '.reshape', 'numpy.reshape', '.squeeze',
         'numpy.atleast_1d')


def shape_of(r, e, x, n_ok):
    """'col' / 'row' / 'flat' / None: the layout of a stored one-dimensional array, also when set later on."""
    y = bare(x)
    forms = []
    for s in r.events:
        if s.kind == 'setattr' and s.key == 'shape' and (strip_st(s.obj) is strip_st(x) or e is not None and same_store(s.obj, e)):
            forms.append((s, s.value))
    out = set()
    for s, v in forms:
        for fs, k in flat_phi(v, tuple(s.facts())):
            out.add((layout(k), tuple(fs)))
    z = y
    while z.op in ('sub', 'call', 'mcall', 'attr'):
        n = callname(z)
        if n in ('.reshape', 'numpy.reshape'):
            a = callargs(z)[1 if n == 'numpy.reshape' else 0:]
            k = a[0] if len(a) == 1 else t('tup', *a)
            for fs, q in flat_phi(k):
                out.add((layout(q), tuple(fs)))
            break
        if z.op == 'sub' and z.args[1].op == 'tup' and len(z.args[1].args) == 2:
            k = z.args[1].args
            nw = [is_const(q, None) or show(q) == 'numpy.newaxis' for q in k]
            if nw == [True, False]:
                out.add(('row', ()))
                break
            if nw == [False, True]:
                out.add(('col', ()))
                break
        z = strip_st(z.args[0] if z.op in ('sub', 'attr') else (callargs(z)[0] if z.op == 'call' and callargs(z) else z.args[1]
                                                                 if z.op == 'mcall' else const(None)))
    return out


def same_store(o, e):
    """The object just stored in an attribute, read back."""
    o = strip_st(o)
    return o is strip_st(e.value) or (o.op == 'attr' and o.args[1] == e.key and strip_st(o.args[0]) is strip_st(e.obj))


def layout(k):
    k = strip_st(k)
    if k.op in ('tup', 'lit') and len([a for a in k.args if isinstance(a, T)]) == 2:
        a, b = [a for a in k.args if isinstance(a, T)]
        if is_const(a, 1) and not is_const(b, 1):
            return 'row'
        if is_const(b, 1) and not is_const(a, 1):
            return 'col'
    if is_const(k, -1) or k.op == 'len':
        return 'flat'
    return None


def one_dim(l, p, data):
    """The condition says that the data has a single dimension."""
    if l.op == 'cmp' and l.args[0] == '==' and p:
        for a, b in ((l.args[1], l.args[2]), (l.args[2], l.args[1])):
            if is_const(b, 1) and (a.op == 'len' and a.args[0].op == 'attr' and a.args[0].args[1] == 'shape' and
                                   strip_st(a.args[0].args[0]) is data or a.op == 'attr' and a.args[1] == 'ndim'):
                return True
            if a.op == 'attr' and a.args[1] == 'shape' and strip_st(a.args[0]) is data and b.op == 'tup' and len(b.args) == 1:
                return True
            if callname(a) == 'numpy.ndim' and is_const(b, 1):
                return True
    if l.op == 'cmp' and l.args[0] in ('<=', '<') and contains(l, data) and any(
            y.op == 'attr' and y.args[1] in ('shape', 'ndim') for y in walk(l, False)):
        return None
    return False


def same_length(c, l, p, data, side):
    if l.op == 'cmp' and l.args[0] == '==' and p:
        for a, b in ((l.args[1], l.args[2]), (l.args[2], l.args[1])):
            if not size_of(a, data):
                continue
            q = strip_st(b)
            if q.op == 'tup' and len(q.args) == 1:
                q = strip_st(q.args[0])
            if q.op == 'len' and model_side(c, q.args[0]) is not None:
                return model_side(c, q.args[0]) == side
            if q.op == 'attr' and q.args[1] in ('size', 'shape') and model_side(c, q.args[0]) is not None:
                return model_side(c, q.args[0]) == side
    return None


def size_of(a, data):
    a = strip_st(a)
    if a.op == 'len' and strip_st(a.args[0]) is data:
        return True
    if a.op == 'attr' and a.args[1] in ('size', 'shape') and strip_st(a.args[0]) is data:
        return True
    return a.op == 'sub' and is_const(a.args[1], 0) and size_of(a.args[0], data) and a.args[0].op == 'attr'


def vector_rule(c):
    cls = 'VectorSymbol'
    q = f'cheval.api.{cls}'
    D = data_field(c, cls)[0]
    F = own_orientation(init_fields(c, q)[1])
    if F is None:
        c.skip('vector-index', c.p.fn(f'{q}.assign'), 'no orientation')
        return
    for o in (0, 1):
        r0 = c.run(f'{q}.assign', noinline=OPAQUE18)
        me, data = SELF(r0), r0.params[r0.fi.node.args.args[1].arg]
        facts = tuple(side_facts(me, F, o))
        r = c.run(f'{q}.assign', noinline=OPAQUE18, facts=facts)
        isser = t('isinst', data, 'pandas.Series')
        series = [y for x in terms_of(r) for y in walk(x, True) if y.op == 'isinst' and y.args[0] is data and 'Series' in str(y.args[1])]
        arrays = [y for x in terms_of(r) for y in walk(x, True) if y.op == 'isinst' and y.args[0] is data and 'ndarray' in str(y.args[1])]
        if not series or not arrays:
            c.skip('vector-index', r.fi, 'kinds of data are not told apart by isinstance')
            continue
        for kind in ('Series', 'array', 'other'):
            fk = facts + tuple((y, kind == 'Series') for y in set(series)) + tuple((y, kind == 'array') for y in set(arrays))
            r = View(c.run(f'{q}.assign', noinline=OPAQUE18, facts=fk), fk)
            atoms = equal_atoms(c, terms_of(r), data)
            es = stores(r, me, D)
            what = f'{cls} (orientation {o}), {kind}'
            if kind == 'other':
                continue
            c.ob('vector-accepted', r.fi, bool(es), f'{what}: data is kept', f'{what}: data is refused')
            for e in es:
                ef = e.facts()
                if kind == 'Series':
                    check_index2(c, e, 'vector-index', what, ef, fk, atoms, o, 0, data)
                else:
                    one = [one_dim(l, p, data) for l, p in lits(ef)]
                    laid = [w for w, _ in shape_of(r, e, e.value, None)]
                    c.ob('vector-length', e, True in one or None in one, f'{what}: only arrays of one dimension',
                         f'{what}: an array of more dimensions is accepted')
                    ln = [same_length(c, l, p, data, o) for l, p in lits(ef)]
                    sized = [l for l, p in lits(ef) if any(size_of(y, data) for y in walk(l, True)) and one_dim(l, p, data) is False]
                    if True not in ln and False not in ln and sized:
                        c.skip('vector-length', e, show(sized[0], 5))
                    else:
                        c.ob('vector-length', e, True in ln, f'{what}: has the length of the {WHICH[o]}',
                             f'{what}: ' + (f'the length must be that of the {WHICH[1 - o]}' if False in ln else 'any length is accepted'))
                for fs, x in flat_phi(spec(e.value, fk), fk):
                    ok, why = kept_value(x, data, WHOLE)
                    if ok is None:
                        c.skip('vector-kept', e, why)
                    else:
                        c.ob('vector-kept', e, ok, f'{what}: the data is kept whole and in order', f'{what}: kept is {why}')
                    if kind == 'Series' and ok:
                        conv = any('convert_series' in (callname(y) or '') for y in walk(x, True))
                        c.ob('vector-converted', e, conv, f'{what}: values are made comparable in expressions',
                             f'{what}: text and categorical data is not converted ({show(x, 4)})')
                want = 'row' if o else 'col'
                got = {(w, fs) for w, fs in shape_of(r, e, e.value, None)
                       if not any(truth_(l, fk) is not None and truth_(l, fk) is not p for l, p in lits(fs))}
                if not got:
                    c.skip('vector-laid-out', e, f'{what}: unknown shape')
                for w, fs in got:
                    if w in ('row', 'col'):
                        c.ob('vector-laid-out', e, w == want, f'{what}: is laid out along the {WHICH[o]}', f'{what}: is laid out along the {WHICH[1 - o]}')
                    elif not {x for x, _ in got} & {'row', 'col'}:
                        c.skip('vector-laid-out', e, 'unknown shape')


def check_index2(c, e, rule, what, ef, base, atoms, side, axis, data):
    right = [(y, False) for y, (s, ax, i) in atoms.items() if (s, ax) == (side, axis)]
    text = f'{what}: labels are those of the {WHICH[side]}'
    if right:
        fs = tuple(base) + tuple(right)
        if any(truth_(l, fs) is not None and truth_(l, fs) is not p for l, p in lits(ef)):
            c.ob(rule, e, True, text)
            return
    near = [(y, atoms[y]) for l, p in lits(ef) for y in walk(l, True) if y in atoms]
    other = [l for l, p in lits(ef) if not only_size(l) and any(data_axis(y, data) is not None for y in walk(l, True))
             and not any(y in atoms for y in walk(l, True))]
    if kept_value(e.value, data, WHOLE)[0] is None:
        c.skip(rule, e, show(e.value, 6))
        return
    wrong = next((v for y, v in near if v[:2] != (side, axis)), None)
    if wrong is not None:
        c.ob(rule, e, False, text, f'{what}: its {"columns" if wrong[1] else "index"} must match the {show_index(wrong[0])}')
    elif near:
        c.ob(rule, e, False, text, f'{what}: data with other labels than the {WHICH[side]} is accepted')
    elif other:
        c.skip(rule, e, show(other[0], 6))
    else:
        c.ob(rule, e, False, text, f'{what}: labels are not compared with the {WHICH[side]}')


def table_rule(c):
    cls = 'TableSymbol'
    q = f'cheval.api.{cls}'
    D = data_field(c, cls)[0]
    fields = init_fields(c, q)[1]
    F = own_orientation(fields)
    mand = next((f for f in fields if 'mandatory' in f), None)
    allow = next((f for f in fields if 'allow' in f), None)
    r0 = c.run(f'{q}.assign', noinline=OPAQUE18)
    me, data = SELF(r0), r0.params[r0.fi.node.args.args[1].arg]
    for o in (0, 1):
        what = f'{cls} (orientation {o})'
        fk = tuple(side_facts(me, F, o))
        r = View(c.run(f'{q}.assign', noinline=OPAQUE18, facts=fk), fk)
        atoms = equal_atoms(c, terms_of(r), data)
        es = stores(r, me, D)
        c.ob('table-accepted', r.fi, bool(es), f'{what}: data is kept', f'{what}: data is refused')
        for e in es:
            ef = e.facts()
            check_index2(c, e, 'table-index', what, ef, fk, atoms, o, 0, data)
            ok, why = kept_value(spec(e.value, fk), data, ('.copy',))
            if ok is None:
                c.skip('table-kept', e, why)
            else:
                c.ob('table-kept', e, ok, f'{what}: the table is kept whole and in order', f'{what}: kept is {why}')
            if mand is None:
                continue
            found = verdict = None
            for l, p in lits(e.facts()):
                ns = none_such(l, p)
                if ns is not None and ns[0] in LOOPS and contains(LOOPS[ns[0]].domain or NONE, t('attr', me, mand)):
                    found = l
                    for x, pp in literals(ns[1]):
                        if x.op == 'cmp' and x.args[0] == 'in':
                            verdict = not pp and strip_st(x.args[1]).op != 'const' and (
                                contains(x.args[2], data)) and not LOOPS[ns[0]].has_break
                elif contains(l, t('attr', me, mand)):
                    found = found or l
                    if callname(l) in ('.issubset',) and p and contains(l.args[1], t('attr', me, mand)) and contains(
                            callargs(l)[0], data):
                        verdict = True
                    if l.op == 'cmp' and l.args[0] == '<=' and p and contains(l.args[1], t('attr', me, mand)) and contains(
                            l.args[2], data):
                        verdict = True
            if found is not None and verdict is None:
                c.skip('table-attributes', e, show(found, 5))
            else:
                c.ob('table-attributes', e, bool(verdict), f'{what}: has every mandatory attribute',
                     f'{what}: a table without a mandatory attribute is accepted')
    if allow is None:
        c.skip('table-links', r0.fi, 'no option')
        return
    linked = {y for x in terms_of(r0) for y in walk(x, True) if y.op == 'isinst' and 'LinkedDataFrame' in show(y, 3)
              and y.args[0] is data}
    al = t('attr', me, allow)
    if not linked:
        mentions = any(contains(x, al) for x in terms_of(r0))
        if mentions:
            c.skip('table-links', r0.fi, 'linked tables are told apart in another way')
        else:
            c.ob('table-links', r0.fi, False, f'{cls}: linked tables are only accepted if they are allowed',
                 f'{cls}: allow_links is not looked at')
        return
    frames = tuple((y, True) for x in terms_of(r0) for y in walk(x, True) if y.op == 'isinst' and y.args[0] is data and y not in linked)
    for a in (True, False):
        for ld in (True, False):
            fk = ((al, a),) + tuple((y, ld) for y in linked) + frames
            es = [e for e in stores(r0, me, D) if reachable(e, fk)]
            want = a or not ld
            c.ob('table-links', es[0] if es else r0.fi, bool(es) == want, f'{cls}: linked tables are only accepted if they are allowed',
                 f'{cls}: a {"linked" if ld else "plain"} table is {"accepted" if es else "refused"} with allow_links={a}')


def table_lookup(c):
    """An attribute of a table is looked up along the whole chain, from the table outwards."""
    cls = 'TableSymbol'
    q = f'cheval.api.{cls}'
    D = data_field(c, cls)[0]
    F = own_orientation(init_fields(c, q)[1])
    r0 = c.run(f'{q}._get', noinline=OPAQUE18)
    me = SELF(r0)
    info = r0.params[r0.fi.node.args.args[1].arg]
    table = t('attr', me, D)
    chain = t('attr', info, 'chain')
    wf = t('attr', info, 'withfunc')
    long = cmp('Lt', const(1), t('len', chain))
    for o in (0, 1):
        for n in ('one', 'chain', 'func'):
            fk = tuple(side_facts(me, F, o)) + ((cmp('Is', info, NONE), False), (wf, n == 'func'), (long, n == 'chain'),
                                                (cmp('Is', table, NONE), False))
            if n == 'one':
                fk += ((cmp('Eq', t('len', chain), const(1)), True),)
            if n == 'chain':
                fk += ((cmp('Eq', t('len', chain), const(1)), False),)
            r = View(c.run(f'{q}._get', noinline=OPAQUE18, facts=fk), fk)
            what = {'one': 'an attribute', 'chain': 'a chain of attributes', 'func': 'an aggregation'}[n]
            rets = [(fs, x) for e in r.events if e.kind == 'return' and reachable(e, fk) for fs, x in flat_phi(spec(e.value, fk), fk)]
            if not rets:
                c.skip('lookup', r.fi, 'nothing is returned')
            for fs, x in rets:
                if infeasible(fs):
                    continue
                got = {w for s in r.events if s.kind == 'setattr' and s.key == 'shape' and reachable(s, fk)
                       for _, k in flat_phi(spec(s.value, fk), fk) for w in [layout(k)]} | {
                    w for w, f2 in shape_of(r, None, x, None) if not any(truth_(l, fk) is (not p) for l, p in lits(f2))}
                want = 'row' if o else 'col'
                if None in got:
                    c.skip('lookup-laid-out', r.fi, 'unknown shape')
                else:
                    c.ob('lookup-laid-out', r.fi, got == {want}, f'{what} of a table of {WHICH[o]} is laid out along the {WHICH[o]}',
                         f'{what} of a table of {WHICH[o]} is laid out as {sorted(got)}')
                conv = [y for y in walk(x, True) if 'convert_series' in (callname(y) or '')]
                c.form('lookup-converted', r.fi, bool(conv), f'{what}: values are made comparable in expressions',
                     f'{what}: text and categorical data is not converted ({show(x, 4)})')
                y = spec(callargs(conv[0])[0], fk) if conv else x
                lookup_value(c, r, y, table, chain, info, n, what, o)


def lookup_value(c, r, y, table, chain, info, n, what, o):
    y = strip_st(y)
    rule = 'lookup'
    if n == 'func':
        # getattr(item, func)(args)
        if y.op == 'call' and callname(y.args[0]) in ('getattr', 'builtins.getattr'):
            a = callargs(y.args[0])
            fok = strip_st(a[1]) is t('attr', info, 'func')
            aok = any(strip_st(z) is t('attr', info, 'args') for z in callargs(y))
            c.ob(rule, r.fi, fok, 'an aggregation is the one asked for', f'the aggregation is {show(a[1], 4)}')
            c.ob(rule, r.fi, aok, 'an aggregation is of the expression given', f'the argument is {show(callargs(y)[0], 4) if callargs(y) else "none"}')
            y = strip_st(a[0])
        else:
            fixed = y.op == 'mcall' and not contains(y, t('attr', info, 'func'))
            if fixed:
                c.ob(rule, r.fi, False, 'an aggregation is the one asked for', f'the aggregation is {y.args[0]}')
            else:
                c.skip(rule, r.fi, show(y, 5))
            return
    if n == 'one':
        if y.op == 'sub':
            k = strip_st(y.args[1])
            good = k.op == 'sub' and strip_st(k.args[0]) is chain and cval(k.args[1]) in (0, -1)
            base = strip_st(y.args[0]) is table
            if good and base:
                c.ob(rule, r.fi, True, 'an attribute is looked up in the table by its name')
                return
    v = walked(y, table, chain)
    if v is None:
        c.skip(rule, r.fi, show(y, 6))
    else:
        c.ob(rule, r.fi, v is True, f'{what} is looked up from the table outwards, along the whole chain', f'{what}: {v}')


def walked(y, table, chain):
    """True if a value is the table subscripted by each item of the chain (in the order of `pairing`); a reason if it surely is not."""
    y = strip_st(y)
    if y.op == 'carry' or y.op == 'loopval' or True:
        ks = [k for k in loops_in(y) if LOOPS[k].domain is not None and contains(LOOPS[k].domain, chain)]
        if len(ks) != 1:
            return None
        L = LOOPS[ks[0]]
        d = strip_st(L.domain)
        d0 = d
        while True:
            if callname(d) in ('reversed', 'builtins.reversed', 'list', 'tuple', 'builtins.list', 'builtins.tuple'):
                d = strip_st(callargs(d)[0])
            elif d.op == 'sub' and show(d.args[1]).replace(' ', '') in ('slice(None,None,-1)', '::-1'):
                d = strip_st(d.args[0])
            else:
                break
        if d is not chain:
            return f'only {show(d0, 5)} is looked up' if d.op == 'sub' else None
        init = next((strip_st(v) for v in L.init.values() if strip_st(v) is table), None) if isinstance(L.init, dict) else None
        return True if init is not None else None


def loops_in(y):
    out = []
    for z in walk(y, True):
        for a in z.args:
            ks = a if isinstance(a, tuple) else (a,)
            try:
                if a in LOOPS and a not in out:
                    out.append(a)
            except TypeError:
                pass
    return out


# ---------------------------------------------------------------------------------------------- matrices
def matrix_rule(c):
    cls = 'MatrixSymbol'
    q = f'cheval.api.{cls}'
    D = data_field(c, cls)[0]
    ri, fields = init_fields(c, q)
    F = own_orientation(fields)
    flag = {0: next((f for f in fields if 'row' in f), None), 1: next((f for f in fields if 'col' in f), None)}
    fill = next((f for f in fields if 'fill' in f), None)
    r0 = c.run(f'{q}.assign', noinline=OPAQUE18)
    me, data = SELF(r0), r0.params[r0.fi.node.args.args[1].arg]
    if F is None or None in flag.values() or fill is None:
        c.skip('matrix', r0.fi, 'settings not found')
        return
    for o in (0, 1):
        base = tuple(side_facts(me, F, o))
        r = View(c.run(f'{q}.assign', noinline=OPAQUE18, facts=base), base)
        xs = list(terms_of(r))
        frames = tuple({(y, True) for x in xs for y in walk(x, True) if y.op == 'isinst' and turned(y.args[0], data) is not None})
        atoms = equal_atoms(c, xs, data)
        for side in (0, 1):
            wrong = [v for y, v in atoms.items() if v[0] == side and v[1] != side ^ o]
            c.ob('matrix-sides', r.fi, not wrong, f'{cls} (orientation {o}): the {WHICH[side]} are compared with the {WHICH[side]} of the data',
                 f'{cls} (orientation {o}): the {WHICH[side]} are compared with the {"index" if side == o else "columns"} of the data')
        if not labels_compared(c, r.fi, 'matrix-sides', f'{cls} (orientation {o})', xs, atoms, data):
            continue
        for same in ((1, 1), (1, 0), (0, 1), (0, 0)):
            fk = base + frames + tuple((y, bool(same[v[0]]) and not v[2]) for y, v in atoms.items())
            what = f'{cls} (orientation {o}) of which ' + {
                (1, 1): 'all labels match', (1, 0): 'the decision units match', (0, 1): 'the choices match', (0, 0): 'no labels match'}[same]
            for a in (0, 1):
                for b in (0, 1):
                    ff = fk + ((t('attr', me, flag[0]), bool(a)), (t('attr', me, flag[1]), bool(b)))
                    es = [e for e in stores(r, me, D) if reachable(e, ff)]
                    want = (same[0] or a) and (same[1] or b)
                    c.ob('matrix-accepted', es[0] if es else r.fi, bool(es) == bool(want), f'{what}: accepted exactly if expanding is allowed',
                         f'{what}: {"accepted" if es else "refused"} with reindex_rows={bool(a)}, reindex_cols={bool(b)}')
            ff = fk + ((t('attr', me, flag[0]), True), (t('attr', me, flag[1]), True))
            w = View(r, ff)
            for e in stores(w, me, D):
                for fs, v in flat_phi(e.value, ff):
                    if not infeasible(fs):
                        matrix_value(c, w, e, v, what, o, same, data, ff, me, fill)


def matrix_value(c, r, e, v, what, o, same, data, ff, me, fill):
    x = bare(v)
    n = callname(x) or ''
    short = n.split('.')[-1]
    src = whole_matrix(x, data)
    if src is not None and n not in ('numpy.full', 'numpy.zeros', 'numpy.empty', 'numpy.ones'):
        c.ob('matrix-cells', e, all(same), f'{what}: cells are those of the data', f'{what}: data is kept without expanding it')
        c.ob('matrix-cells', e, src == o, f'{what}: rows are decision units', f'{what}: rows are not the decision units')
        return
    if short not in ('full', 'zeros', 'empty', 'ones', 'full_like', 'zeros_like', 'empty_like'):
        c.skip('matrix-cells', e, show(x, 6))
        return
    a = callargs(x)
    # what cells without data hold
    if not all(same):
        if short == 'full':
            fv = a[1] if len(a) > 1 else tkw(x, 'fill_value')
            ok = fv is not None and strip_st(fv) is t('attr', me, fill)
            c.ob('matrix-fill', e, ok, f'{what}: cells without data hold the fill value', f'{what}: cells without data hold {show(fv, 4) if fv is not None else "?"}')
            dt = tkw(x, 'dtype') or (a[2] if len(a) > 2 else None)
            c.ob('matrix-dtype', e, dt is not None and (contains(dt, data) or 'float' in show(dt) or 'f8' in show(dt)),
                 f'{what}: can hold the values of the data', f'{what}: values of the data are cut to the type of {show(dt, 4) if dt is not None else "the fill value"}')
        else:
            later = [s for s in r.events if s.kind == 'setsub' and rooted(s.obj, strip_st(v)) and contains(s.value, t('attr', me, fill))
                     and reachable(s, ff)]
            filled = [s for s in r.events if s.kind == 'call' and callname(s.value or NONE) == '.fill' and contains(s.value, t('attr', me, fill))]
            if later or filled:
                c.ob('matrix-fill', e, True, f'{what}: cells without data hold the fill value', '')
            else:
                c.skip('matrix-fill', e, f'{what}: what cells without data hold')
    # the shape
    sh = strip_st(a[0]) if a else None
    sh = strip_alloc(sh) if sh is not None and sh.op == 'alloc' else sh
    if sh is not None and sh.op in ('tup', 'lit'):
        ks = [strip_st(k) for k in sh.args if isinstance(k, T)]
        if len(ks) == 2 and all(k.op == 'len' for k in ks):
            sd = tuple(model_side(c, k.args[0]) for k in ks)
            if None in sd:
                c.skip('matrix-shape', e, show(sh, 5))
            else:
                c.ob('matrix-shape', e, sd == (0, 1), f'{what}: covers all decision units and choices', f'{what}: has the shape {show(sh, 5)}')
    sets = [s for s in r.events if s.kind == 'setsub' and strip_st(s.obj) is strip_st(v) and reachable(s, ff)]
    sets = [s for s in sets if not strip_st(s.value) is t('attr', me, fill)]
    c.ob('matrix-cells', e, bool(sets), f'{what}: data is written to the cells', f'{what}: the data is dropped')
    for s in sets:
        src = whole_matrix(bare(spec(s.value, ff)), data)
        if src is None:
            c.skip('matrix-cells', s, show(s.value, 5))
        else:
            c.ob('matrix-cells', s, src == o, f'{what}: rows are decision units', f'{what}: rows are not the decision units')
        k = strip_st(spec(s.key, ff))
        parts, crossed = None, False
        if callname(k) == 'numpy.ix_' and len(callargs(k)) == 2:
            parts, crossed = callargs(k), True
        elif k.op == 'tup' and len(k.args) == 2:
            parts = list(k.args)
        elif k.op != 'tup':
            parts = [k, None]
        if parts is None:
            c.skip('matrix-cells', s, show(k, 5))
            continue
        used = []
        known = True
        for side, x in enumerate(parts):
            if x is None or all_slice(strip_st(x)) or show(x) == 'slice(None)':
                used.append(None)
                continue
            g = position_of(c, x, data, o)
            if g is None:
                known = False
                c.skip('matrix-cells', s, show(x, 5))
                continue
            used.append(g)
            c.ob('matrix-cells', s, g is True or g == side, f'{what}: data is placed by label', f'{what}: {g if isinstance(g, str) else "placed by the labels of the other side"}')
            checked = [(l, p) for l, p in lits(s.facts()) if any(position_of(c, y, data, o) == side for y in walk(spec(l, ff), True))]
            neg = any(no_negative(c, spec(l, ff), p, data, o, side) for l, p in checked)
            unk = [l for l, p in checked if not size_only(spec(l, ff), c, data, o) and not no_negative(c, spec(l, ff), p, data, o, side)]
            if not neg and unk:
                c.skip('matrix-unknown', s, show(unk[0], 5))
            else:
                c.ob('matrix-unknown', s, neg, f'{what}: labels that are not in the model are refused',
                     f'{what}: labels that are not among the {WHICH[side]} are written to the last one')
        if known and len(used) == 2:
            both = all(u is not None for u in used)
            c.ob('matrix-cells', s, crossed or not both, f'{what}: every row and column of the data is placed',
                 f'{what}: rows and columns are paired instead of crossed')
            for side in (0, 1):
                if not same[side]:
                    c.ob('matrix-cells', s, used[side] is not None, f'{what}: data is placed by label',
                         f'{what}: the {WHICH[side]} are taken by position')


def whole_matrix(x, data):
    """0/1: the data as handed over/transposed, whole; None otherwise."""
    x = bare(x)
    n = callname(x) or ''
    i = turned(x, data)
    if i is not None:
        return i
    if n in ('to_numpy', 'cheval.utils.to_numpy', 'numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray') and callargs(x):
        return whole_matrix(callargs(x)[0], data)
    if n in ('.to_numpy', '.copy', '.astype'):
        return whole_matrix(x.args[1], data)
    if n in ('.transpose', 'numpy.transpose') or x.op == 'attr' and x.args[1] == 'T':
        y = callargs(x)[0] if x.op == 'call' else x.args[1] if x.op == 'mcall' else x.args[0]
        j = whole_matrix(y, data)
        return None if j is None else j ^ 1
    if x.op == 'attr' and x.args[1] == 'values':
        return whole_matrix(x.args[0], data)
    if x.op == 'sub' and show(x.args[1]) == 'Ellipsis':
        return whole_matrix(x.args[0], data)
    return None


def position_of(c, x, data, o):
    """Side (0/1) whose positions of the labels of the same side of the data an indexer holds; text if it is surely wrong."""
    x = bare(x)
    if callname(x) in ('.get_indexer', '.get_indexer_for') and callargs(x):
        s, ax = model_side(c, x.args[1]), data_axis(callargs(x)[0], data)
        if s in (0, 1) and ax is not None:
            return s if ax == s ^ o else 'labels of the wrong side of the data are looked up'
        s, ax = model_side(c, callargs(x)[0]), data_axis(x.args[1], data)
        if s is not None and ax is not None:
            return 'positions in the data are used as positions in the model'
    return None


def no_negative(c, l, p, data, o, side):
    """The condition says that every label was found."""
    def pos(y):
        return position_of(c, y, data, o) == side

    def below(y):  # y: elementwise "position < 0" / "== -1"
        y = strip_st(y)
        if y.op == 'cmp' and y.args[0] == '<' and pos(y.args[1]) and is_const(y.args[2], 0):
            return True
        if y.op == 'cmp' and y.args[0] == '==' and pos(y.args[1]) and is_const(y.args[2], -1):
            return True
        return y.op == 'cmp' and y.args[0] == '<=' and pos(y.args[1]) and is_const(y.args[2], -1)

    def arg(y):
        return strip_st(y.args[1] if y.op == 'mcall' else callargs(y)[0])
    if callname(l) in ('numpy.any', '.any', 'builtins.any') and not p:
        return below(arg(l))
    if callname(l) in ('numpy.all', '.all', 'builtins.all') and p:
        y = arg(l)
        return y.op in ('not', 'inv') and below(y.args[0]) or y.op == 'cmp' and y.args[0] == '<=' and is_const(y.args[1], 0) and pos(
            y.args[2]) or y.op == 'cmp' and y.args[0] == '<' and is_const(y.args[1], -1) and pos(y.args[2])
    if l.op == 'cmp':
        for op, a, b in ((l.args[0], l.args[1], l.args[2]),):
            if callname(a) in ('.min', 'numpy.min', 'builtins.min') and pos(arg(a)):
                return op == '<' and is_const(b, 0) and not p or op == '<=' and is_const(b, -1) and not p
            if callname(b) in ('.min', 'numpy.min', 'builtins.min') and pos(arg(b)):
                return op == '<=' and is_const(a, 0) and p or op == '<' and is_const(a, -1) and p
        if l.args[0] == 'in' and is_const(l.args[1], -1) and pos(l.args[2]):
            return not p
    return False


def size_only(l, c, data, o):
    """A condition that uses an indexer only for its size."""
    if l.op == 'len' or l.op == 'attr' and l.args[1] in ('shape', 'size'):
        return True
    if position_of(c, l, data, o) is not None:
        return False
    if callname(l) in ('numpy.all', '.all', 'builtins.all'):
        y = strip_st(l.args[1] if l.op == 'mcall' else callargs(l)[0])
        if y.op == 'cmp' and y.args[0] == '<' and is_const(y.args[2], 0):
            return True  # only says that not all labels are missing
    return all(size_only(a, c, data, o) for a in l.args if isinstance(a, T)) and all(
        size_only(b, c, data, o) for a in l.args if isinstance(a, tuple) for b in a if isinstance(b, T))


# ---------------------------------------------------------------------------------------------- partial utilities
def partial_rule(c):
    fi = c.p.fn(f'{MODEL}.add_partial_utilities')
    r = c.run(fi, noinline=('choices', 'decision_units', '_partial_utilities', 'validate', 'fast_indexed_add', 'to_numpy'))
    names = [a.arg for a in fi.node.args.args]
    data = r.params[names[1]]
    flags = {0: r.params.get('reindex_rows'), 1: r.params.get('reindex_columns')}
    calls = enters(r, 'fast_indexed_add')
    c.ob('partial-added', fi, bool(calls) or None in flags.values() or not plain_only(r), 'partial utilities are added', 'nothing is added')
    if not calls or None in flags.values():
        c.skip('partial-added', fi, 'partial utilities are added in another way')
        return
    xs = list(terms_of(r))
    atoms = equal_atoms(c, xs, data)
    for side in (0, 1):
        wrong = [v for y, v in atoms.items() if v[0] == side and v[1] != side]
        c.ob('partial-labels', fi, not wrong, f'the {WHICH[side]} are compared with the {WHICH[side]} of the table',
             f'the {WHICH[side]} are compared with the {"columns" if side == 0 else "index"} of the table')
    if not labels_compared(c, fi, 'partial-labels', 'partial utilities', xs, atoms, data):
        return
    for same in ((1, 1), (1, 0), (0, 1), (0, 0)):
        fk = tuple((y, bool(same[v[0]]) and not v[2]) for y, v in atoms.items())
        what = 'partial utilities of which ' + {
            (1, 1): 'all labels match', (1, 0): 'the decision units match', (0, 1): 'the choices match', (0, 0): 'no labels match'}[same]
        for a in (0, 1):
            for b in (0, 1):
                ff = fk + ((flags[0], bool(a)), (flags[1], bool(b)))
                live = [e for e in calls if reachable(e, ff)]
                want = (same[0] or a) and (same[1] or b)
                c.ob('partial-accepted', live[0] if live else fi, bool(live) == bool(want), f'{what}: accepted exactly if expanding is allowed',
                     f'{what}: {"accepted" if live else "refused"} with reindex_rows={bool(a)}, reindex_columns={bool(b)}')
        ff = fk + ((flags[0], True), (flags[1], True))
        for e in calls:
            if not reachable(e, ff):
                continue
            pn = [a.arg for a in e.fi.node.args.args]
            out, add, ri, ci = [spec(arg_of(e, n), ff) if arg_of(e, n) is not None else NONE for n in pn[:4]]
            o = bare(out)
            copied_ = callname(o) in ('.copy', 'numpy.array', '.astype') or callname(o) == '.to_numpy' and truth(tkw(o, 'copy', FALSE)) is True
            c.ob('partial-kept', e, not copied_, 'what is added stays in the model', f'utilities are added to a copy: {show(o, 4)}')
            own = contains(o, t('attr', SELF(r), '_partial_utilities')) or contains(o, t('attr', SELF(r), cache_field(c)))
            if not own and not copied_:
                c.skip('partial-kept', e, show(o, 5))
            w = whole_matrix(add, data)
            if w is None:
                c.skip('partial-added', e, show(add, 5))
            else:
                c.ob('partial-added', e, w == 0, f'{what}: what is added is the table', f'{what}: what is added is {show(add, 4)}')
            for side, x in ((0, ri), (1, ci)):
                if is_const(x, None):
                    c.ob('partial-placed', e, bool(same[side]), f'{what}: utilities are placed by label',
                         f'{what}: the {WHICH[side]} are taken by position')
                    continue
                g = position_of(c, x, data, 0)
                if g is None:
                    c.skip('partial-placed', e, show(x, 5))
                else:
                    c.ob('partial-placed', e, g == side, f'{what}: utilities are placed by label',
                         f'{what}: {g if isinstance(g, str) else "placed by the labels of the other side"}')


def plain_only(r):
    return not [e for e in r.events if e.kind in ('setsub', 'aug', 'setattr')]


def indexed_add(c):
    """fast_indexed_add: every cell of the table is added once, to the cell its row and column are placed at."""
    fi = c.p.fn(f'{CORE}.fast_indexed_add')
    names = [a.arg for a in fi.node.args.args]
    r = c.run(fi)
    out, add, ri, ci = [r.params[n] for n in names[:4]]
    for hr in (False, True):
        for hc in (False, True):
            ff = ((cmp('Is', ri, NONE), not hr), (cmp('Is', ci, NONE), not hc))
            bind = {}
            if not hr:
                bind[names[2]] = NONE
            if not hc:
                bind[names[3]] = NONE
            r = c.run(fi, bind=bind, facts=ff)
            what = f'fast_indexed_add {"with" if hr else "without"} rows, {"with" if hc else "without"} columns'
            ws = [e for e in r.events if e.kind in ('aug', 'setsub') and rooted(e.obj, out) and reachable(e, ff)]
            subs = [e for e in ws if e.kind == 'setsub']
            c.ob('add-cells', subs[0] if subs else fi, len(subs) == 1, f'{what}: every cell is added once', f'{what}: {len(subs)} additions')
            for e in subs:
                one_addition(c, r, e, what, out, add, r.params[names[2]] if hr else None, r.params[names[3]] if hc else None, ff)
            if not subs:
                continue
            for x, n, ax in ((ri, names[2], 0), (ci, names[3], 1)):
                if not (hr, hc)[ax]:
                    ok = any(same_size(l, p, out, add, ax) for e in subs for l, p in lits(e.facts()))
                    c.ob('add-size', subs[0], ok, f'{what}: the table has the size of the target', f'{what}: a table of another size is accepted')
                    continue
                neg = any(found_all(l, p, r.params[n]) for e in subs for l, p in lits(e.facts()))
                unk = [l for e in subs for l, p in lits(e.facts()) if '< 0' in show(l, 6) and contains(l, r.params[n])]
                if not neg and unk:
                    c.skip('add-unknown', subs[0], show(unk[0], 5))
                else:
                    c.ob('add-unknown', subs[0], neg, f'{what}: labels that were not found are refused',
                         f'{what}: labels that were not found are added to the last {"row" if ax == 0 else "column"}')


def same_size(l, p, out, add, ax):
    if l.op != 'cmp' or l.args[0] != '==' or not p:
        return False
    a, b = uncast(l.args[1]), uncast(l.args[2])

    def dim(y, arr):
        return y.op == 'sub' and y.args[0].op == 'attr' and y.args[0].args[1] == 'shape' and rooted(y.args[0].args[0], arr) and is_const(
            y.args[1], ax) or ax == 0 and y.op == 'len' and rooted(y.args[0], arr)
    if dim(a, out) and dim(b, add) or dim(b, out) and dim(a, add):
        return True

    def shp(y, arr):
        return y.op == 'attr' and y.args[1] == 'shape' and rooted(y.args[0], arr)
    return shp(a, out) and shp(b, add) or shp(b, out) and shp(a, add)


def found_all(l, p, ix):
    def arg(y):
        return strip_st(y.args[1] if y.op == 'mcall' else callargs(y)[0] if callargs(y) else NONE)

    def low(y):
        return callname(y) in ('.min', 'numpy.min', 'builtins.min') and arg(y) is ix
    if l.op == 'cmp':
        if low(l.args[1]):
            return not p and (l.args[0] == '<' and is_const(l.args[2], 0) or l.args[0] == '<=' and is_const(l.args[2], -1))
        if low(l.args[2]):
            return p and (l.args[0] == '<=' and is_const(l.args[1], 0) or l.args[0] == '<' and is_const(l.args[1], -1))
    if callname(l) in ('numpy.all', '.all', 'builtins.all') and p:
        y = arg(l)
        return y.op == 'cmp' and (y.args[0] == '<=' and is_const(y.args[1], 0) and strip_st(y.args[2]) is ix)
    if callname(l) in ('numpy.any', '.any', 'builtins.any') and not p:
        y = arg(l)
        return y.op == 'cmp' and y.args[0] == '<' and strip_st(y.args[1]) is ix and is_const(y.args[2], 0)
    return False


def one_addition(c, r, e, what, out, add, ri, ci, ff):
    k = strip_st(e.key)
    if k.op != 'tup' or len(k.args) != 2:
        c.skip('add-cells', e, show(k, 5))
        return
    # the value: what is there plus a cell of the table
    v = uncast(strip_st(e.value))
    cell = None
    for y in walk(v, False):
        if y.op == 'sub' and rooted(y.args[0], add) and y.args[0] is not v:
            cell = y
    target = any(y.op == 'sub' and rooted(y.args[0], out) for y in walk(v, False)) or e.aug is not None if hasattr(e, 'aug') else True
    if cell is None or strip_st(cell.args[1]).op != 'tup':
        c.skip('add-cells', e, show(v, 5))
        return
    src = [uncast(a) for a in strip_st(cell.args[1]).args]
    for ax, ix in ((0, ri), (1, ci)):
        tk = uncast(k.args[ax])
        if ix is None:
            good = same_value(tk, src[ax]) or tk is src[ax]
        else:
            good = tk.op == 'sub' and strip_st(tk.args[0]) is ix and (uncast(tk.args[1]) is src[ax] or same_value(uncast(tk.args[1]), src[ax]))
            if not good and tk.op == 'sub' and strip_st(tk.args[0]).op != 'param' and not contains(tk, ix):
                good = False
        c.ob('add-cells', e, bool(good), f'{what}: a cell is added at its place',
             f'{what}: cell {show(cell.args[1], 5)} of the table is added to cell {show(k, 5)}')
    # every cell is visited: the source position runs over all rows and columns
    vis = all_cells(src, add, e)
    if vis is None:
        c.skip('add-all', e, f'{show(src[0], 5)}, {show(src[1], 5)}')
    else:
        c.ob('add-all', e, vis is True, f'{what}: every cell of the table is added', f'{what}: {vis}')


def dimension(y, add):
    y = uncast(strip_st(y))
    if y.op == 'sub' and y.args[0].op == 'attr' and y.args[0].args[1] == 'shape' and rooted(y.args[0].args[0], add):
        return cval(y.args[1])
    if y.op == 'len' and rooted(y.args[0], add):
        return 0
    return None


def all_cells(src, add, e):
    """True if a pair of positions runs over every cell of a table; a reason if it does not; None if not known."""
    row, col = src
    if 'slice' in (row.op, col.op):
        return None
    if row.op == 'iv' and col.op == 'iv':
        ns = [trip(row), trip(col)]
        if None in ns:
            return None
        if not all(is_const(lo, 0) and is_const(st, 1) for lo, hi, st in ns):
            return 'rows or columns are left out'
        ds = [dimension(hi, add) for lo, hi, st in ns]
        return None if None in ds else True if ds == [0, 1] else 'the loops do not run over the whole table'
    ivs = {z for y in (row, col) for z in walk(y, False) if z.op == 'iv'}
    if len(ivs) != 1:
        return None
    n = trip(ivs.pop())
    if n is None:
        return None
    lo, hi, st = n
    if not is_const(lo, 0) or not is_const(st, 1):
        return 'cells are left out'
    hp = uncast(hi)
    if hp.op == 'attr' and hp.args[1] == 'size' and rooted(hp.args[0], add):
        pass
    elif hp.op == 'bin' and hp.args[0] == '*':
        ds = [dimension(z, add) for z in hp.args[1:]]
        if None in ds:
            return None
        if sorted(ds) != [0, 1]:
            return 'the loop does not run over the whole table'
    elif hp.op == 'bin' or dimension(hp, add) is not None:
        return 'the loop does not run over the whole table'
    else:
        return None
    if not (row.op == col.op == 'bin' and row.args[0] in ('//', '%') and col.args[0] in ('//', '%')):
        return None
    if row.args[0] == '%' and col.args[0] == '//':
        dims = (dimension(row.args[2], add), dimension(col.args[2], add))
        return True if dims == (0, 0) else 'positions are not split by the number of rows'
    if row.args[0] == col.args[0]:
        return 'a row and a column are the same part of a position'
    dims = (dimension(row.args[2], add), dimension(col.args[2], add))
    return None if None in dims else True if dims == (1, 1) else 'positions are not split by the number of columns'


def trip(iv):
    """(start, stop, step) of a counting loop."""
    d = LOOPS[iv.args[0]].domain
    d = strip_st(d) if d is not None else None
    if d is None or d.op != 'range':
        return None
    a = [x for x in d.args if isinstance(x, T)]
    return (a[0], a[1], a[2] if len(a) > 2 else const(1)) if len(a) > 1 else None


# ---------------------------------------------------------------------------------------------- P19
def p19(c):
    D = registry(c)[0]
    adders(c, D)
    interval_settings(c)
    declared(c)
    replaced(c, D)
    batch(c)


NODE_ = 'cheval.api.ChoiceNode'


def scale_side(l, p, x):
    """('low'|'high', closed, bound) if a literal bounds a number by a constant."""
    if l.op != 'cmp' or l.args[0] not in ('<', '<='):
        return None
    a, b = uncast(l.args[1]), uncast(l.args[2])
    if is_number(b) and same_number(a, x):
        # x < b (p) / not x < b
        return ('high', l.args[0] == '<=', cval(b)) if p else ('low', l.args[0] == '<', cval(b))
    if is_number(a) and same_number(b, x):
        return ('low', l.args[0] == '<=', cval(a)) if p else ('high', l.args[0] == '<', cval(a))
    return None


def is_number(x):
    return x.op == 'const' and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool)


def same_number(a, x):
    a = uncast(a)
    if callname(a) in ('float', 'builtins.float', 'numpy.float64') and callargs(a):
        a = uncast(callargs(a)[0])
    return a is x


def bounds_of(facts, x):
    """The interval (low, closed, high, closed) literals give for a number, and the literals on it that are not understood."""
    lo, hi, unk = (None, True), (None, True), []
    for l, p in lits(facts):
        b = scale_side(l, p, x)
        if b is None:
            if contains(l, x) and l.op not in ('isinst', 'and', 'or') and not (l.op == 'cmp' and any(is_const(z, None) for z in l.args[1:])):
                unk.append(l)
            continue
        side, closed, v = b
        if side == 'low' and (lo[0] is None or v > lo[0] or v == lo[0] and not closed):
            lo = (v, closed)
        if side == 'high' and (hi[0] is None or v < hi[0] or v == hi[0] and not closed):
            hi = (v, closed)
    return lo, hi, unk


UNIT = ((0, False), (1, True))


def show_range(lo, hi):
    return ('[' if lo[1] and lo[0] is not None else '(') + f'{"-inf" if lo[0] is None else lo[0]}, {"inf" if hi[0] is None else hi[0]}' + (
        ']' if hi[1] and hi[0] is not None else ')')


def in_unit(c, rule, e, facts, x, what):
    lo, hi, unk = bounds_of(facts, x)
    lo_, hi_ = (lo[0], lo[1]), (hi[0], hi[1])
    if (lo_, hi_) == UNIT:
        c.ob(rule, e, True, f'{what}: the logsum scale is in (0, 1]')
    elif unk:
        c.skip(rule, e, show(unk[0], 5))
    else:
        c.ob(rule, e, False, f'{what}: the logsum scale is in (0, 1]', f'{what}: logsum scales in {show_range(lo, hi)} are accepted')


def not_in_name(l, p, x):
    """'.' or '_' if the literal says that the name holds no '.' / is not '_'."""
    if l.op == 'cmp' and l.args[0] == 'in' and not p and is_const(l.args[1], '.') and name_of(l.args[2], x):
        return '.'
    if l.op == 'cmp' and l.args[0] == '==' and not p and (
            name_of(l.args[1], x) and is_const(l.args[2], '_') or name_of(l.args[2], x) and is_const(l.args[1], '_')):
        return '_'
    return None


def name_of(y, x):
    y = strip_st(y)
    if callname(y) in ('str', 'builtins.str') and callargs(y):
        y = strip_st(callargs(y)[0])
    return y is x


def tree_effects(r, me):
    """Everything that changes the model or a node that existed before."""
    out = []
    for e in r.events:
        if e.kind in ('setattr', 'setsub', 'mutate', 'delsub', 'delattr', 'propset', 'aug'):
            o = strip_st(e.obj)
            rs = root(o)
            if any(x.op == 'alloc' for x in rs) and not any(x.op == 'param' for x in rs):
                continue
            if any(x is me or contains(x, me) for x in rs) or any(x.op == 'param' for x in rs):
                out.append(e)
    return out


def adders(c, D):
    """A choice enters the tree only if its name and scale are valid; nothing is changed before that is known."""
    top = top_field(c)
    for q, nested in ((f'{MODEL}.add_choice', False), (f'{NODE_}.add_choice', True)):
        fi = c.p.fn(q)
        r = c.run(fi, noinline=('full_name',))
        me = SELF(r)
        r = View(r, ((cmp('Is', me, NONE), False),))
        names = [a.arg for a in fi.node.args.args]
        name, scale = r.params[names[1]], r.params[names[2]]
        what = f'{fi.cls.name if hasattr(fi.cls, "name") else "ChoiceNode" if nested else "ChoiceModel"}.add_choice'
        reg = [e for e in r.events if e.kind == 'setsub' and strip_st(e.obj).op == 'attr' and strip_st(e.obj).args[1] == D]
        if not reg:
            c.skip('valid-choice', fi, 'the choice is registered in another way')
            continue
        effects = tree_effects(r, me)
        for e in effects:
            fs = e.facts()
            in_unit(c, 'valid-choice', e, fs, scale, what)
            got = {not_in_name(l, p, name) for l, p in lits(fs)}
            unk = [l for l, p in lits(fs) if contains(l, name) and not_in_name(l, p, name) is None and not contains(l, me)
                   and l.op not in ('and', 'or', 'isinst') and not other_name(l, name)]
            for ch, bad in (('.', 'names with "." are accepted'), ('_', 'the name "_" is accepted')):
                if ch in got:
                    c.ob('valid-choice', e, True, f'{what}: names are valid')
                elif unk:
                    c.skip('valid-choice', e, show(unk[0], 5))
                else:
                    c.ob('valid-choice', e, False, f'{what}: names are valid', f'{what}: {bad}')
        # nothing that can refuse the choice comes after the first change
        first = min((r.events.index(e) for e in effects), default=None)
        late = [e for e in r.events if e.kind == 'raise' and r.events.index(e) > first] if first is not None else []
        c.ob('refused-unchanged', late[0] if late else fi, not late, f'{what}: a refused choice leaves the tree unchanged',
             f'{what}: the tree is changed before a choice is refused')
        # the new node
        for e in reg:
            node = strip_st(e.value)
            if not (node.op == 'alloc' and strip_alloc(node).op == 'new'):
                c.skip('new-choice', e, show(node, 4))
                continue
            R = r.r
            up = me if nested else NONE
            checks = [('parent', lambda v: strip_st(v) is me if nested else is_const(v, None), 'the node it was added to' if nested else 'none')]
            for prop, test, text in checks:
                v = node_field(c, R, node, prop)
                vv = [x for x in flat_under(r, v)] if v is not None else []
                c.ob('new-choice', e, bool(vv) and all(test(x) for x in vv), f'{what}: the parent of the choice is {text}',
                     f'{what}: the parent of the choice is {show(vv[0], 4) if vv else "?"}')
            v = node_field(c, R, node, 'level')
            for x in flat_under(r, v) if v is not None else ():
                ok = plus_one(x, me) if nested else is_const(x, 1)
                c.ob('new-choice', e, ok, f'{what}: levels count from 1', f'{what}: the level of the choice is {show(x, 4)}')
            v = node_field(c, R, node, 'logsum_scale')
            for x in flat_under(r, v) if v is not None else ():
                c.ob('new-choice', e, same_number(x, scale), f'{what}: the choice has the scale given', f'{what}: the scale of the choice is {show(x, 4)}')
            v = node_field(c, R, node, 'name')
            for x in flat_under(r, v) if v is not None else ():
                c.ob('new-choice', e, name_of(x, name), f'{what}: the choice has the name given', f'{what}: the name of the choice is {show(x, 4)}')
            # recorded with its parent
            if nested:
                rec = [s for s in r.events if s.kind == 'setsub' and strip_st(s.value) is node and s is not e and contains(s.obj, me)
                       and not (strip_st(s.obj).op == 'attr' and strip_st(s.obj).args[1] == D)]
                ok = any(name_of(s.key, name) and not own_cond(s, name) for s in rec)
            else:
                rec = [s for s in r.events if s.kind in ('mutate', 'setsub') and strip_st(s.obj).op == 'attr' and strip_st(s.obj).args[1] == top
                       and any(strip_st(a) is node for a in (s.args or ()) + ((s.value,) if s.kind == 'setsub' else ()))]
                ok = any(not own_cond(s, name) for s in rec)
            (c.ob if rec else c.form)('new-choice', e, ok, f'{what}: the choice is recorded with its {"parent" if nested else "model"}',
                 f'{what}: the choice is not recorded with its {"parent" if nested else "model"}')
            # its place
            k = strip_st(e.key)
            for x in flat_under(r, k):
                if not nested:
                    c.ob('new-choice', e, name_of(x, name), f'{what}: the choice is registered by its full name', f'{what}: registered as {show(x, 5)}')
                else:
                    ok = full_key(x, me, name)
                    if ok is None:
                        c.skip('new-choice', e, show(x, 5))
                    else:
                        c.ob('new-choice', e, ok, f'{what}: the choice is registered by its full name', f'{what}: registered as {show(x, 5)}')
        rv = [x for e in r.events if e.kind == 'return' and e.value is not None and e.frames[-1].qual == fi.qual for x in flat_under(r, e.value)]
        c.ob('new-choice', fi, bool(rv) and all(any(strip_st(x) is strip_st(e.value) for e in reg) for x in rv),
             f'{what}: the new choice is returned', f'{what}: returns {show(rv[0], 4) if rv else "nothing"}')


def other_name(l, name):
    """A comparison of the name with some constant."""
    return l.op == 'cmp' and l.args[0] == '==' and any(name_of(l.args[i], name) and is_const(l.args[3 - i]) for i in (1, 2))


def own_cond(e, name):
    return [g for g, p, k in e.guards if k in ('if', 'sc') and not (not p and k == 'if' and False)]


def flat_under(v, x):
    """Leaves of a value that are possible in a view."""
    return [y for fs, y in flat_phi(v.s(x), v.base) if not infeasible(fs)]


def node_field(c, r, node, prop):
    """The final value of the field behind a property of a node."""
    f = getattr(c, '_node_fields', None)
    if f is None:
        f = c._node_fields = {}
    if prop not in f:
        g = c.run(f'{NODE_}.{prop}')
        x = strip_st(g.value)
        f[prop] = x.args[1] if x.op == 'attr' and strip_st(x.args[0]) is SELF(g) else None
    return final(r, node, f[prop]) if f[prop] else None


def plus_one(x, me):
    x = uncast(x)
    if x.op != 'bin' or x.args[0] != '+':
        return False
    for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
        if is_const(b, 1) and strip_st(a).op == 'attr' and strip_st(a).args[1] in ('level', '_level') and strip_st(strip_st(a).args[0]) is me:
            return True
    return False


def full_key(x, me, name):
    """True if a key is the full name of the node followed by '.' and the name."""
    x = strip_st(x)
    parts = str_parts(x)
    if parts is None:
        return None
    if len(parts) == 3 and is_const(parts[1], '.') and name_of(parts[2], name):
        p = strip_st(parts[0])
        if p.op == 'attr' and p.args[1] == 'full_name' and strip_st(p.args[0]) is me:
            return True
        if p.op == 'attr' and p.args[1] in ('name', '_name'):
            return False
        return None
    if contains(x, name) and contains(x, me):
        return None
    return False


def str_parts(x):
    x = strip_st(x)
    if x.op == 'fstr':
        out = []
        for a in x.args:
            if isinstance(a, str):
                out.append(const(a))
            elif isinstance(a, T):
                out.extend(str_parts(a) or [a])
        return out
    if x.op == 'bin' and x.args[0] == '+':
        a, b = str_parts(x.args[1]), str_parts(x.args[2])
        return None if a is None or b is None else a + b
    if callname(x) == '.join' and is_const(x.args[1]):
        y = strip_st(callargs(x)[0])
        y = strip_alloc(y) if y.op == 'alloc' else y
        if y.op in ('lit', 'tup'):
            out = []
            for a in [z for z in y.args if isinstance(z, T)]:
                if out:
                    out.append(x.args[1])
                out.append(a)
            return out
        return None
    return [x]


def interval_settings(c):
    g = c.p.functions.get(f'{NODE_}.logsum_scale.setter')
    if g is None:
        c.skip('valid-scale', c.p.fn(f'{NODE_}.__init__'), 'no setter')
    else:
        r = c.run(g)
        v = r.params[g.node.args.args[1].arg]
        sets = [e for e in r.events if e.kind == 'setattr' and strip_st(e.obj) is SELF(r)]
        c.ob('valid-scale', g, bool(sets), 'a logsum scale is kept')
        for e in sets:
            in_unit(c, 'valid-scale', e, e.facts(), v, 'logsum_scale')
            for fs, x in flat_phi(e.value):
                c.ob('valid-scale', e, same_number(x, v), 'the scale is the one given', f'the scale becomes {show(x, 4)}')
    g = c.p.fn(f'{MODEL}.precision.setter')
    r = c.run(g)
    v = r.params[g.node.args.args[1].arg]
    sets = [e for e in r.events if e.kind == 'setattr' and strip_st(e.obj) is SELF(r)]
    c.ob('valid-precision', g, bool(sets), 'the precision is kept')
    for e in sets:
        vals = values_of(e.facts(), v)
        if vals is None:
            unk = [l for l, p in lits(e.facts()) if contains(l, v)]
            if unk:
                c.skip('valid-precision', e, show(unk[0], 5))
            else:
                c.ob('valid-precision', e, False, 'precision is 4 or 8', 'any precision is accepted')
        else:
            c.ob('valid-precision', e, vals == {4, 8}, 'precision is 4 or 8', f'precision can be {sorted(vals)}')
        for fs, x in flat_phi(e.value):
            c.ob('valid-precision', e, uncast(x) is v, 'the precision is the one given', f'the precision becomes {show(x, 4)}')
    g = c.p.fn(f'{MODEL}.__init__')
    r = c.run(g)
    pr = [n for n in r.params if n == 'precision']
    sets = [e for e in r.events if e.kind == 'propset' and e.key == 'precision' or e.kind == 'setattr' and e.key == '_precision' and not is_const(e.value)]
    if pr:
        through = [e for e in sets if any(contains(x, r.params['precision']) for x in [e.value])]
        ok = bool(through) and all(e.kind == 'propset' or values_of(e.facts(), r.params['precision']) is not None for e in through)
        c.ob('valid-precision', g, ok, 'the precision of a new model is checked', 'the precision of a new model is not checked' if through else
             'the precision of a new model is dropped')


def values_of(facts, x):
    """The finite set of constants a value is restricted to, or None."""
    for l, p in lits(facts):
        if l.op == 'or' and p and all(z.op == 'cmp' and z.args[0] == '==' and (z.args[1] is x and is_const(z.args[2]) or z.args[2] is x
                                                                              and is_const(z.args[1])) for z in l.args):
            return {cval(z.args[2] if z.args[1] is x else z.args[1]) for z in l.args}
        if l.op == 'cmp' and l.args[0] == '==' and p and (l.args[1] is x and is_const(l.args[2])):
            return {cval(l.args[2])}
        if l.op == 'cmp' and l.args[0] == 'in' and p and l.args[1] is x:
            y = strip_st(l.args[2])
            y = strip_alloc(y) if y.op == 'alloc' else y
            vs = [z for z in y.args if isinstance(z, T)]
            if y.op in ('lit', 'tup') and vs and all(is_const(z) for z in vs):
                return {cval(z) for z in vs}
    return None


RESERVED = ('NAN', 'OUT', 'NEG_INF')


def declared(c):
    """A symbol is declared under its name, with the settings asked for, unless the name is reserved."""
    sf = scope_field(c)
    for kind, cls in (('number', 'NumberSymbol'), ('vector', 'VectorSymbol'), ('table', 'TableSymbol'), ('matrix', 'MatrixSymbol')):
        fi = c.p.fn(f'{MODEL}.declare_{kind}')
        r = c.run(fi)
        me = SELF(r)
        name = r.params[fi.node.args.args[1].arg]
        regs = [e for e in r.events if e.kind == 'setsub' and strip_st(e.obj).op == 'attr' and strip_st(e.obj).args[1] == sf]
        what = f'declare_{kind}'
        c.ob('declared', fi, bool(regs) or any(e.kind == 'mutate' for e in r.events), f'{what}: the symbol is declared', f'{what}: nothing is declared')
        for e in regs:
            ls = lits(e.facts())
            got = {cval(l.args[2]) if l.args[1] is name else cval(l.args[1]) for l, p in ls
                   if l.op == 'cmp' and l.args[0] == '==' and not p and name in l.args[1:] and any(is_const(z) for z in l.args[1:])}
            unk = [l for l, p in ls if contains(l, name) and not (l.op == 'cmp' and l.args[0] == '==') and l.op not in ('or', 'and')
                   and not contains(l, me)]
            missing = [w for w in RESERVED if w not in got]
            if missing and unk:
                c.skip('reserved-names', e, show(unk[0], 5))
            else:
                c.ob('reserved-names', e, not missing, f'{what}: reserved names are refused', f'{what}: the reserved name {missing[0] if missing else ""} is accepted')
            c.ob('declared', e, strip_st(e.key) is name, f'{what}: under its name', f'{what}: under {show(e.key, 3)}')
            cond = [g for g, p, k in e.guards if k == 'if']
            new = strip_st(e.value)
            if not (new.op == 'alloc' and strip_alloc(new).op == 'new'):
                c.skip('declared', e, show(new, 4))
                continue
            c.ob('declared', e, strip_alloc(new).args[0] == f'cheval.api.{cls}', f'{what}: of its kind', f'{what}: a {strip_alloc(new).args[0]}')
            ri, fields = init_fields(c, f'cheval.api.{cls}')
            for F, v in fields.items():
                ps = [n for n, p in ri.params.items() if contains(v, p) and p is not SELF(ri)]
                if not ps:
                    continue
                want = ps[0]
                fv = final(r, new, F)
                if want in ('parent',):
                    c.ob('declared-settings', e, fv is not None and strip_st(fv) is me, f'{what}: belongs to the model', f'{what}: belongs to {show(fv, 3) if fv is not None else "?"}')
                    continue
                if want not in r.params:
                    c.skip('declared-settings', e, f'{want} is not an option')
                    continue
                c.ob('declared-settings', e, fv is not None and contains(fv, r.params[want]) and not any(
                    contains(fv, p) for n, p in r.params.items() if n != want and n != 'self'),
                    f'{what}: {want} is as asked for', f'{what}: {F} is {show(fv, 4) if fv is not None else "not set"}')
            for a in ('orientation',):
                if a in r.params:
                    vals = values_of(e.facts(), r.params[a])
                    other = [l for l, p in ls if contains(l, r.params[a])]
                    if vals is None and other:
                        c.skip('declared-settings', e, show(other[0], 4))
                    else:
                        c.ob('declared-settings', e, vals == {0, 1}, f'{what}: orientation is 0 or 1', f'{what}: orientation can be {sorted(vals) if vals else "anything"}')


def replaced(c, D):
    """A choice that replaces another of the same place takes all of the choices below the other one with it."""
    top = top_field(c)
    for q, nested in ((f'{MODEL}.add_choice', False), (f'{NODE_}.add_choice', True)):
        fi = c.p.fn(q)
        r = c.run(fi, noinline=('full_name',))
        me = SELF(r)
        r = View(r, ((cmp('Is', me, NONE), False),))
        name = r.params[fi.node.args.args[1].arg]
        what = 'ChoiceNode.add_choice' if nested else 'ChoiceModel.add_choice'

        def is_reg(o):
            o = strip_st(o)
            return o.op == 'attr' and o.args[1] == D
        keys = [strip_st(y) for e in r.events if e.kind == 'setsub' and is_reg(e.obj) for y in flat_under(r, e.key)]
        found = []
        for e in r.events:
            if e.loops and (e.kind == 'delsub' and is_reg(e.obj) or e.kind == 'mutate' and e.op in ('pop', '__delitem__') and is_reg(e.obj)):
                found.append((e, e.loops[-1], lits(e.facts())))
            if e.kind == 'setattr' and e.key == D:
                b = built(e.value)
                if b is not None and b[0] in LOOPS:
                    found.append((e, b[0], [(x, not p) for cnd in (b[2] or ()) for x, p in literals(cnd)]))
        if not found:
            other = [e for e in r.events if e.loops and e.kind in ('enter', 'call') and e.fi is not None and e.fi.qual.startswith('cheval.')]
            if other:
                c.skip('replaced', other[0], 'descendants may be removed by a call')
            else:
                c.ob('replaced', fi, False, f'{what}: descendants of a replaced choice are removed', f'{what}: the descendants of a replaced choice stay in the tree')
            continue
        for e, k, ls in found:
            L = LOOPS[k]
            ps = [(l, p) for l, p in ls if callname(l) == '.startswith']
            if not ps:
                c.skip('replaced', e, 'descendants are found in another way')
                continue
            l, p = ps[-1]
            pre = callargs(l)[0]
            parts = None
            for x in flat_under(r, pre):
                parts = str_parts(x)
                ok = None
                if parts is not None:
                    ends = is_const(parts[-1]) and str(cval(parts[-1])).endswith('.')
                    body = parts[:-1]
                    same = any(body == (str_parts(y) or []) for y in keys)
                    ok = True if ends and same else False if not ends else None
                if ok is None:
                    c.skip('replaced', e, show(x, 5))
                else:
                    c.ob('replaced', e, ok and p and not L.has_break, f'{what}: exactly the descendants of a replaced choice are removed',
                         f'{what}: choices whose name starts with {show(x, 5)} are removed')
            base = strip_st(l.args[1])
            extra = [g for g, q2, kk in e.guards if kk in ('if', 'sc') and g is not l and not contains(g, l)]
            early = [g for g in extra if not any(z.op == 'iv' for z in walk(g, True))]
            hard = [g for g in early if not (g.op == 'cmp' and g.args[0] == 'in')]
            if hard:
                c.skip('replaced', e, show(hard[0], 5))
        if not nested:
            rem = [e for e in r.events if e.kind == 'mutate' and e.op in ('remove', 'discard', 'pop') and strip_st(e.obj).op == 'attr'
                   and strip_st(e.obj).args[1] == top]
            setn = [e for e in r.events if e.kind in ('setsub', 'setattr') and (e.key == top or strip_st(e.obj).op == 'attr' and strip_st(e.obj).args[1] == top)]
            good = [e for e in rem if not [g for g, p, k in e.guards if k in ('if', 'sc') and not (
                any(z.op == 'cmp' and z.args[0] in ('in', 'is') and contains(z, name) for z in walk(g, True)))]]
            if setn and not rem:
                c.skip('replaced', setn[0], 'the top level is a mapping or made anew')
            else:
                c.ob('replaced', rem[0] if rem else fi, bool(good), f'{what}: a replaced choice leaves the top level',
                     f'{what}: a replaced choice stays in the top level')


def batch(c):
    """add_choices adds every name, with the scale at the same place or 1."""
    fi = c.p.fn(f'{MODEL}.add_choices')
    r = c.run(fi, noinline=('full_name',))
    top = top_field(c)
    names = r.params[fi.node.args.args[1].arg]
    scales = r.params[fi.node.args.args[2].arg]
    for given in (False, True):
        r_ = c.run(fi, noinline=('full_name',), facts=((cmp('Is', scales, NONE), not given),),
                   bind={} if given else {fi.node.args.args[2].arg: NONE})
        v = View(r_, ((cmp('Is', scales, NONE), not given),))
        calls = [e for e in v.events if e.kind == 'enter' and e.fi is not None and e.fi.qual == f'{NODE_}.__init__']
        what = f'add_choices {"with" if given else "without"} scales'
        c.ob('batch', fi, bool(calls), f'{what}: choices are added', f'{what}: nothing is added')
        for e in calls:
            if not e.loops:
                c.skip('batch', e, 'not in a loop')
                continue
            L = LOOPS[e.loops[-1]]
            a = arg_of(e, 'name')
            s = arg_of(e, 'logsum_scale')
            # conditions on the element under which it is not added (those that lead to an error are no such thing)
            refused = {(g, not p) for x in r_.events if x.kind == 'raise' for g, p, k in x.guards}
            conds = [g for g, p, k in e.guards if k in ('if', 'sc', 'survive') and any(z.op == 'iv' for z in walk(g, True))
                     and (g, p) not in refused]
            c.ob('batch', e, not conds and not L.has_break, f'{what}: every name is added', f'{what}: some names are left out')
            once(c, e, r_, names, f'{what}: names')
            if given:
                once(c, e, r_, scales, f'{what}: scales')
            ok = a is not None and elem_of(a, names, e.loops[-1])
            if ok is None:
                c.skip('batch', e, show(a, 5))
            else:
                c.ob('batch', e, ok, f'{what}: under its name', f'{what}: the name is {show(a, 4) if a is not None else "?"}')
            # and found among the choices at the top
            rec = [x for x in v.events if x.kind in ('mutate', 'setsub') and x.loops and x.loops[0] == e.loops[0]
                   and strip_st(x.obj).op == 'attr' and strip_st(x.obj).args[1] == top and x.op in ('add', 'append', 'insert', 'extend', 'update', None)]
            after = [x for x in v.events if x.kind in ('mutate', 'setattr', 'setsub', 'aug') and not x.loops
                     and (strip_st(x.obj).op == 'attr' and strip_st(x.obj).args[1] == top or x.kind == 'setattr' and x.op == top)]
            if rec or not after:
                c.ob('batch', rec[0] if rec else e, any(all((g, p) in {(h, q) for h, q, _ in e.guards} for g, p, k in x.guards
                                                             if k in ('if', 'sc') and any(z.op == 'iv' for z in walk(g, True))) for x in rec),
                     f'{what}: every choice is recorded with the model', f'{what}: choices are not recorded with the model')
            else:
                c.skip('batch', after[0], 'recorded after the loop')
            if given:
                ok = s is not None and elem_of(s, scales, e.loops[-1])
                if ok is None:
                    c.skip('batch', e, show(s, 5))
                else:
                    c.ob('batch', e, ok, f'{what}: with its scale', f'{what}: the scale is {show(s, 4) if s is not None else "1"}')
            elif s is not None:
                one = [y for y in walk(s, True) if y.op == 'const' and is_number(y)]
                if is_const(s):
                    c.ob('batch', e, is_const(s, 1, 1.0), f'{what}: with scale 1', f'{what}: the scale is {show(s, 4)}')


def once(c, e, r, seq, what):
    """An iterable may be a generator: it can be gone through once and has no length."""
    uses = {}
    for x in r.events:
        if x.kind == 'iter' and x.obj is seq:
            uses[(x.loc, x.node.col_offset)] = x
        elif x.kind == 'call' and x.func is not None and x.func.op == 'glob' and x.args and any(a is seq for a in x.args):
            if x.func.args[0] == 'builtins.len':
                c.ob('batch', x, False, '', f'{what} need a length')
            elif x.func.args[0] in CONSUMERS:
                uses[(x.loc, x.node.col_offset)] = x
    c.ob('batch', e, len(uses) <= 1, f'{what} may be a generator', f'{what} are gone through {len(uses)} times, which a generator cannot be')


CONSUMERS = {f'builtins.{x}' for x in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'dict', 'sum', 'min', 'max', 'any', 'all', 'zip',
                                       'enumerate', 'map', 'filter')} | {'numpy.array', 'pandas.Index', 'pandas.Series'}


def elem_of(x, seq, k):
    """True: the element of a sequence at the position of the loop; False: surely not; None: not known."""
    x = uncast(strip_st(x))
    if x.op == 'sub':
        b = strip_st(x.args[0])
        b = strip_alloc(b) if b.op == 'alloc' else b
        while callname(b) in ('list', 'builtins.list', 'tuple', 'builtins.tuple') and callargs(b):
            b = strip_st(callargs(b)[0])
        i = uncast(x.args[1])
        if b is seq and i.op == 'iv' and i.args[0] == k:
            return True
        if b is seq and not contains(i, seq) and i.op in ('const', 'bin'):
            return False
        return None if contains(x, seq) else False
    return None if contains(x, seq) else False


RULES = {'P18': p18, 'P19': p19}
