"""Linked frames: lookups, aggregations, joins, slices and fill values, by the meaning of witness programs."""
from __future__ import annotations

import ast

from .lib import *
from .frames import LDF, FrameInterp, add_source, glob
from .dtypes import TYPES_OF, DtypeInterp, all_types
from .points import GARBAGE, ROW, Points, Split, Unknown

MD = 'cheval.ldf.missing_data'
TYPES = ('INT_NAME', 'UINT_NAME', 'FLOAT_NAME', 'BOOL_NAME', 'TEXT_NAME', 'CAT_NAME', 'TIME_NAME', 'OBJ_NAME')
ANY = ('any',)
COLS = ('k', 'm', 'n', 'v', 'w')
LINKS = ('a', 'b', 'c')


def dtype(name):
    return glob(f'{MD}.PandasDtype.{name}')


class Witness:
    """A witness program and what is known about its result."""

    def __init__(self, c, name, src, what, unique=None, kind='INT_NAME', facts=(), noinline=(), types=None, keys=None, flat=True, calls=None,
                 closed=False, given=None):
        self.c, self.name, self.what = c, name, what
        mod = f'witness_{name}'
        add_source(c.p, mod, src)
        fi = c.p.functions[f'{mod}.{name}']
        kinds = kind if callable(kind) else lambda x: kind
        calls = dict(calls or {})
        if kind is not None:
            c.p.fn(f'{MD}.infer_dtype')
            calls['infer_dtype'] = lambda it, args, kw: dtype(kinds(args[0]))
        self.it = FrameInterp(c.p, unique=dict({'d': True, 'dx': True, 'dy': True, 'dz': True}, **(unique or {})), columns=COLS, links=LINKS,
                              keys=keys or {}, flat=flat, calls=calls, noinline=noinline, closed=closed,
                              given=given or {})
        self.r = self.it.run(fi, facts=facts, types=types)
        c.functions |= {f for f in self.it.functions_seen if not f.startswith('witness')}
        c.n_events += len(self.r.events)
        self.value = None if self.r.state is None or self.r.value is None or self.r.value.op == 'undef' else self.r.value

    def raises(self):
        return [e for e in self.r.events if e.kind == 'raise' and not any(k == 'except' for g, p, k in e.guards)]

    def where(self, qual):
        return self.c.p.fn(qual)


def text(v):
    """A meaning as text."""
    if not isinstance(v, tuple):
        return repr(v)
    if v == ROW:
        return 'row'
    if v == ANY:
        return 'each row'
    k = v[0]
    if k == 'col':
        return f'{v[1]}.{v[2]}[{text(v[3])}]'
    if k == 'level':
        return f'{v[1]}.index.{v[2]}[{text(v[3])}]'
    if k == 'label':
        return f'{v[1]}.index[{text(v[2])}]'
    if k == 'found':
        return f'row of {text(v[1])} == {text(v[2])}'
    if k in ('keys', 'groups'):
        return f'({", ".join(text(x) for x in v[1:])})'
    if k == 'const':
        return repr(v[1])
    if k == 'value':
        return str(v[1])
    if k == 'pick':
        return f'{v[1]}[{text(v[2])}]'
    if k == 'garbage':
        return 'an arbitrary value'
    if k == 'agg':
        return f'{v[1]} of {text(v[2])} where {text(v[3])} == {text(v[4])}'
    return f'{k}({", ".join(text(x) for x in v[1:])})'


def key(side, d, p):
    """The key of a row by the columns ('on', ...) or levels ('levels', ...) or the index (None)."""
    if p in (GARBAGE, ('missing',)):
        return GARBAGE
    if side is None:
        return ('label', d, p)
    how, names = side
    names = names if isinstance(names, (list, tuple)) else [names]
    ks = tuple(('col', d, n, p) if how == 'on' else ('level', d, n, p) for n in names)
    return ks[0] if len(ks) == 1 else ('keys',) + ks


def follow(P, hops, start, col, fill):
    """What a lookup over several links has to give: hops = [(self data, side, other data, side)]."""
    pos = start
    for d, s, o, s2 in hops:
        pos = P.found(key(s2, o, ANY), key(s, d, pos))
        if pos == ('missing',):
            return fill
    return ('col', hops[-1][2], col, pos)


def compare(c, rule, W, qual, want, index='d', start=ROW, none=()):
    """Obligations: the result of a witness has the wanted meaning in all cases and belongs to the rows of the frame."""
    fi = c.p.fn(qual)
    if W.value is None:
        rs = W.raises()
        c.ob(rule, rs[0] if rs else fi, False, '', f'{W.what}: refused')
        return
    for e in W.raises():
        hit = [g for g, p, k in e.guards if any(x.op == 'mcall' and x.args[0] == 'get_indexer' for x in walk(g, True))]
        if hit:
            c.ob(rule, e, False, '', f'{W.what}: refused because of the rows that are found ({show(hit[0], 4)})')
    P = Points(W.r)
    P.none = set(none)
    try:
        cases = P.cases(lambda: (P.at(W.value, ROW), want(P)))
        if index is not None:
            P.miss = {}
            P.aligned = set()
            ix = P.at(t('attr', W.value, 'index'), ROW)
            c.ob(rule, fi, ix == ('label', index, start), f'{W.what}: the result has the index of the frame',
                 f'{W.what}: the result has the index {text(ix)}')
    except (Unknown, Split) as u:
        c.skip(rule, fi, f'{W.what}: {u}'[:300])
        return
    for miss, (got, wanted) in cases:
        cond = ' and '.join(f'{text(k[2])} is {"" if not m else "not "}in {text(k[1])}' for k, m in miss.items())
        c.ob(rule, fi, got == wanted, f'{W.what}: {cond or "always"}: {text(wanted)}',
             f'{W.what}: {cond or "always"}: {text(got)} instead of {text(wanted)}')
    return cases


def written(c, rule, W, qual):
    """Nothing is stored into the data of a frame."""
    P = Points(W.r)
    for e in W.r.events:
        if e.kind not in ('setsub', 'mutate', 'delsub'):
            continue
        x = strip_st(e.obj)
        data = base_data(P, x)
        if data is not None:
            c.ob(rule, e, False, '', f'{W.what}: writes into the data of {data}')


def base_data(P, x, depth=0):
    """The frame whose data an array may share, if any."""
    x = strip_st(x)
    if depth > 20:
        return None
    if x.op == 'phi':
        return base_data(P, x.args[1], depth + 1) or base_data(P, x.args[2], depth + 1)
    if x.op == 'sub' and P.frame(x.args[0]) is not None:
        f = P.frame(x.args[0])
        return f[1] if f[0] == 'frame' else 'the frame'
    if x.op == 'mcall' and x.args[0] in ('to_numpy', 'view', 'ravel', 'reshape'):
        if any(n == 'copy' and not is_const(v, False) for n, v in x.args[3]):
            return None
        return base_data(P, x.args[1], depth + 1)
    if x.op == 'attr' and x.args[1] in ('values', 'array', 'T'):
        return base_data(P, x.args[0], depth + 1)
    if x.op == 'sub' and x.args[1].op == 'slice':
        return base_data(P, x.args[0], depth + 1)
    if x.op == 'call' and callname(x) in ('numpy.asarray', 'numpy.ravel'):
        return base_data(P, x.args[1][0], depth + 1)
    return None


# ------------------------------------------------------------------------------------------------ P41
def arg(name, side):
    if side is None:
        return ''
    how, names = side
    n = {('on', 'self'): 'on_self', ('on', 'other'): 'on_other', ('levels', 'self'): 'self_levels',
         ('levels', 'other'): 'other_levels'}[(how, name)]
    return f', {n}={names!r}'


SIDES = [None, ('on', 'k'), ('levels', 'l'), ('on', ['k', 'm']), ('levels', ['l', 'q'])]


def width(s):
    return 1 if s is None or not isinstance(s[1], list) else len(s[1])


def chain_src(name, hops, kinds, lookup, precompute=(), extra=''):
    """Program that links frames one after the other and looks a column up."""
    out = [f'def {name}(d, {", ".join("d" + x for x in "xyz"[:len(hops)])}{extra}):', '    f = LinkedDataFrame(d)']
    names = ['f'] + list('xyz')
    for i, k in enumerate(kinds):
        n = names[i + 1]
        out.append(f'    {n} = {"LinkedDataFrame" if k else "pd.DataFrame"}(d{n})')
    for i, (s, o) in enumerate(hops):
        pc = f', precompute={precompute[i]}' if i < len(precompute) else ''
        out.append(f'    {names[i]}.link_to({names[i + 1]}, {"abc"[i]!r}{arg("self", s)}{arg("other", o)}{pc})')
    out += [f'    {x}' for x in lookup]
    return '\n'.join(out) + '\n'


def hops_of(hops, start='d'):
    ds = [start, 'dx', 'dy', 'dz']
    return [(ds[i], s, ds[i + 1], o) for i, (s, o) in enumerate(hops)]


def p41(c):
    q = f'{LDF}.__getitem__'
    c.p.fn(f'{LDF}.link_to')
    n = 0
    acc = [['return f["a"]["v"]'], ['return f.a.v']]
    # one link, every kind of key on both sides
    for s in SIDES:
        for o in SIDES:
            if width(s) != width(o) or (s is None or o is None) and width(s or o) != 1:
                continue
            for ldf in (False, True):
                n += 1
                W = Witness(c, f'one{n}', chain_src(f'one{n}', [(s, o)], [ldf], acc[n % 2]),
                            f'lookup over a link by {says(s)} to {says(o)} of a {"linked" if ldf else "plain"} frame', unique={'d': n % 3 > 0})
                compare(c, 'lookup', W, q, lambda P: follow(P, hops_of([(s, o)]), ROW, 'v', ('const', 0)))
                written(c, 'target-unchanged', W, q)
    # several links
    K, M, L = ('on', 'k'), ('on', 'm'), ('levels', 'l')
    for hops in ([(K, M), (M, K)], [(None, K), (L, None)], [(K, None), (K, L)], [(K, K), (M, M), (L, L)],
                 [(('on', ['k', 'm']), ('levels', ['l', 'q'])), (None, ('on', 'n')), (K, None)]):
        for last in (False, True):
            for style in (0, 1):
                n += 1
                path = 'abc'[:len(hops)]
                look = 'return f' + ''.join(f'["{x}"]' if style == 0 else f'.{x}' for x in path) + ('["v"]' if style == 0 else '.v')
                W = Witness(c, f'many{n}', chain_src(f'many{n}', hops, [True] * (len(hops) - 1) + [last], [look]),
                            f'lookup over {len(hops)} links ({"; ".join(says(s) + " to " + says(o) for s, o in hops)})')
                compare(c, 'path', W, q, lambda P: follow(P, hops_of(hops), ROW, 'v', ('const', 0)))
                written(c, 'target-unchanged', W, q)
    # a target without rows
    for hops, none in (([(K, K)], 'dx'), ([(None, None)], 'dx'), ([(L, ('on', 'k'))], 'dx'), ([(K, M), (M, K)], 'dx'), ([(K, M), (M, K)], 'dy')):
        for last in (False, True):
            n += 1
            W = Witness(c, f'none{n}', chain_src(f'none{n}', hops, [True] * (len(hops) - 1) + [last], ['return f' + ''.join(f'.{x}' for x in 'abc'[:len(hops)]) + '.v']),
                        f'lookup over {len(hops)} links of which {none[1:]} has no rows')
            compare(c, 'no-rows', W, q, lambda P: follow(P, hops_of(hops), ROW, 'v', ('const', 0)), none=(none,))
    # a node may be kept and used for several lookups
    for what, look in (('a second column of the same link', ['p = f.a', 'u = p.v', 'return p.w']),
                       ('a column after a longer path', ['p = f.a', 'u = p.b.v', 'return p.w']),
                       ('the same column again', ['p = f.a', 'u = p.w', 'return p.w']),
                       ('a column of a link that was used before', ['u = f.a.w', 'u2 = f.a.b.v', 'return f.a.w'])):
        n += 1
        hops = [(K, M), (M, K)]
        W = Witness(c, f'again{n}', chain_src(f'again{n}', hops, [True, False], look), what)
        compare(c, 'repeated', W, q, lambda P: follow(P, hops_of(hops[:1]), ROW, 'w', ('const', 0)))
    n += 1
    W = Witness(c, f'again{n}', chain_src(f'again{n}', hops, [True, False], ['p = f.a.b', 'u = f.a.w', 'return p.v']), 'a node used after another lookup')
    compare(c, 'repeated', W, q, lambda P: follow(P, hops_of(hops), ROW, 'v', ('const', 0)))
    # two links to the same frame and two links of one frame
    src = '''def two(d, dx, dy):
    f = LinkedDataFrame(d)
    x = pd.DataFrame(dx)
    y = pd.DataFrame(dy)
    f.link_to(x, 'a', on='k')
    f.link_to(y, 'b', on='m')
    f.link_to(x, 'c', on_self='m', on_other='k')
    u = f.b.v
    w = f.c.v
    return %s
'''
    for e, (o, s1, s2) in {'f.a.v': ('dx', 'k', 'k'), 'f.b.v': ('dy', 'm', 'm'), 'f.c.v': ('dx', 'm', 'k'), 'u': ('dy', 'm', 'm'),
                           'w': ('dx', 'm', 'k')}.items():
        n += 1
        W = Witness(c, f'two{n}', (src % e).replace('def two', f'def two{n}'), f'{e} with several links')
        compare(c, 'links-separate', W, q, lambda P: follow(P, [('d', ('on', s1), o, ('on', s2))], ROW, 'v', ('const', 0)))
    # a link that is defined again
    n += 1
    W = Witness(c, f'two{n}', f'''def two{n}(d, dx, dy):
    f = LinkedDataFrame(d)
    x = pd.DataFrame(dx)
    y = pd.DataFrame(dy)
    f.link_to(x, 'a', on='k')
    u = f.a.v
    f.link_to(y, 'a', on='m')
    return f.a.v
''', 'a link that is defined again')
    compare(c, 'links-separate', W, q, lambda P: follow(P, [('d', ('on', 'm'), 'dy', ('on', 'm'))], ROW, 'v', ('const', 0)))


def says(s):
    return 'the index' if s is None else f'{"columns" if s[0] == "on" else "levels"} {s[1]}' if isinstance(s[1], list) else \
        f'{"column" if s[0] == "on" else "level"} {s[1]}'


# ------------------------------------------------------------------------------------------------ P42
def keys_of(s, o):
    return {'d': [key(s, 'd', ROW)], 'dx': [key(o, 'dx', ROW)]}


def returned(W):
    """The members of an enumeration that a result can be."""
    v = W.value
    return [x for f, x in flat_phi(v, ())] if v is not None else []


def exception(e):
    v = strip_alloc(strip_st(e.value)) if e.value is not None else None
    while v is not None and v.op == 'call':
        v = v.args[0]
    return v.args[0].rsplit('.', 1)[-1] if v is not None and v.op in ('new', 'glob', 'cls') else '?'


def refused(c, rule, W, qual, classes=None, why=''):
    """The witness is refused on every path, by an exception of one of these classes."""
    fi = c.p.fn(qual)
    if W.value is not None:
        if any(y.op == 'cmp' and y.args[0] == 'in' or y.op == 'exists' for e in W.raises() for g, p, k in e.guards for y in walk(g, True)):
            c.skip(rule, fi, f'{W.what}: refused on some paths')
        else:
            c.ob(rule, fi, False, '', f'{W.what}: accepted{why}')
        return
    for e in W.raises()[-1:]:
        x = exception(e)
        c.ob(rule, e, classes is None or x in classes, f'{W.what}: refused by {"/".join(classes or ["an error"])}',
             f'{W.what}: refused by {x} instead of {"/".join(classes or [])}')
    if not W.raises():
        c.ob(rule, fi, False, '', f'{W.what}: no result and no error')


def agg_follow(P, hops, last, func, value, fill, extra=()):
    """Value of an aggregation over a link, after lookups over other links."""
    pos = ROW
    for d, s, o, s2 in hops:
        pos = P.found(key(s2, o, ANY), key(s, d, pos))
        if pos == ('missing',):
            return fill
    d, s, o, s2 = last
    g = key(s2, o, ANY)
    k = key(s, d, pos)
    if P.found(('groups', g), k) == ('missing',):
        return fill
    return ('agg', func, value, g, k) + ((extra,) if extra else ())


JOINS = [(None, None), (('on', 'k'), ('on', 'k')), (None, ('on', 'm')), (('on', 'k'), None), (('levels', 'l'), ('on', 'k')),
         (('on', ['k', 'm']), ('levels', ['l', 'q'])), (('on', ['m', 'k']), ('on', ['k', 'm']))]


def p42(c):
    q = f'{LDF}.link_to'
    c.p.fn(q)
    n = 0
    for s, o in JOINS:
        for pc in ('True', 'False'):
            for us, uo in ((True, True), (True, False), (False, True), (False, False)):
                for ldf in (True, False):
                    n += 1
                    join = f'def agg{n}(d, dx):\n    f = LinkedDataFrame(d)\n    x = {"LinkedDataFrame" if ldf else "pd.DataFrame"}(dx)\n' \
                           f'    r = f.link_to(x, "a"{arg("self", s)}{arg("other", o)}, precompute={pc})\n'
                    what = f'link by {says(s)} ({"" if us else "not "}unique) to {says(o)} ({"" if uo else "not "}unique), precompute={pc}'
                    mk = dict(unique={'d': us, 'dx': uo}, keys=keys_of(s, o))
                    W = Witness(c, f'agg{n}', join + '    return r\n', what, **mk)
                    if not us and not uo:
                        refused(c, 'many-to-many', W, q, ('RuntimeError', 'LinkageSpecificationError', 'ValueError'))
                        continue
                    got = returned(W)
                    if W.value is None or any(x.op != 'glob' for x in got):
                        if W.value is None:
                            c.ob('required', c.p.fn(q), False, '', f'{what}: refused')
                        else:
                            c.skip('required', c.p.fn(q), f'{what}: {show(W.value, 4)}')
                    else:
                        want = 'YES' if not uo else 'NO'
                        c.ob('required', c.p.fn(q), {x.args[0].rsplit('.', 1)[-1] for x in got} == {want},
                             f'{what}: aggregation is {"" if want == "YES" else "not "}required',
                             f'{what}: link_to says {", ".join(x.args[0].rsplit(".", 1)[-1] for x in got)}')
                    n += 1
                    look = 'f.a.sum("v")' if not uo else 'f.a.v'
                    W = Witness(c, f'agg{n}', join.replace(f'agg{n - 1}', f'agg{n}') + f'    return {look}\n', f'{what}: {look}', **mk)
                    compare(c, 'behaves', W, q, lambda P: agg_follow(P, [], ('d', s, 'dx', o), 'sum', ('col', 'dx', 'v', ANY), ('const', -1))
                            if not uo else follow(P, [('d', s, 'dx', o)], ROW, 'v', ('const', 0)))
                    if not uo:
                        n += 1
                        W = Witness(c, f'agg{n}', join.replace(f'agg{n - 2}', f'agg{n}') + '    return f.a.v\n',
                                    f'{what}: a column without aggregation', **mk)
                        refused(c, 'not-without', W, q, ('AttributeError', 'KeyError', 'LinkageSpecificationError'))
    # links of linked frames: the last link decides
    K, M = ('on', 'k'), ('on', 'm')
    for hops in ([(K, K), (M, M)], [(None, None), (K, M)], [(K, K), (M, M), (K, None)]):
        n += 1
        last = 'xyz'[len(hops) - 1]
        path = '.'.join('abc'[:len(hops)])
        W = Witness(c, f'agg{n}', chain_src(f'agg{n}', hops, [True] * len(hops), [f'return f.{path}.sum("v")']),
                    f'aggregation after {len(hops) - 1} other links', unique={f'd{last}': False})
        hs = hops_of(hops)
        compare(c, 'path', W, q, lambda P: agg_follow(P, hs[:-1], hs[-1], 'sum', ('col', hs[-1][2], 'v', ANY), ('const', -1)))
        written(c, 'target-unchanged', W, q)


# ------------------------------------------------------------------------------------------------ P47
NUMERIC = ('max', 'min', 'mean', 'median', 'prod', 'std', 'sum', 'var', 'quantile')
OTHER = ('count', 'first', 'last', 'nth')


def p47(c):
    q = f'{LDF}._LeafAggregation._Aggregator.__call__'
    try:
        c.p.fn(q)
    except Broken:
        q = f'{LDF}.__getitem__'
    K = ('on', 'k')
    n = 0

    def run(look, what, kind='INT_NAME', ldf=True, extra='', pre='True'):
        nonlocal n
        n += 1
        src = f'def fn{n}(d, dx{extra}):\n    f = LinkedDataFrame(d)\n    x = {"LinkedDataFrame" if ldf else "pd.DataFrame"}(dx)\n' \
              f'    f.link_to(x, "a", on="k", precompute={pre})\n    return {look}\n'
        return Witness(c, f'fn{n}', src, what, unique={'dx': False}, kind=kind, noinline=('evaluate',))

    def want(func, value, fill, *extra):
        return lambda P: agg_follow(P, [], ('d', K, 'dx', K), func, value, fill, extra)
    V = ('col', 'dx', 'v', ANY)
    for func in NUMERIC + OTHER:
        for kind in TYPES:
            W = run(f'f.a.{func}("v")', f'{func} of a column of type {kind[:-5].lower()}', kind)
            if func in NUMERIC and kind not in ('INT_NAME', 'UINT_NAME', 'FLOAT_NAME', 'BOOL_NAME'):
                refused(c, 'non-numeric', W, q, ('RuntimeError', 'TypeError', 'ValueError', 'NotImplementedError'))
            elif kind == 'TIME_NAME':
                if W.value is not None:
                    compare(c, 'aggregated', W, q, want(func, V, ('value', 'numpy.datetime64')))
                continue
            else:
                compare(c, 'aggregated', W, q, want(func, V, ('const', -1 if kind in ('INT_NAME', 'UINT_NAME', 'BOOL_NAME') else 'nan')))
                written(c, 'target-unchanged', W, q)
    for func in ('mode', 'v', 'apply', 'head', 'a', 'agg', 'SUM', 'sums'):
        refused(c, 'supported-only', run(f'f.a.{func}("v")', f'f.a.{func}'), q, ('AttributeError',))
    for ldf in (True, False):
        for pre in ('True', 'False'):
            kind = 'linked' if ldf else 'plain'
            ev = ('eval', 'dx', 'v + w', ANY)
            W = run('f.a.max("v + w")', f'maximum of an expression over a {kind} frame, precompute={pre}', 'FLOAT_NAME', ldf, pre=pre)
            compare(c, 'expression', W, q, want('max', ev, ('const', 'nan')))
            W = run('f.a.max("v")', f'maximum of a column of a {kind} frame, precompute={pre}', 'FLOAT_NAME', ldf, pre=pre)
            compare(c, 'expression', W, q, want('max', V, ('const', 'nan')))
    for kind, fill in (('INT_NAME', ('value', 'z')), ('UINT_NAME', ('value', 'z')), ('BOOL_NAME', ('value', 'z')), ('FLOAT_NAME', ('const', 'nan'))):
        W = run('f.a.min("v", int_fill=z)', f'minimum of a column of type {kind[:-5].lower()} with int_fill', kind, extra=', z')
        compare(c, 'fill', W, q, want('min', V, fill))
    W = run('f.a.quantile("v", q=z)', 'quantile with an argument', 'FLOAT_NAME', extra=', z')
    compare(c, 'arguments', W, q, want('quantile', V, ('const', 'nan'), ('q', 'z')))
    W = run('f.a.count()', 'count without an expression')
    compare(c, 'arguments', W, q, want('count', ('eval', 'dx', '1', ANY), ('const', -1)))
    # the type that counts is the type of what is aggregated
    for e, v in (('v', V), ('v + w', ('eval', 'dx', 'v + w', ANY))):
        n += 1
        src = f'def fn{n}(d, dx):\n    f = LinkedDataFrame(d)\n    x = LinkedDataFrame(dx)\n    f.link_to(x, "a", on="k")\n    return f.a.sum({e!r})\n'

        def kind(x, e=e):
            x = strip_alloc(strip_st(x))
            while x.op == 'phi' or callname(x) == 'pandas.Series':
                x = strip_alloc(strip_st(x.args[1] if x.op == 'phi' else x.args[1][0]))
            mine = x.op == 'sub' and is_const(x.args[1], e) or x.op == 'mcall' and x.args[0] in ('evaluate', 'eval')
            return 'INT_NAME' if mine else 'TEXT_NAME'
        W = Witness(c, f'fn{n}', src, f'sum of "{e}"', unique={'dx': False}, kind=kind, noinline=('evaluate',))
        compare(c, 'type', W, q, lambda P: agg_follow(P, [], ('d', K, 'dx', K), 'sum', v, ('const', -1)))
    # an aggregation may be kept and used again
    n += 1
    W = Witness(c, f'fn{n}', f'''def fn{n}(d, dx):
    f = LinkedDataFrame(d)
    x = LinkedDataFrame(dx)
    f.link_to(x, "a", on="k")
    p = f.a
    u = p.max("w")
    return p.sum("v")
''', 'a second aggregation over the same link', unique={'dx': False})
    compare(c, 'repeated', W, q, want('sum', V, ('const', -1)))


RULES = {'P41': p41, 'P42': p42, 'P47': p47}


# ------------------------------------------------------------------------------------------------ P43
def p43(c):
    q = f'{LDF}.compute_indexers'
    c.p.fn(q)
    look = f'{LDF}.__getitem__'
    K = ('on', 'k')
    n = 0

    def run(lines, what, unique=None, params='', s=K, o=K, pre='False', ldf=True):
        nonlocal n
        n += 1
        src = f'def ix{n}(d, dx{params}):\n    f = LinkedDataFrame(d)\n    x = {"LinkedDataFrame" if ldf else "pd.DataFrame"}(dx)\n' \
              f'    f.link_to(x, "a"{arg("self", s)}{arg("other", o)}, precompute={pre})\n' + ''.join(f'    {x}\n' for x in lines)
        return Witness(c, f'ix{n}', src, what, unique=unique)
    steps = {'lazily': [], 'after compute_indexers()': ['f.compute_indexers()'],
             'after compute_indexers(refresh=False)': ['f.compute_indexers(refresh=False)'],
             'after compute_indexers() twice': ['f.compute_indexers()', 'f.compute_indexers(refresh=True)'],
             'for the second time': ['u = f.a.w'], 'after a lookup and compute_indexers()': ['u = f.a.w', 'f.compute_indexers()'],
             'after a lookup and compute_indexers(refresh=False)': ['u = f.a.w', 'f.compute_indexers(False)']}
    for pre in ('False', 'True'):
        for s, o in JOINS:
            for ldf in (True, False):
                for what, ls in steps.items():
                    W = run(ls + ['return f.a.v'], f'precompute={pre}, by {says(s)} to {says(o)}: lookup {what}', s=s, o=o, pre=pre, ldf=ldf)
                    compare(c, 'same-lookup', W, look, lambda P: follow(P, [('d', s, 'dx', o)], ROW, 'v', ('const', 0)))
                    if what != 'lazily' and pre == 'True' and s != K:
                        continue
                    W = run([x.replace('f.a.w', 'f.a.max("w")') for x in ls] + ['return f.a.sum("v")'],
                            f'precompute={pre}, by {says(s)} to {says(o)}: aggregation {what}', {'dx': False}, s=s, o=o, pre=pre, ldf=ldf)
                    compare(c, 'same-aggregation', W, look, lambda P: agg_follow(P, [], ('d', s, 'dx', o), 'sum', ('col', 'dx', 'v', ANY), ('const', -1)))
    # other keys
    A = ('elem', 'arr1', ANY)
    new = lambda P, col='v', fill=('const', 0): pos_or(P, P.found(key(K, 'dx', ANY), ('elem', 'arr1', ROW)), col, fill)    # noqa: E731
    newx = lambda P, col='v': pos_or(P, P.found(A, key(K, 'd', ROW)), col, ('const', 0))    # noqa: E731
    old = lambda P: follow(P, [('d', K, 'dx', K)], ROW, 'v', ('const', 0))    # noqa: E731
    for pre in ('False', 'True'):
        for used in ([], ['u = f.a.w']):
            for refresh in ('', 'refresh=True', 'True'):
                W = run(used + ['f["k"] = arr1', f'f.compute_indexers({refresh})', 'return f.a.v'],
                        f'precompute={pre}, {"used, " if used else ""}keys changed and refreshed', params=', arr1', pre=pre)
                compare(c, 'refreshed', W, q, new)
                W = run(used + ['x["k"] = arr1', f'f.compute_indexers({refresh})', 'return f.a.v'],
                        f'precompute={pre}, {"used, " if used else ""}keys of the target changed and refreshed', params=', arr1', pre=pre)
                compare(c, 'refreshed', W, q, newx)
                W = run([x.replace('f.a.w', 'f.a.max("w")') for x in used] + ['f["k"] = arr1', f'f.compute_indexers({refresh})', 'return f.a.sum("v")'],
                        f'precompute={pre}, {"used, " if used else ""}keys changed and refreshed, aggregation', params=', arr1', pre=pre, unique={'dx': False})
                compare(c, 'refreshed', W, q, lambda P: agg_key(P, key(K, 'dx', ANY), ('elem', 'arr1', ROW)))
                W = run([x.replace('f.a.w', 'f.a.max("w")') for x in used] + ['x["k"] = arr1', f'f.compute_indexers({refresh})', 'return f.a.sum("v")'],
                        f'precompute={pre}, {"used, " if used else ""}keys of the target changed and refreshed, aggregation', params=', arr1', pre=pre,
                        unique={'dx': False})
                compare(c, 'refreshed', W, q, lambda P: agg_key(P, A, key(K, 'd', ROW)))
            if pre == 'False' and not used:
                W = run(['f["k"] = arr1', 'f.compute_indexers(refresh=False)', 'return f.a.v'], 'a link that was not used yet, after a change of keys',
                        params=', arr1', pre=pre)
                compare(c, 'not-computed', W, q, new)
                W = run(['f["k"] = arr1', 'return f.a.v'], 'a link that was not used yet, after a change of keys', params=', arr1', pre=pre)
                compare(c, 'not-computed', W, q, new)
            else:
                W = run(used + ['f["k"] = arr1', 'f.compute_indexers(refresh=False)', 'return f.a.v'], f'precompute={pre}, {"used, " if used else ""}'
                        'keys changed, only missing indexers computed', params=', arr1', pre=pre)
                compare(c, 'kept', W, q, old)
    # all links of a frame
    for call in ('f.compute_indexers()', 'f.compute_indexers(refresh=True)'):
        for name, o in (('a', 'dx'), ('b', 'dy'), ('c', 'dx')):
            n += 1
            src = f'''def ix{n}(d, dx, dy, arr1):
    f = LinkedDataFrame(d)
    x = LinkedDataFrame(dx)
    y = pd.DataFrame(dy)
    f.link_to(x, "a", on="k")
    f.link_to(y, "b", on="k")
    f.link_to(x, "c", on_self="k", on_other="m", precompute=False)
    f["k"] = arr1
    {call}
    return f.{name}.v
'''
            W = Witness(c, f'ix{n}', src, f'link {name} of three, keys changed and refreshed')
            k2 = ('on', 'm') if name == 'c' else K

            def third(P):
                p = P.found(key(k2, o, ANY), ('elem', 'arr1', ROW))
                return ('const', 0) if p == ('missing',) else ('col', o, 'v', p)
            compare(c, 'all-links', W, q, third)
            W = Witness(c, f'ix{n}s', src.replace(f'def ix{n}', f'def ix{n}s').replace('f["k"] = arr1', 'x["v"] = arr1').replace(f'f.{name}.v', 'f.link_summary()'), 'three links')
            summary(c, W, f'{LDF}.link_summary', {'preindexed': [True] * 3, 'chained': [True, False, True]})
    # current values
    for pre in ('False', 'True'):
        for used in ([], ['u = f.a.v']):
            W = run(used + ['x["v"] = arr1', 'return f.a.v'], f'precompute={pre}, {"used, " if used else ""}values of the target changed', params=', arr1', pre=pre)

            def cur(P):
                p = P.found(key(K, 'dx', ANY), key(K, 'd', ROW))
                return ('const', 0) if p == ('missing',) else ('elem', 'arr1', p)
            compare(c, 'current-values', W, look, cur)
    # link_summary says which links are computed
    s = f'{LDF}.link_summary'
    c.p.fn(s)
    for pre in ('False', 'True'):
        for ls, want in ((['r = 0'], pre == 'True'), (['u = f.a.v'], True), (['f.compute_indexers()'], True), (['f.compute_indexers(refresh=False)'], True)):
            W = run(ls + ['return f.link_summary()'], f'precompute={pre}, {ls[0]}', pre=pre)
            summary(c, W, s, {'preindexed': want, 'aggregation': False, 'chained': True})


def pos_or(P, pos, col, fill):
    return fill if pos == ('missing',) else ('col', 'dx', col, pos)


def agg_key(P, g, k):
    if P.found(('groups', g), k) == ('missing',):
        return ('const', -1)
    return ('agg', 'sum', ('col', 'dx', 'v', ANY), g, k)


def summary(c, W, qual, want):
    fi = c.p.fn(qual)
    if W.value is None:
        c.ob('summary', fi, False, '', f'{W.what}: link_summary fails')
        return
    x = strip_alloc(strip_st(W.value))
    while callname(x) in ('.set_index', '.copy'):
        x = strip_alloc(strip_st(x.args[1]))
    W.it.s = W.r.state
    ps = W.it.pairs(callargs(x)[0]) if callname(x) == 'pandas.DataFrame' and callargs(x) else None
    if ps is None:
        c.skip('summary', fi, show(x, 5))
        return
    for name, v in want.items():
        xs = [W.it.elems(b) for a, b in ps if is_const(a, name)]
        if not xs or xs[0] is None:
            if not xs:
                c.ob('summary', fi, False, '', f'{W.what}: link_summary does not say {name}')
            else:
                c.skip('summary', fi, f'{W.what}: {name}')
            continue
        got = xs[0]
        vs = v if isinstance(v, list) else [v]
        if all(is_const(g) for g in got):
            c.ob('summary', fi, [bool(cval(g)) for g in got] == vs, f'{W.what}: {name} is {vs}',
                 f'{W.what}: link_summary says {name}={[cval(g) for g in got]}')
        else:
            c.skip('summary', fi, f'{W.what}: {name} is {show(got[0], 4)}')


RULES['P43'] = p43


# ------------------------------------------------------------------------------------------------ P45
ERRORS = ('LinkageSpecificationError', 'KeyError', 'ValueError', 'TypeError')


def p45(c):
    q = f'{LDF}.link_to'
    c.p.fn(q)
    n = 0

    def run(args, what, look='f.a.v', other='x', before=(), keep=False, params='', unique=None, name='"a"', flat=True):
        nonlocal n
        n += 1
        link = f'f.link_to({other}, {name}, {args})'
        src = f'def to{n}(d, dx, dy{params}):\n    f = LinkedDataFrame(d)\n    x = pd.DataFrame(dx)\n    y = LinkedDataFrame(dy)\n' + \
              ''.join(f'    {b}\n' for b in before) + \
              (f'    try:\n        {link}\n    except Exception:\n        pass\n' if keep else f'    {link}\n') + f'    return {look}\n'
        return Witness(c, f'to{n}', src, what, unique=unique, flat=flat)
    on, lv = (lambda *a: ('on', list(a) if len(a) > 1 else a[0])), (lambda *a: ('levels', list(a) if len(a) > 1 else a[0]))
    good = [('on="k"', on('k'), on('k')), ('on=["k"]', on('k'), on('k')), ('on=["k", "m"]', on('k', 'm'), on('k', 'm')),
            ('on=["m", "k", "n"]', on('m', 'k', 'n'), on('m', 'k', 'n')), ('on=("m", "k")', on('m', 'k'), on('m', 'k')),
            ('levels="l"', lv('l'), lv('l')), ('levels=["q", "l"]', lv('q', 'l'), lv('q', 'l')), ('levels=0', lv(0), lv(0)), ('levels=1', lv(1), lv(1)),
            ('levels=[1, 0]', lv(1, 0), lv(1, 0)), ('self_levels=0, other_levels=1', lv(0), lv(1)), ('self_levels=1, on_other="k"', lv(1), on('k')),
            ('on_self="k"', on('k'), None), ('on_other="k"', None, on('k')), ('self_levels="l"', lv('l'), None), ('other_levels="l"', None, lv('l')),
            ('on="k", on_self="m"', on('k'), on('k')), ('on="k", on_other="m"', on('k'), on('k')), ('on="k", on_self="m", on_other="n"', on('k'), on('k')),
            ('levels="l", self_levels="q"', lv('l'), lv('l')), ('levels="l", other_levels=["q", "l"]', lv('l'), lv('l')),
            ('levels=0, self_levels=1', lv(0), lv(0)), ('on_self=["k", "m"], on_other=["m", "k"]', on('k', 'm'), on('m', 'k')),
            ('on_self=["k", "m"], other_levels=["l", "q"]', on('k', 'm'), lv('l', 'q')), ('on_self="m", on_other="m"', on('m'), on('m')),
            ('on=["k"], levels=None', on('k'), on('k')), ('on=None, levels="l"', lv('l'), lv('l')), ('on_self="m", on_other="k", precompute=False', on('m'), on('k'))]
    for other, o in (('x', 'dx'), ('y', 'dy')):
        for args, s1, s2 in good:
            W = run(args, f'link_to({args})', other=other)
            compare(c, 'meaning', W, q, lambda P: follow(P, [('d', s1, o, s2)], ROW, 'v', ('const', 0)))
    # names that are no identifiers
    for nm in ('a b', 'a-1', '2'):
        W = run('on="k"', f'a link named {nm!r}', look=f'f[{nm!r}].v', name=repr(nm))
        compare(c, 'names', W, q, lambda P: follow(P, [('d', on('k'), 'dx', on('k'))], ROW, 'v', ('const', 0)))
    bad = [('on="k", levels="l"', 'columns and levels'), ('on_self="k", self_levels="l"', 'columns and levels of the frame'),
           ('on_other="k", other_levels="l"', 'columns and levels of the target'), ('on="k", self_levels="l"', 'columns and levels of the frame'),
           ('on="k", other_levels=0', 'columns and levels of the target'), ('levels="l", on_self="k"', 'columns and levels of the frame'),
           ('levels=0, on_other="k"', 'columns and levels of the target'), ('on_self=["k", "m"], on_other="k"', 'two columns and one'),
           ('on_self="k", on_other=["k", "m"]', 'one column and two'), ('self_levels=["l", "q"], on_other="k"', 'two levels and one column'),
           ('on_self="k", other_levels=[0, 1]', 'one column and two levels'), ('on_self=["k", "m"], on_other=["k", "m", "n"]', 'two columns and three'),
           ('on="no such"', 'an unknown column'), ('on_self="no such", on_other="k"', 'an unknown column of the frame'),
           ('on_self="k", on_other="no such"', 'an unknown column of the target'), ('on_self=["k", "no such"], on_other=["k", "m"]', 'an unknown column of the frame'),
           ('on_self=["k", "m"], on_other=["no such", "m"]', 'an unknown column of the target'),
           ('levels="no such"', 'an unknown level'), ('self_levels="no such", on_other="k"', 'an unknown level of the frame'),
           ('on_self="k", other_levels="no such"', 'an unknown level of the target'), ('on="k", levels=0', 'columns and levels')]
    for pre in ('', ', precompute=False'):
        for args, what in bad:
            W = run(args + pre, f'link_to({args}{pre}), {what}')
            refused(c, 'refused', W, q, ERRORS)
            W = run(args + pre, f'link_to({args}{pre}) for a name in use', other='y', before=['f.link_to(x, "a", on="m")'], keep=True)
            compare(c, 'refused-unchanged', W, q, lambda P: follow(P, [('d', on('m'), 'dx', on('m'))], ROW, 'v', ('const', 0)))
            W = run(args + pre, f'links after the refused link_to({args}{pre})', keep=True)
            refused(c, 'refused-unchanged', W, q, None)
        W = run('on="k"' + pre, 'many-to-many for a name in use', other='y', before=['f.link_to(x, "a", on="m")'], keep=True, unique={'d': False, 'dy': False})
        compare(c, 'refused-unchanged', W, q, lambda P: follow(P, [('d', on('m'), 'dx', on('m'))], ROW, 'v', ('const', 0)))
    # conditions that depend on the frames
    W = run('on="k"', 'a target with several levels of columns', flat=False)
    nl = [(e, g, p) for e in W.raises() for g, p, k in e.guards for x in walk(g, True) if x.op == 'attr' and x.args[1] == 'nlevels'
          and x.args[0].op == 'attr' and x.args[0].args[1] == 'columns']
    ok = [e for e, g, p in nl if nlevels_above(g, p)]
    if ok or not any(e for e, g, p in nl):
        c.ob('refused', ok[0] if ok else c.p.fn(q), bool(ok) and exception(ok[0]) in ERRORS + ('NotImplementedError',), f'{W.what} is refused', f'{W.what} is accepted')
    else:
        c.skip('refused', nl[0][0], show(nl[0][1], 5))
    for args, side in (('on_self="k"', 'dx'), ('on_other="k"', 'd'), ('self_levels=["l", "q"]', 'dx'), ('precompute=True', None)):
        W = run(args, f'link_to({args}) with an index of several levels')
        ev = [(e, g) for e in W.raises() for g, p, k in e.guards for x in walk(g, True) if x.op == 'attr' and x.args[1] in ('nlevels',)
              and x.args[0].op == 'attr' and x.args[0].args[1] == 'index']
        c.ob('refused', ev[0][0] if ev else c.p.fn(q), bool(ev), f'{W.what} is refused unless the numbers of levels agree', f'{W.what} is not refused')


def nlevels_above(g, p):
    """Does a literal say that a number of levels is not 1?"""
    if g.op == 'not':
        return nlevels_above(g.args[0], not p)
    if g.op != 'cmp':
        return False
    op, a, b = g.args
    return op == '==' and (is_const(a, 1) or is_const(b, 1)) and not p or op == '<' and is_const(a, 1) and p or op == '<=' and is_const(b, 1) and not p


RULES['P45'] = p45


# ------------------------------------------------------------------------------------------------ P44
FILLS = {'INT_NAME': 0, 'UINT_NAME': 0, 'FLOAT_NAME': 'nan', 'BOOL_NAME': False, 'TEXT_NAME': '', 'CAT_NAME': 'nan', 'TIME_NAME': 'nat', 'OBJ_NAME': None}


def fill_of(kind):
    return ('const', FILLS[kind])


def p44(c):
    q = f'{LDF}._LinkNode.__getitem__'
    plain = f'{LDF}._LinkLeaf.__getitem__'
    sets, temp, reset, colq = (f'{LDF}.{x}' for x in ('set_fill_defaults', 'temporary_fill_defaults', 'reset_fill_defaults', 'set_column_fill'))
    for x in (q, plain, sets, temp, reset, colq):
        c.p.fn(x)
    n = 0

    def run(lines, what, rule, fill, at, kind='INT_NAME', look='f.a.v', other='LinkedDataFrame', before=(), pre='', two=False, ret=None):
        nonlocal n
        n += 1
        col = look.rsplit('.', 1)[1]
        link = [f'f.link_to(x, "a", on="k"{pre})'] + (['x.link_to(y, "b", on="k")', 'f.link_to(z, "c", on="k")'] if two else [])
        src = f'def fill{n}(d, dx, dy):\n' + ''.join(f'    {x}\n' for x in list(before) + ['f = LinkedDataFrame(d)', f'x = {other}(dx)'] +
                                                     (['y = LinkedDataFrame(dy)', 'z = pd.DataFrame(dy)'] if two else []) + link +
                                                     list(lines) + [f'return {ret or look}'])
        W = Witness(c, f'fill{n}', src, what, kind=kind)
        K = ('on', 'k')
        hops = {'a': [('d', K, 'dx', K)], 'c': [('d', K, 'dy', K)], 'b': [('d', K, 'dx', K), ('dx', K, 'dy', K)]}[look.rsplit('.', 2)[1]]
        compare(c, rule, W, at, lambda P: follow(P, hops, ROW, col, ('const', fill) if not isinstance(fill, tuple) else fill))
        return W
    other_kind = {k: TYPES[(i + 1) % len(TYPES)] for i, k in enumerate(TYPES)}
    for k in TYPES:
        d = FILLS[k]
        for cls in ('LinkedDataFrame', 'pd.DataFrame'):
            at = q if cls == 'LinkedDataFrame' else plain
            for pre in ('', ', precompute=False'):
                run([], f'{k} of a {cls}{pre}', 'default', d, at, kind=k, other=cls, pre=pre)
        run([], f'{k} over two links', 'default', d, q, kind=k, look='f.a.b.v', two=True)
        # instance
        for look, want, what in (('f.a.v', 77, 'the frame'), ('f.a.b.v', d, 'another frame'), ('f.c.v', d, 'a plain frame')):
            run([f'x.set_fill_defaults({k}=77)'], f'{k} set for one frame, lookup in {what}', 'instance', want, sets, kind=k, look=look, two=True)
        run([f'x.set_fill_defaults({other_kind[k]}=77)'], f'{k} after {other_kind[k]} was set', 'instance', d, sets, kind=k)
        run([f'x.set_fill_defaults({other_kind[k]}=77, {k}=78)'], f'{k} set together with {other_kind[k]}', 'instance', 78, sets, kind=k)
        run([f'x.set_fill_defaults({k}=77)', f'x.set_fill_defaults({other_kind[k]}=78)'], f'{k} set, then {other_kind[k]}', 'instance', 77, sets, kind=k)
        run([f'x.set_fill_defaults({k}=77)', f'x.set_fill_defaults({k}=78)'], f'{k} set twice', 'instance', 78, sets, kind=k)
        run([f'f.set_fill_defaults({k}=77)'], f'{k} set for the frame that has the link', 'instance', d, sets, kind=k)
        run(['u = f.a.v', f'x.set_fill_defaults({k}=77)'], f'{k} set after a lookup', 'instance', 77, sets, kind=k)
        # class
        run([], f'{k} set for the class, new frame', 'class', 77, sets, kind=k, before=[f'LinkedDataFrame.set_fill_defaults({k}=77)'])
        run([], f'{k} set for the class, plain frame', 'class', 77, sets, kind=k, before=[f'LinkedDataFrame.set_fill_defaults({k}=77)'], other='pd.DataFrame')
        run([], f'{k} after {other_kind[k]} was set for the class', 'class', d, sets, kind=k, before=[f'LinkedDataFrame.set_fill_defaults({other_kind[k]}=77)'])
        run([f'LinkedDataFrame.set_fill_defaults({k}=77)'], f'{k} set for the class, frame that exists', 'class', d, sets, kind=k)
        run([f'LinkedDataFrame.set_fill_defaults({k}=77)'], f'{k} set for the class, plain frame that is linked', 'class', 77, sets, kind=k, other='pd.DataFrame')
        run([f'x.set_fill_defaults({k}=78)'], f'{k} set for the class, then for a new frame', 'class', 78, sets, kind=k,
            before=[f'LinkedDataFrame.set_fill_defaults({k}=77)'])
        run([f'x.set_fill_defaults({k}=78)'], f'{k} set for the class, then for another new frame', 'class', 77, sets, kind=k, look='f.a.b.v', two=True,
            before=[f'LinkedDataFrame.set_fill_defaults({k}=77)'])
        # column
        run(['x.set_column_fill("v", 5)'], f'{k}, fill of the column', 'column', 5, colq, kind=k)
        run(['x.set_column_fill("v", 5)'], f'{k}, fill of another column', 'column', d, colq, kind=k, look='f.a.w')
        run(['x.set_column_fill("v", 5)'], f'{k}, fill of the column of another frame', 'column', d, colq, kind=k, look='f.a.b.v', two=True)
        run(['y.set_column_fill("v", 5)'], f'{k}, fill of the column at the end of the path', 'column', 5, colq, kind=k, look='f.a.b.v', two=True)
        run(['x.set_column_fill("v", 5)', f'x.set_fill_defaults({k}=77)'], f'{k}, fill of the column before that of the type', 'column', 5, colq, kind=k)
        run([f'x.set_fill_defaults({k}=77)', 'x.set_column_fill("v", 5)'], f'{k}, fill of the column after that of the type', 'column', 5, colq, kind=k)
        run([f'x.set_fill_defaults({k}=77)', 'x.set_column_fill("v", 5)'], f'{k}, fill of another column and of the type', 'column', 77, colq, kind=k, look='f.a.w')
        run(['x.set_column_fill("v", 5)', 'x.reset_fill_defaults()'], f'{k}, fill of the column after a reset', 'column', 5, reset, kind=k)
        for value in ('None', 'False', '0', '""'):
            run([f'x.set_column_fill("v", {value})', f'x.set_fill_defaults({k}=77)'], f'{k}, {value} as fill of the column', 'column', ast.literal_eval(value), colq, kind=k)
        # reset
        run([f'x.set_fill_defaults({k}=77)', 'x.reset_fill_defaults()'], f'{k} set and reset', 'reset', d, reset, kind=k)
        run([f'x.set_fill_defaults({k}=77)', 'f.reset_fill_defaults()', 'y.reset_fill_defaults()'], f'{k} set, others reset', 'reset', 77, reset, kind=k, two=True)
        run([f'x.set_fill_defaults({k}=77)', 'LinkedDataFrame.reset_fill_defaults()'], f'{k} set for a frame, class reset', 'reset', 77, reset, kind=k)
        for who in ('x', 'LinkedDataFrame'):
            run([f'{who}.reset_fill_defaults()', f'{who}.set_fill_defaults({k}=77)', 'y.reset_fill_defaults()'], f'{k} reset and set for {who}, another frame reset',
                'reset', d, reset, kind=k, look='f.a.b.v', two=True)
        for cls in ('LinkedDataFrame', 'pd.DataFrame'):
            run([], f'{k} set for the class and reset, {cls}', 'reset', d, reset, kind=k, other=cls,
                before=[f'LinkedDataFrame.set_fill_defaults({k}=77)', 'LinkedDataFrame.reset_fill_defaults()'])
        run([f'x.set_fill_defaults({k}=77)', 'x.reset_fill_defaults()', f'y.set_fill_defaults({k}=78)', f'x.set_fill_defaults({other_kind[k]}=79)'],
            f'{k} reset, then set for another frame', 'reset', d, reset, kind=k, two=True)
        # temporary
        for obj, before, cls in (('x', [], 'LinkedDataFrame'), ('LinkedDataFrame', [], 'pd.DataFrame'), ('x', [f'x.set_fill_defaults({k}=66)'], 'LinkedDataFrame'),
                                 ('LinkedDataFrame', [f'LinkedDataFrame.set_fill_defaults({k}=66)'], 'pd.DataFrame')):
            old, k2 = 66 if before else d, other_kind[k]
            w = f'{k}, {obj}.temporary_fill_defaults{", set before" if before else ""}'

            def tmp(lines, what, fill, ret='u'):
                run(before + lines, f'{w}, {what}', 'temporary', fill, temp, kind=k, other=cls, ret=ret)
            m = f'{obj}.temporary_fill_defaults'
            tmp([f'with {m}({k}=77):\n        u = f.a.v'], 'inside', 77)
            tmp([f'with {m}({k}=77):\n        u = f.a.v'], 'afterwards', old, 'f.a.v')
            tmp([f'with {m}({k2}=77):\n        u = f.a.v'], f'inside, for {k2}', old)
            tmp([f'with {m}({k2}=77):\n        u = f.a.v'], f'afterwards, for {k2}', old, 'f.a.v')
            tmp([f'with {m}({k2}=76, {k}=77):\n        u = f.a.v'], 'inside, two types', 77)
            tmp([f'with {m}({k2}=76, {k}=77):\n        u = f.a.v'], 'afterwards, two types', old, 'f.a.v')
            tmp([f'with {m}({k}=77, {k2}=76):\n        u = f.a.v'], 'afterwards, two types in another order', old, 'f.a.v')
            tmp([f'with {m}({k}=77):\n        with {m}({k}=78):\n            u = f.a.v'], 'inside both', 78)
            tmp([f'with {m}({k}=77):\n        with {m}({k}=78):\n            u = f.a.v\n        u = f.a.v'], 'inside one, after the other', 77)
            tmp([f'with {m}({k}=77):\n        with {m}({k}=78):\n            u = f.a.v\n        u = f.a.v'], 'after both', old, 'f.a.v')
            tmp([f'try:\n        with {m}({k}=77):\n            u = f.a.v\n            raise ValueError("x")\n    except ValueError:\n        pass'],
                'after an error inside', old, 'f.a.v')
            tmp([f'try:\n        with {m}({k}=77):\n            u = f.a.v\n            raise ValueError("x")\n    except ValueError:\n        u = f.a.v'],
                'in the handler of an error inside', old)
            tmp([f'try:\n        with {m}({k}=77, NO_SUCH=78):\n            u = f.a.v\n    except Exception:\n        pass'],
                'refused for an unknown type', old, 'f.a.v')
            tmp([f'with {m}({k}=77):\n        u = f.a.v', f'with {m}({k}=78):\n        u = f.a.v'], 'a second time', 78)
            if obj == 'x':
                run(before + [f'with {m}({k}=77):\n        u = f.c.v'], f'{w}, inside, a plain frame', 'temporary', d, temp, kind=k, two=True, look='f.c.v', ret='u')
                run(before + [f'with {m}({k}=77):\n        u = f.a.b.v'], f'{w}, inside, another frame', 'temporary', d, temp, kind=k, two=True, look='f.a.b.v', ret='u')
            elif not before:
                run([f'with {m}({k}=77):\n        z = 1', 'x = LinkedDataFrame(dx)', 'f.link_to(x, "a", on="k")'], f'{w}, a frame made afterwards', 'temporary', d, temp, kind=k)
                run([f'with {m}({k}=77):\n        x = LinkedDataFrame(dx)', 'f.link_to(x, "a", on="k")'], f'{w}, a frame made inside', 'temporary', 77, temp, kind=k)
    # types that do not exist, columns that do not exist
    for src, at in (('x.set_fill_defaults(NO_SUCH=1)', sets), ('LinkedDataFrame.set_fill_defaults(NO_SUCH=1)', sets), ('x.set_column_fill("no such", 1)', colq)):
        n += 1
        W = Witness(c, f'fill{n}', f'def fill{n}(d, dx):\n    x = LinkedDataFrame(dx)\n    {src}\n    return x\n', src, kind='INT_NAME')
        refused(c, 'unknown', W, at, ('KeyError',))
    # the type of a series
    fi = c.p.fn(f'{MD}.infer_dtype')
    for name, family, accessors in all_types():
        it = DtypeInterp(c.p, fi.params[0], name, family, accessors)
        r = it.run(fi)
        c.functions |= it.functions_seen
        want = dtype(TYPES_OF[family])
        got = {strip_alloc(strip_st(x)) for f, x in flat_phi(r.value, ())} if r.state is not None and r.value is not None else set()
        if any(x.op != 'glob' or not x.args[0].startswith(f'{MD}.PandasDtype.') for x in got):
            c.skip('type', fi, f'a series of {name}: {show(r.value, 5)}')
        else:
            c.ob('type', fi, got == {want}, f'a series of {name} is filled as {want.args[0].rsplit(".", 1)[-1]}',
                 f'a series of {name} is filled as {" or ".join(sorted(x.args[0].rsplit(".", 1)[-1] for x in got)) or "nothing, it fails"}')


RULES['P44'] = p44


# ------------------------------------------------------------------------------------------------ P40
def p40(c):
    q = f'{LDF}.__finalize__'
    hooks = {x: f'{LDF}.{x}' for x in ('_take_with_is_copy', '_slice', '_reindex_with_indexers', 'copy')}
    c.p.fn(q)
    hooks = {n: x if c.p.lookup(LDF, n) is not None else q for n, x in hooks.items()}
    n = 0
    K = ('on', 'k')
    I1, I2 = ('pick', 'arr1', ROW), ('pick', 'arr2', ROW)
    ops = [('g = f._take_with_is_copy(arr1)', I1), ('g = f._take_with_is_copy(arr1, axis=0)', I1), ('g = f._take_with_is_copy(indices=arr1, axis=0)', I1),
           ('g = f._slice(arr1)', I1), ('g = f._slice(arr1, axis=0)', I1), ('g = f._slice(slobj=arr1, axis=0)', I1),
           ('g = f._reindex_with_indexers({0: [lab, arr1]})', I1), ('g = f._reindex_with_indexers({0: [lab, arr1]}, copy=True)', I1),
           ('g = f._reindex_with_indexers({0: [lab, arr1], 1: [lab2, arr2]}, copy=True, allow_dups=True)', I1),
           ('g = f._reindex_with_indexers({1: [lab2, arr2]})', ROW), ('g = f._take_with_is_copy(arr1, axis=1)', ROW), ('g = f._slice(arr1, axis=1)', ROW),
           ('g = f.copy()', ROW), ('g = f.copy(deep=True)', ROW), ('g = f.copy(True)', ROW), ('g = f.copy(deep=False)', ROW)]

    def run(lines, what, rule, at, want, look='g.a.v', s=K, o=K, other='pd.DataFrame', pre='', start=ROW, index='d', unique=None, params=''):
        nonlocal n
        n += 1
        link = f'f.link_to(x, "a"{arg("self", s)}{arg("other", o)}{pre})'
        src = f'def cut{n}(d, dx, dy, arr1, arr2, lab, lab2{params}):\n' + ''.join(f'    {x}\n' for x in [
            'f = LinkedDataFrame(d)', f'x = {other}(dx)', 'y = LinkedDataFrame(dy)', link] + list(lines) + [f'return {look}'])
        W = Witness(c, f'cut{n}', src, what, unique=unique)
        compare(c, rule, W, at, want, start=start, index=index)

    def at_of(op):
        return hooks[op.split('(')[0].rsplit('.', 1)[1]]
    for s in (K, ('on', ['m', 'k']), ('levels', 'l'), ('levels', ['q', 'l']), None):
        for pre in ('', ', precompute=False'):
            for other in ('pd.DataFrame', 'LinkedDataFrame'):
                for used in ([], ['u = f.a.v']):
                    if pre == '' and used:
                        continue
                    for op, pos in ops:
                        w = f'{op}, link by {says(s)}{pre}{", used before" if used else ""}'
                        run(used + [op], w, 'derived', at_of(op), lambda P: follow(P, [('d', s, 'dx', s)], pos, 'v', ('const', 0)), s=s, o=s, other=other, pre=pre, start=pos)
                        if other == 'pd.DataFrame':
                            run([x.replace('f.a.v', 'f.a.max("w")') for x in used] + [op], w + ', aggregation', 'derived-aggregation', at_of(op),
                                lambda P: agg_follow(P, [], ('d', s, 'dx', s), 'sum', ('col', 'dx', 'v', ANY), ('const', -1)) if pos == ROW else
                                agg_at(P, s, pos), look='g.a.sum("v")', s=s, o=s, pre=pre, start=pos, unique={'dx': False})
    # a frame derived from a derived frame
    two = [(a, p) for a, p in ops if '(arr1)' in a or a.endswith('copy()') or 'axis=1' in a]
    for s in (K, ('levels', 'l')):
        for pre in ('', ', precompute=False'):
            for a, pa in two:
                for b, pb in two:
                    b2 = b.replace('arr1', 'arr2').replace('g = f.', 'h = g.')
                    pos = pa if pb == ROW else ('pick', 'arr2', ROW) if pa == ROW else ('pick', 'arr1', I2)
                    for mid in ([], ['u = g.a.v']):
                        run([a] + mid + [b2], f'{a}, {b2}, link by {says(s)}{pre}{", used between" if mid else ""}', 'derived-twice', at_of(a),
                            lambda P: follow(P, [('d', s, 'dx', s)], pos, 'v', ('const', 0)), look='h.a.v', s=s, o=s, pre=pre, start=pos)
    # other ways to derive a frame: its own rows count
    for s in (K, ('on', ['m', 'k']), ('levels', 'l'), None):
        for pre in ('', ', precompute=False'):
            for used in ([], ['u = f.a.v']):
                for args in ('f', 'f, method="sort_values"', 'f, method="concat"', 'f, method=None', 'other=f'):
                    run(used + [f'g = LinkedDataFrame(d2).__finalize__({args})'], f'finalize({args}) of other rows, link by {says(s)}{pre}{", used before" if used else ""}',
                        'other-rows', q, lambda P: follow(P, [('d2', s, 'dx', s)], ROW, 'v', ('const', 0)), s=s, o=s, pre=pre, index='d2', params=', d2')
                run([x.replace('f.a.v', 'f.a.max("w")') for x in used] + ['g = LinkedDataFrame(d2).__finalize__(f)'],
                    f'finalize of other rows, link by {says(s)}{pre}{", used before" if used else ""}, aggregation', 'other-rows', q,
                    lambda P: agg_follow(P, [], ('d2', s, 'dx', s), 'sum', ('col', 'dx', 'v', ANY), ('const', -1)), look='g.a.sum("v")', s=s, o=s, pre=pre,
                    index='d2', params=', d2', unique={'dx': False})
    run(['g = LinkedDataFrame(d).__finalize__(y)', 'g.link_to(x, "a", on="k")'], 'finalize with a frame without links', 'other-rows', q,
        lambda P: follow(P, [('d', K, 'dx', K)], ROW, 'v', ('const', 0)))
    run(['g = LinkedDataFrame(d).__finalize__(x)', 'g.link_to(x, "a", on="k")'], 'finalize with a plain frame', 'other-rows', q,
        lambda P: follow(P, [('d', K, 'dx', K)], ROW, 'v', ('const', 0)))
    # the frames and their links are separate
    own = lambda P: follow(P, [('d', K, 'dx', K)], ROW, 'v', ('const', 0))    # noqa: E731
    for pre in ('', ', precompute=False'):
        for op, pos in two + [('g = LinkedDataFrame(d2).__finalize__(f)', None)]:
            kw = {'params': ', d2'} if pos is None else {}
            d, p0 = ('d2', ROW) if pos is None else ('d', pos)
            start = {'start': p0, 'index': d}
            at = q if pos is None else at_of(op)
            sep = dict(pre=pre, **kw)

            def der(P, name='dx', how=K):
                return follow(P, [(d, how, name, how)], p0, 'v', ('const', 0))
            M = ('on', 'm')
            run([op], f'{op}{pre}, the frame itself', 'separate', at, own, look='f.a.v', **sep)
            run([op, 'u = g.a.v'], f'{op}{pre}, used, the frame itself', 'separate', at, own, look='f.a.v', **sep)
            run([op, 'u = f.a.v'], f'{op}{pre}, after a use of the frame itself', 'separate', at, der, **sep, **start)
            run([op, 'g.link_to(y, "a", on="m")'], f'{op}{pre}, link replaced there, the frame itself', 'separate', at, own, look='f.a.v', **sep)
            run([op, 'g.link_to(y, "a", on="m")'], f'{op}{pre}, link replaced there', 'separate', at, lambda P: der(P, 'dy', M), **sep, **start)
            run([op, 'f.link_to(y, "a", on="m")'], f'{op}{pre}, link of the frame replaced afterwards', 'separate', at, der, **sep, **start)
            run(['f.link_to(y, "a", on="m")', op], f'{op}{pre}, link of the frame replaced before', 'separate', at, lambda P: der(P, 'dy', M), **sep, **start)
            run(['f.link_to(y, "b", on="m")', op], f'{op}{pre}, two links', 'separate', at, der, **sep, **start)
            run(['f.link_to(y, "b", on="m")', op], f'{op}{pre}, second of two links', 'separate', at, lambda P: der(P, 'dy', M), look='g.b.v', **sep, **start)
            for call in ('compute_indexers()', 'compute_indexers(refresh=True)', 'compute_indexers(refresh=False)'):
                run([op, f'g.{call}'], f'{op}{pre}, then {call}', 'refreshed', at, der, **sep, **start)
                run([op, f'f.{call}'], f'{op}{pre}, then {call} of the frame itself', 'refreshed', at, der, **sep, **start)
                run([op, f'g.{call}'], f'{op}{pre}, then {call}, the frame itself', 'refreshed', at, own, look='f.a.v', **sep)
            # later changes of one of the two frames
            run([op, 'g["k"] = arr3', 'g.compute_indexers()'], f'{op}{pre}, column changed there, the frame itself', 'separate', at, own, look='f.a.v',
                pre=pre, params=kw.get('params', '') + ', arr3')
            run([op, 'u = g.a.v', 'g["k"] = arr3', 'g.compute_indexers()'], f'{op}{pre}, used, column changed there, the frame itself', 'separate', at, own,
                look='f.a.v', pre=pre, params=kw.get('params', '') + ', arr3')
            for used in ([], ['u = g.a.v'], ['u = f.a.v']):
                run([op] + used + ['g["k"] = arr3', 'g.compute_indexers()'], f'{op}{pre}, {used[0] + ", " if used else ""}column changed there', 'refreshed', at,
                    lambda P: pos_or(P, P.found(key(K, 'dx', ANY), ('elem', 'arr3', ROW)), 'v', ('const', 0)),
                    pre=pre, params=kw.get('params', '') + ', arr3', **start)
    # a derived frame as target, also of frames with links of their own
    for op, pos in two:
        if pos not in (ROW, I1):
            continue
        op2 = op.replace('g = f.', 'z = y.')

        def end(P):
            p = P.found(key(K, 'dy', ('pick', 'arr1', ANY) if pos == I1 else ANY), key(K, 'd', ROW))
            if p == ('missing',):
                return ('const', 0)
            p = ('pick', 'arr1', p) if pos == I1 else p
            return follow(P, [('dy', K, 'dx', K)], p, 'v', ('const', 0))
        for pre in ('', ', precompute=False'):
            run([f'y.link_to(x, "b", on="k"{pre})', op2, f'f.link_to(z, "c", on="k"{pre})'], f'{op2} as target{pre}', 'target', at_of(op), end, look='f.c.b.v')
    # the result of a grouping: rows of the frame only if they have the same keys
    for s in (K, ('on', ['m', 'k']), ('levels', 'l'), None):
        for pre in ('', ', precompute=False'):
            for used in ([], ['u = f.a.v']):
                for unique in (True, False):
                    n += 1
                    src = f'def cut{n}(d, dx, d2):\n' + ''.join(f'    {x}\n' for x in [
                        'f = LinkedDataFrame(d)', 'x = pd.DataFrame(dx)', f'f.link_to(x, "a"{arg("self", s)}{arg("other", s)}{pre})'] + used +
                        ['g = LinkedDataFrame(d2).__finalize__(f, method="groupby")', 'return g.a.v'])
                    regrouped(c, f'cut{n}', src, f'groupby, link by {says(s)}{pre}{", used before" if used else ""}{"" if unique else ", index not unique"}', q, unique,
                              lambda P: follow(P, [('d2', s, 'dx', s)], ROW, 'v', ('const', 0)))


class Equal(Points):
    """Meanings when some elements are known to be equal."""

    def __init__(self, r):
        super().__init__(r)
        self.same, self.subset = [], False      # equal elements; are all labels those of rows of the frame?

    def norm(self, v):
        for a, b in self.same:
            if v == b:
                return a
        if not isinstance(v, tuple):
            return v
        if v[0] in ('label', 'level') and isinstance(v[-1], tuple) and v[-1][0] == 'found' and v[-1][1] == ('label', v[1], ANY) and \
                isinstance(v[-1][2], tuple) and v[-1][2][0] == 'label':
            return v[:1] + (v[-1][2][1],) + v[2:-1] + (v[-1][2][2],)
        return tuple(self.norm(x) for x in v)

    def found(self, keys, key):
        if self.subset and keys == ('label', 'd', ANY):
            return ('found', keys, key)
        return ('missing',) if super().found(keys, self.norm(key)) == ('missing',) else ('found', keys, key)

    def missed(self, w):
        return self.miss.get(w[:2] + (self.norm(w[2]),))


def atoms(c):
    """The conditions that a condition is made of."""
    if c.op in ('and', 'or', 'not'):
        return [a for x in c.args for a in atoms(x)]
    return [c] if not is_const(c) else []


def regrouped(c, name, src, what, qual, unique, want):
    fi = c.p.fn(qual)

    def run(facts):
        return Witness(c, name, src, what, unique={'d': unique}, facts=facts)
    W = run(())
    todo = [()]
    if W.value is None or any(x.op == 'phi' and x.args[1].op == 'dictlit' for v in W.r.state.heap.values() for x in walk(v, False)):
        heap = W.it.s.heap if W.it.s is not None else {}
        cs = [x.args[0] for v in heap.values() for x in walk(v, False) if x.op == 'phi' and x.args[1].op == 'dictlit']
        cs += [x.args[0] for e in W.r.events if e.kind == 'raise' for g, p, k in e.guards for x in walk(g, True) if x.op == 'phi' and x.args[1].op == 'dictlit']
        at = list(dict.fromkeys(a for x in cs for a in atoms(x)))
        if not at or len(at) > 6:
            c.skip('groupby', fi, what)
            return
        todo = [tuple((a, bool(i >> j & 1)) for j, a in enumerate(at)) for i in range(2 ** len(at))]
    for facts in todo:
        W = run(facts) if facts else W
        if W.value is None:
            c.ob('groupby', fi, False, '', f'{what}: refused')
            continue
        P = Equal(W.r)
        P.subset = any(not p and a.op == 'call' and any(x.op == 'mcall' and x.args[0] == 'get_indexer' for x in walk(a, False)) for a, p in facts)

        def both():
            P.same = []
            for a, p in facts:
                if p and a.op == 'mcall' and a.args[0] == 'equals':
                    x, y = P.at(a.args[1], ROW), P.at(a.args[2][0], ROW)
                    x, y = (x, y) if 'd2' in text(x) and 'd.' not in text(x) else (y, x)
                    P.same.append((x, y))
            return P.norm(P.at(W.value, ROW)), P.norm(want(P)), list(P.same)
        try:
            cases = P.cases(both)
        except (Unknown, Split) as u:
            c.skip('groupby', fi, f'{what}: {u}'[:300])
            continue
        for miss, (got, wanted, same) in cases:
            cond = ', '.join(([f'{text(a)} == {text(b)}' for a, b in same]) + [f'{text(k[2])} is {"" if not m else "not "}in {text(k[1])}' for k, m in miss.items()])
            c.ob('groupby', fi, got == wanted, f'{what}: {cond or "always"}: {text(wanted)}', f'{what}: {cond or "always"}: {text(got)} instead of {text(wanted)}')


def agg_at(P, s, pos):
    g, k = key(s, 'dx', ANY), key(s, 'd', pos)
    if P.found(('groups', g), k) == ('missing',):
        return ('const', -1)
    return ('agg', 'sum', ('col', 'dx', 'v', ANY), g, k)


RULES['P40'] = p40


# ------------------------------------------------------------------------------------------------ P46
CT = 'cheval.parsing.expr_items.ChainTuple'
EXPR_CLS = 'cheval.parsing.expressions.Expression'


class Parsed:
    """Expressions as the parser describes them: text -> (names, {link: [(substitution, path, function, argument)]})."""

    def __init__(self, c, exprs, texts=False):
        self.c, self.exprs, self.layouts, self.modes, self.texts = c, exprs, {}, [], texts

    def layout(self, n, func):
        """How the parser records a path of n columns, with or without an aggregation."""
        if (n, bool(func)) not in self.layouts:
            from .rules_names import parsed_lookup
            self.layouts[n, bool(func)] = parsed_lookup(self.c, n, 'sum' if func else None)
        L = self.layouts[n, bool(func)]
        if L is None:
            raise Unknown('the lookup that the parser records')
        return L

    def __call__(self, it, args, kw):
        from .rules_names import STEPS
        e = args[0] if args else kw.get('e')
        x = self.exprs.get(cval(e)) if e is not None and is_const(e) else None
        if x is None:
            return None
        self.modes.append(kw.get('mode', args[3] if len(args) > 3 else NONE))
        text_, h = cval(e), it.s.heap

        def box(v, *k):
            return t('alloc', v, ('parsed', text_) + k)
        links = []
        for link, uses in x[1].items():
            subs = []
            for s, path, func, argument in uses:
                L = self.layout(len(path), func)
                o = box(t('new', CT), s)
                chain = [const(path[STEPS.index(cval(y))]) if is_const(y) and cval(y) in STEPS else y for y in L['chain']]
                h[(o, 'chain')] = t('lit', 'list', *chain)
                h[(o, 'withfunc')] = L['withfunc']
                h[(o, 'func')] = const(func) if func and is_const(L['func']) else L['func']
                h[(o, 'args')] = const(argument) if func else L['args']
                subs.append((const(s), o))
            links.append((const(link), box(t('dictlit', *subs), link)))
        o = box(t('new', EXPR_CLS), 0)
        h[(o, 'raw')] = e
        h[(o, 'transformed')] = const('T:' + text_ if self.texts else 'T')
        h[(o, 'symbols')] = box(t('lit', 'set', *[const(n) for n in x[0]]), 1)
        h[(o, 'chains')] = box(t('dictlit', *links), 2)
        h[(o, 'dict_literals')] = box(t('dictlit'), 3)
        h[(o, 'filter_')] = NONE
        return o


CONVERTED = const('for numexpr')


def as_array(it, args, kw):
    return t('mcall', 'to_numpy', args[0] if args else kw['s'], (), (('dtype', CONVERTED),)) if args or 's' in kw else None


def plain_array(it, args, kw):
    return t('mcall', 'to_numpy', args[0], (), ()) if len(args) == 1 and not kw else None


EVALUATE = ('ex', 'local_dict', 'global_dict', 'out', 'order', 'casting')


def evaluated(W):
    """The evaluations of a program: {name of an argument: its value}."""
    out = []
    for e in W.r.events:
        if e.kind == 'call' and callname(e.func) == 'numexpr.evaluate' or e.kind == 'call' and callname(e.value) == 'numexpr.evaluate':
            a = dict(zip(EVALUATE, e.args))
            a.update(e.kwargs)
            out.append((e, a))
    return out


def p46(c):
    q = f'{LDF}.evaluate'
    fi = c.p.fn(q)
    K, M, L = ('on', 'k'), ('on', 'm'), ('levels', 'l')
    n = 0
    local = lambda name: lambda P: ('elem', name, ROW)    # noqa: E731
    col = lambda name, pos=ROW: lambda P: ('col', 'd', name, pos)    # noqa: E731

    def by(hops, name, start=ROW):
        return lambda P: follow(P, hops_of(hops), start, name, ('const', 0))

    def total(hops, last, func, value, start=ROW):
        return lambda P: agg_follow(P, hops_of(hops), last, func, value, ('const', -1))
    A = ('pick', 'arr2', ROW)
    one = ['f.link_to(x, "a", on="k"%s)']
    two = ['x = LinkedDataFrame(dx)', 'f.link_to(x, "a", on="k"%s)', 'x.link_to(y, "b", on="m"%s)']
    mixed = ['f.link_to(x, "a", on="k"%s)', 'f.link_to(y, "b", levels="l"%s)']
    S1, S2, S3 = '__sub_a_0', '__sub_a_1', '__sub_b_0'
    cols = {'v': col('v'), 'w': col('w')}
    cases = [
        # what, preparation, call, names, links, meaning of every name
        ('columns', [], 'f.evaluate("E")', ('v', 'w'), {}, cols, {}),
        ('no names', [], 'f.evaluate("E")', (), {}, {}, {}),
        ('a local array', [], 'f.evaluate("E", {"p": arr1})', ('v', 'p'), {}, {'v': col('v'), 'p': local('arr1')}, {}),
        ('two local arrays', [], 'f.evaluate("E", local_dict={"p": arr1, "q": arr2})', ('v', 'p', 'q'), {},
         {'v': col('v'), 'p': local('arr1'), 'q': local('arr2')}, {}),
        ('a column over a link', one, 'f.evaluate("E")', ('v',), {'a': [(S1, ['v'], None, None)]}, {'v': col('v'), S1: by([(K, K)], 'v')}, {}),
        ('a column over a link and a local array', one, 'f.evaluate("E", {"p": arr1})', ('p',), {'a': [(S1, ['v'], None, None)]},
         {'p': local('arr1'), S1: by([(K, K)], 'v')}, {}),
        ('two columns over a link', one, 'f.evaluate("E")', (), {'a': [(S1, ['w'], None, None), (S2, ['v'], None, None)]},
         {S1: by([(K, K)], 'w'), S2: by([(K, K)], 'v')}, {}),
        ('columns over two links', mixed, 'f.evaluate("E")', ('w',), {'a': [(S1, ['w'], None, None)], 'b': [(S3, ['v'], None, None)]},
         {'w': col('w'), S1: by([(K, K)], 'w'), S3: lambda P: follow(P, [('d', L, 'dy', L)], ROW, 'v', ('const', 0))}, {}),
        ('a column over two links in a row', two, 'f.evaluate("E")', (), {'a': [(S1, ['b', 'v'], None, None), (S2, ['v'], None, None)]},
         {S1: by([(K, K), (M, M)], 'v'), S2: by([(K, K)], 'v')}, {}),
        ('an aggregation', one, 'f.evaluate("E")', ('v',), {'a': [(S1, [], 'sum', 'v')]},
         {'v': col('v'), S1: total([], ('d', K, 'dx', K), 'sum', ('col', 'dx', 'v', ANY))}, {'dx': False}),
        ('two aggregations', one, 'f.evaluate("E")', (), {'a': [(S1, [], 'max', 'w'), (S2, [], 'sum', 'v')]},
         {S1: total([], ('d', K, 'dx', K), 'max', ('col', 'dx', 'w', ANY)), S2: total([], ('d', K, 'dx', K), 'sum', ('col', 'dx', 'v', ANY))}, {'dx': False}),
        ('an aggregation after a link', two, 'f.evaluate("E")', (), {'a': [(S1, ['b'], 'sum', 'v')]},
         {S1: total([(K, K)], ('dx', M, 'dy', M), 'sum', ('col', 'dy', 'v', ANY))}, {'dy': False}),
        ('columns of a derived frame', one + ['f = f._take_with_is_copy(arr2)'], 'f.evaluate("E")', ('w',), {'a': [(S1, ['v'], None, None)]},
         {'w': col('w', A), S1: by([(K, K)], 'v', A)}, {}),
        ('evaluated before with other values', one + ['u = f.evaluate("E", {"p": arr2})'], 'f.evaluate("E", {"p": arr1})', ('p', 'v'),
         {'a': [(S1, ['v'], None, None)]}, {'p': local('arr1'), 'v': col('v'), S1: by([(K, K)], 'v')}, {}),
        ('the same dictionary twice', one + ['z = {"p": arr1}', 'u = f.evaluate("E", z)'], 'f.evaluate("E", z)', ('p',),
         {'a': [(S1, ['v'], None, None)]}, {'p': local('arr1'), S1: by([(K, K)], 'v')}, {}),
    ]
    for what, prep, call, names, links, want, uniq in cases:
        for pre in ('', ', precompute=False'):
            for opt in ('', ', out=s', ', allow_casting=False', ', allow_casting=True', ', ignore_check=True', ', out=s, allow_casting=False'):
                if pre and (opt or not links):
                    continue
                n += 1
                cl = (call[:-1] + opt + ')')
                ls = [x % pre if '%s' in x else x for x in prep]
                src = f'def ev{n}(d, dx, dy, arr1, arr2, s):\n' + ''.join(f'    {x}\n' for x in [
                    'f = LinkedDataFrame(d)', 'x = pd.DataFrame(dx)', 'y = pd.DataFrame(dy)'] + ls + [f'return {cl}'])
                evaluation(c, q, f'ev{n}', src, f'{what}{opt}{pre}', Parsed(c, {'E': (names, links)}), want, uniq, opt, names,
                           A if 'derived' in what else ROW)
    # names that stand for nothing
    for what, names, links, arg_ in (('an unknown name', ('nope',), {}, ''), ('an unknown name besides a column', ('v', 'nope'), {}, ''),
                                     ('an unknown name besides a local one', ('p', 'nope'), {}, ', {"p": arr1}'),
                                     ('an unknown link', (), {'c': [('__sub_c_0', ['v'], None, None)]}, '')):
        n += 1
        src = f'def ev{n}(d, dx, dy, arr1):\n    f = LinkedDataFrame(d)\n    x = pd.DataFrame(dx)\n    f.link_to(x, "a", on="k")\n    return f.evaluate("E"{arg_})\n'
        W = Witness(c, f'ev{n}', src, what, calls={'parse': Parsed(c, {'E': (names, links)}), 'convert_series': as_array, 'to_numpy': plain_array})
        refused(c, 'unknown', W, q)


def evaluation(c, q, name, src, what, parsed, want, uniq, opt, names, pos):
    fi = c.p.fn(q)
    try:
        W = Witness(c, name, src, what, unique=uniq, calls={'parse': parsed, 'convert_series': as_array, 'to_numpy': plain_array})
    except Unknown as u:
        c.skip('names', fi, f'{what}: {u}')
        return
    if W.value is None:
        rs = W.raises()
        c.ob('names', rs[-1] if rs else fi, False, '', f'{what}: refused')
        return
    for m in parsed.modes:
        m = strip_st(m)
        if m.op != 'glob' and not is_const(m):
            c.skip('mode', fi, f'{what}: {show(m, 4)}'[:300])
            continue
        c.ob('mode', fi, m.op == 'glob' and m.args[0].endswith('.DATAFRAME'), f'{what}: parsed as an expression over a frame',
             f'{what}: parsed with {show(m, 3)}: dict literals and filters are accepted')
    calls = evaluated(W)
    if not calls:
        c.skip('names', fi, f'{what}: no evaluation found')
        return
    e, a = calls[-1]
    W.it.s = W.r.state
    ps = W.it.pairs(a['local_dict']) if 'local_dict' in a else None
    if ps is None or not all(is_const(k) for k, _ in ps):
        c.skip('names', e, f'{what}: the names of the evaluation: {show(a.get("local_dict", NONE), 3)}'[:300])
        return
    ps = {cval(k): v for k, v in ps}
    P = Points(W.r)
    for k, f in want.items():
        if k not in ps:
            c.ob('names', e, False, '', f'{what}: {k} is not given to the evaluation')
            continue
        P.miss, P.aligned = {}, set()
        v = strip_st(ps[k])
        if k not in ('p', 'q'):
            if any(x is CONVERTED for x in walk(v, True)):
                c.ob('converted', e, True, f'{what}: {k} is converted for the evaluation')
            elif v.op == 'sub' and P.frame(v.args[0]) is not None or v.op == 'mcall' and v.args[0] == 'to_numpy' or v.op == 'attr' and v.args[1] == 'values':
                c.ob('converted', e, False, '', f'{what}: {k} is not converted: texts and categories cannot be evaluated')
            else:
                c.skip('converted', e, f'{what}: {k}: {show(v, 4)}'[:300])
        try:
            for miss, (got, wanted) in P.cases(lambda: (P.at(ps[k], ROW), f(P))):
                cond = ' and '.join(f'{text(x[2])} is {"" if not m else "not "}in {text(x[1])}' for x, m in miss.items())
                c.ob('names', e, got == wanted, f'{what}: {k} is, {cond or "always"}: {text(wanted)}',
                     f'{what}: {k} is, {cond or "always"}: {text(got)} instead of {text(wanted)}')
        except (Unknown, Split) as u:
            c.skip('names', e, f'{what}: {k}: {u}'[:300])
    # constants
    for k, ok, says_ in (('NAN', nan_like, 'nan'), ('NEG_INF', ninf_like, '-inf')):
        c.ob('constants', e, k in ps and ok(ps[k]), f'{what}: {k} is {says_}', f'{what}: {k} is {show(ps[k], 4) if k in ps else "not given"}')
    # the text
    ex = a.get('ex')
    if ex is not None and not is_const(ex):
        c.skip('result', e, f'{what}: {show(ex, 4)} is evaluated'[:300])
    else:
        c.ob('result', e, ex is not None and cval(ex) == 'T', f'{what}: the translated expression is evaluated',
             f'{what}: {show(ex, 4) if ex is not None else "nothing"} is evaluated')
    v = strip_alloc(strip_st(W.value))
    if callname(v) not in ('pandas.Series', 'pandas.core.series.Series'):
        c.skip('result', fi, f'{what}: {show(v, 3)}')
    else:
        data = targ(v, 'data', 0)
        good = data is not None and strip_st(data) is strip_st(e.value)
        c.ob('result', e, good, f'{what}: the result is that of the evaluation', f'{what}: the result is {show(data, 4) if data is not None else "empty"}')
        try:
            P.miss, P.aligned = {}, set()
            i = P.at(t('attr', W.value, 'index'), ROW) if targ(v, 'index', 1) is not None or (strip_st(W.value), 'index') in W.r.state.heap else None
            c.ob('result', e, i == ('label', 'd', pos), f'{what}: the result has the index of the frame',
                 f'{what}: the result has the index {text(i) if i is not None else "0, 1, 2..."}')
        except (Unknown, Split) as u:
            c.skip('result', e, f'{what}: index {u}'[:300])
    # options
    out = a.get('out')
    if 'out=s' in opt:
        ok = out is not None and shares(out, t('param', 's'))
        c.ob('options', e, ok, f'{what}: the result is written into the given series', f'{what}: the result is written into {show(out, 4) if out is not None else "a new array"}')
    else:
        c.ob('options', e, out is None or is_const(out, None), f'{what}: no data is overwritten', f'{what}: the result is written into {show(out, 4) if out is not None else ""}')
    cast = a.get('casting')
    rule = 'safe' if 'casting=False' in opt or cast is None else 'same_kind'
    got = cval(cast) if cast is not None and is_const(cast) else 'safe' if cast is None else show(cast, 4)
    c.ob('options', e, got == ('safe' if 'casting=False' in opt else 'same_kind'), f'{what}: casts are {got}', f'{what}: casts are {got}')


def targ(v, name, i):
    d = dict(v.args[2])
    return d[name] if name in d else v.args[1][i] if i < len(v.args[1]) else None


def nan_like(v):
    v = strip_alloc(strip_st(v))
    return v.op == 'glob' and v.args[0].rsplit('.', 1)[-1].lower() == 'nan' or is_const(v) and isinstance(cval(v), float) and cval(v) != cval(v) or \
        callname(v) in ('float', 'builtins.float') and [cval(x) for x in callargs(v) if is_const(x)] == ['nan']


def ninf_like(v):
    v = strip_alloc(strip_st(v))
    if v.op == 'neg':
        w = v.args[0]
        return w.op == 'glob' and w.args[0].rsplit('.', 1)[-1].lower() in ('inf', 'infinity') or is_const(w) and cval(w) == float('inf') or \
            callname(w) in ('float', 'builtins.float') and [cval(x) for x in callargs(w) if is_const(x)] == ['inf']
    return v.op == 'glob' and v.args[0].rsplit('.', 1)[-1] == 'NINF' or is_const(v) and cval(v) == float('-inf') or \
        callname(v) in ('float', 'builtins.float') and [cval(x) for x in callargs(v) if is_const(x)] == ['-inf']


def shares(v, base):
    """Is an array the memory of a series?"""
    for _ in range(10):
        v = strip_st(v)
        if v is base:
            return True
        if v.op == 'mcall' and v.args[0] in ('to_numpy', 'view', 'ravel') and not any(k == 'copy' and not is_const(x, False) for k, x in v.args[3]):
            v = v.args[1]
        elif v.op == 'attr' and v.args[1] in ('values', 'array'):
            v = v.args[0]
        elif callname(v) in ('numpy.asarray', 'cheval.utils.to_numpy', 'cheval.misc.to_numpy') and callargs(v):
            v = callargs(v)[0]
        elif v.op == 'phi' and v.args[1] is not v.args[2]:
            return shares(v.args[1], base) and shares(v.args[2], base)
        else:
            return False
    return False



RULES['P46'] = p46


# ------------------------------------------------------------------------------------------------------------- P48
def p48(c):
    q = f'{LDF}.pivot_table'
    fi = c.p.fn(q)
    one = ['f.link_to(x, "a", on="k")']
    derived = one + ['f = f._take_with_is_copy(arr2)']
    A = ('pick', 'arr2', ROW)
    E = {'E': (('v', 'w'), {}), 'a.v': ((), {'a': [('__sub_a_0', ['v'], None, None)]}), 'F': (('w',), {})}
    E.update({x: ((x,), {}) for x in COLS})
    series = {'s': 'pandas.Series', 'a1': 'numpy.ndarray'}
    items = ('None', '"v"', '"a.v"', '["v"]', '["v", "w"]', '("v", "n")', '["E", "v"]', '["a.v", "F"]')
    keys = ('None', '"k"', '"a.v"', '"E"', '["k", "m"]', '["k", "a.v"]', '["E", "F"]', 's', 'a1')
    cases = [(v, i, cc, 'aggfunc="sum"', one) for v in items for i in keys[1:] for cc in keys[:1]]
    cases += [(v, i, cc, 'aggfunc="sum"', one) for v in items[:6] for i in keys[:4] for cc in keys[1:]]
    cases += [(v, i, cc, 'aggfunc="max", fill_value=3, margins=True', one) for v in items for i, cc in (('"k"', '"m"'), ('["k", "E"]', '"a.v"'))]
    cases += [(v, i, cc, '', ls) for v in items for i, cc in (('"k"', '"m"'), ('["k", "E"]', '"a.v"')) for ls in (one, derived)]
    for n, (v, i, cc, opt, prep) in enumerate(cases):
        what = f'values={v}, index={i}, columns={cc}{", " if opt else ""}{opt}'.replace('"', "'") + (' of a derived frame' if prep is derived else '')
        if n % 3 == 2:
            call = f'f.pivot_table({v}, {i}, {cc}{", " if opt else ""}{opt})'
        else:
            call = 'f.pivot_table(' + ', '.join(x for x in (opt, f'columns={cc}' if cc != 'None' or n % 2 else '', f'index={i}' if i != 'None' or n % 2 else '',
                                                             f'values={v}' if v != 'None' or n % 2 else '') if x) + ')'
        name = f'pv{n}'
        src = f'def {name}(d, dx, arr2, s, a1):\n' + ''.join(f'    {x}\n' for x in ['f = LinkedDataFrame(d)', 'x = pd.DataFrame(dx)'] + prep + [f'return {call}'])
        pivoted(c, fi, name, src, what, Parsed(c, E, texts=True), v, i, cc, opt, series, A if prep is derived else ROW)
    for n, (what, call) in enumerate((('unknown values', 'values="nope", index="k"'), ('an unknown name in a list', 'values=["v", "nope"], index="k"'),
                                      ('an unknown index', 'values="v", index="nope"'), ('unknown columns', 'values="v", index="k", columns=["m", "nope"]'))):
        name = f'pvx{n}'
        src = f'def {name}(d, dx, arr2, s, a1):\n    f = LinkedDataFrame(d)\n    x = pd.DataFrame(dx)\n    f.link_to(x, "a", on="k")\n    return f.pivot_table({call})\n'
        W = Witness(c, name, src, what, calls={'parse': Parsed(c, {'nope': (('nope',), {})}, texts=True), 'convert_series': as_array, 'to_numpy': plain_array}, closed=True)
        refused(c, 'unknown', W, q)


CHANGING = ('dropna', 'drop_duplicates', 'head', 'tail', 'sample', 'query', 'fillna', 'replace', 'clip', 'round', 'abs')


def bare(y):
    """An array without an index?"""
    y = strip_alloc(strip_st(y))
    return y.op == 'mcall' and y.args[0] == 'to_numpy' or y.op == 'attr' and y.args[1] == 'values' or callname(y) == 'numexpr.evaluate'


PIVOT = ('data', 'values', 'index', 'columns', 'aggfunc', 'fill_value', 'margins', 'dropna', 'margins_name', 'observed', 'sort')
PIVOT_DEFAULTS = {'values': None, 'index': None, 'columns': None, 'aggfunc': 'mean', 'fill_value': None, 'margins': False, 'dropna': True,
                  'margins_name': 'All', 'observed': False, 'sort': True}


def pivoted(c, fi, name, src, what, parsed, v, i, cc, opt, series, pos):
    try:
        W = Witness(c, name, src, what, calls={'parse': parsed, 'convert_series': as_array, 'to_numpy': plain_array}, given=series, closed=True)
    except Unknown as u:
        c.skip('columns', fi, f'{what}: {u}')
        return
    if W.value is None:
        rs = W.raises()
        c.ob('columns', rs[-1] if rs else fi, False, '', f'{what}: refused')
        return
    it, r = W.it, W.r
    it.s = r.state
    x = strip_alloc(strip_st(W.value))
    if x.op == 'mcall' and x.args[0] == 'pivot_table':
        a = dict(zip(PIVOT[1:], x.args[2]), data=x.args[1], **dict(x.args[3]))
    elif callname(x) in ('pandas.pivot_table', 'pandas.core.reshape.pivot.pivot_table'):
        a = dict(zip(PIVOT, x.args[1]), **dict(x.args[2]))
    elif callname(x) == 'pandas.DataFrame.pivot_table':
        a = dict(zip(PIVOT, x.args[1]), **dict(x.args[2]))
    else:
        c.skip('arguments', fi, f'{what}: {show(x, 3)}'[:300])
        return
    # the arguments
    want = {}
    for k, e in [('values', v), ('index', i), ('columns', cc)] + [tuple(y.strip().split('=')) for y in opt.split(',') if y]:
        want[k] = t('param', e) if e in series else ast.literal_eval(e)
    for k in PIVOT[1:]:
        w = want.get(k, PIVOT_DEFAULTS[k])
        g = a.get(k)
        if g is None:
            ok = not isinstance(w, T) and w == PIVOT_DEFAULTS[k]
        elif isinstance(w, T):
            ok = strip_st(g) is w
        else:
            ok = literal(it, g, w)
            if ok is None and k == 'values' and w is None:
                ok = True if it.elems(g) is not None or strip_st(g).op == 'attr' else None
        if ok is None:
            c.skip('arguments', fi, f'{what}: {k}={show(g, 3)}'[:300])
        else:
            c.ob('arguments', fi, ok, f'{what}: {k} is passed on', f'{what}: {k} is {show(g, 3) if g is not None else "left out"}')
    for k in sorted(set(a) - set(PIVOT)):
        c.ob('arguments', fi, False, '', f'{what}: {k}={show(a[k], 3)} is added')
    # data given directly
    for w in {k for k in (i, cc) if k in series}:
        looked = [e for e in r.events if e.kind in ('load', 'call', 'enter') and any(
            z.op == 'sub' and strip_st(z.args[0]) is t('param', w) for k in ([e.key] if e.kind == 'load' else list(e.args or ()) + [v for _, v in dict(e.kwargs or {}).items()])
            if isinstance(k, T) for z in walk(k, True))]
        c.ob('columns', looked[0] if looked else fi, not looked, f'{what}: {w} is used as it is', f'{what}: the items of {w} are looked up as columns')
    # the data
    P = Points(r)
    data = strip_st(a['data'])
    while strip_alloc(data).op == 'mcall' and strip_alloc(data).args[0] in ('copy', 'infer_objects') + CHANGING:
        how = strip_alloc(data).args[0]
        if how in CHANGING:
            c.ob('rows', fi, False, '', f'{what}: the data is changed by {how}() before it is pivoted')
        data = strip_st(strip_alloc(data).args[1])
    a['data'] = data
    ps = table(it, data)
    if ps is None:
        c.skip('columns', fi, f'{what}: the columns of {show(a["data"], 4)}'[:300])
        return
    if not isinstance(ps, dict):
        ps = {k: t('sub', ps, const(k)) for k in COLS}
    names = []
    for e in (v, i, cc):
        if e not in series and e != 'None':
            y = ast.literal_eval(e)
            names += [y] if isinstance(y, str) else list(y)
    if v == 'None':
        names += COLS
        extra = sorted(set(ps) - set(names))
        if a.get('values') is None or is_const(a['values'], None):
            c.ob('columns', fi, not extra, f'{what}: only columns of the frame are aggregated', f'{what}: {", ".join(map(str, extra))} is aggregated too')
    for k in dict.fromkeys(names):
        if k not in ps:
            c.ob('columns', fi, False, '', f'{what}: {k} is not among the data that is pivoted')
            continue
        y = strip_st(ps[k])
        if k in COLS:
            if any(callname(z) == 'numexpr.evaluate' for z in walk(y, True)):
                c.ob('columns', fi, False, '', f'{what}: {k} is evaluated, which converts texts and categories, instead of taken from the frame')
                continue
            try:
                P.miss, P.aligned = {}, set()
                got = P.at(ps[k], ROW)
                c.ob('columns', fi, got == ('col', 'd', k, pos), f'{what}: {k} is the column of the frame', f'{what}: {k} is {text(got)}')
            except (Unknown, Split) as u:
                c.skip('columns', fi, f'{what}: {k}: {u}'[:300])
            continue
        ex = [z for z in walk(y, True) if callname(z) == 'numexpr.evaluate']
        got = {cval(z.args[1][0]) if z.args[1] and is_const(z.args[1][0]) else None for z in ex}
        if None in got or not ex:
            c.skip('columns', fi, f'{what}: {k} is {show(y, 4)}'[:300])
        else:
            direct = callname(strip_alloc(y)) == 'pandas.Series' and strip_st(targ(strip_alloc(y), 'data', 0)) in ex or y in ex
            if got == {f'T:{k}'} and not direct:
                c.skip('columns', fi, f'{what}: {k} is {show(y, 4)}'[:300])
            else:
                c.ob('columns', fi, got == {f'T:{k}'}, f'{what}: {k} is evaluated over the frame', f'{what}: {k} is the value of {", ".join(z[2:] for z in got)}')
    # the rows
    d = strip_alloc(strip_st(a['data']))
    ix = targ(d, 'index', 1) if d.op == 'call' else None
    over = [ix] if ix is not None else [t('attr', y, 'index') for y in ps.values() if not bare(y)] if ps else []
    if (strip_st(a['data']), 'index') in r.state.heap:
        over = [r.state.heap[(strip_st(a['data']), 'index')]]
    try:
        for o in over:
            P.miss, P.aligned = {}, set()
            got = P.at(o, ROW)
            c.ob('rows', fi, got == ('label', 'd', pos), f'{what}: the data has the index of the frame', f'{what}: the data has the index {text(got)}')
        if not over and ('s' in (i, cc)):
            c.ob('rows', fi, False, '', f'{what}: the data does not have the index of the frame')
    except (Unknown, Split) as u:
        c.skip('rows', fi, f'{what}: {u}'[:300])


def literal(it, g, w):
    """Is this the given constant or list?"""
    g = strip_st(g)
    if is_const(g):
        return cval(g) == w and type(cval(g)) is type(w)
    xs = it.elems(g)
    if xs is None or not all(is_const(x) for x in xs):
        return None
    return isinstance(w, (list, tuple)) and [cval(x) for x in xs] == list(w)


def table(it, x):
    """The columns of a frame, as a dict; or the frame itself, if it has those of the linked frame."""
    o = strip_st(x)
    d = strip_alloc(o)
    out = None
    if callname(d) == 'pandas.DataFrame':
        data = targ(d, 'data', 0)
        if data is None or is_const(data, None):
            out = {}
        else:
            ps = it.pairs(data)
            if ps is None:
                return o if it.is_frame(strip_st(data)) and (o, '#') not in it.s.heap else None
            if not all(is_const(k) for k, _ in ps):
                return None
            out = {cval(k): v for k, v in ps}
    elif it.is_frame(o):
        return o if (o, '#') not in it.s.heap else None
    if out is None:
        return None
    c = it.s.heap.get((o, '#'))
    if c is not None and strip_alloc(c) is not d:
        ups = []
        for _ in range(50):
            if c.op == 'upd' and c.args[1] == 'set':
                ups.append((c.args[2], c.args[3]))
                c = c.args[0]
            else:
                break
        if c.op != 'init' and strip_alloc(strip_st(c)) is not d or not all(is_const(k) for k, _ in ups):
            return None
        out.update({cval(k): v for k, v in reversed(ups)})
    return out


RULES['P48'] = p48
