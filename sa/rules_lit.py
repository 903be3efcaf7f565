"""The rows that dict literals become, by the meaning of witness programs (P35)."""
from __future__ import annotations

from .lib import *  # noqa: F401,F403
from .rules_core import pattern
from .rules_grid import Grids, UNITS
from .rules_names import literal_inserted, literal_parsed, literal_prepared
from .rules_tree import MW, TREES, X, literal_row, refuse  # noqa: F401
from .terms import const

# tree, dict literals of one expression
LITERALS = [
    ('flat', [{'a': 3.0}]), ('flat', [{'c': 1.5, 'a': -2.0}]), ('flat', [{'b': 0.25, 'c': 1.0, 'a': 4.0}]), ('flat', [{'c': 0.5}, {'a': 2.0, 'c': 3.0}]),
    ('flat', [{}]), ('nest', [{}, {'b': 2.0}]), ('pair', [{'b': -0.5}]), ('moved', [{'a': 1.0, 'c': 2.0}]),
    ('nest', [{'b': 3.0}]), ('nest', [{'b.x': 3.0}]), ('nest', [{'b._': 3.0}]), ('nest', [{'b._.x': 3.0, 'a': 2.0}]), ('nest', [{'b._': 3.0, 'b': 4.0}]), ('nest', [{'b': 4.0, 'b._': 3.0}]),
    ('nest', [{'b._': 3.0, 'b.y': 1.5}]), ('nest', [{'b.y': 1.5, 'a': -1.0}]), ('nest', [{'a': 2.0, 'b': 0.5}, {'b._': 1.0}]), ('nest', [{'b.x': 1.0, 'b.y': 2.0, 'a': 3.0, 'b': 4.0}]),
    ('twins', [{'a': 1.0}]), ('twins', [{'a._': 1.0, 'c._': 2.0}]), ('twins', [{'a.x': 1.0, 'c.x': 2.0, 'b': 3.0}]), ('twins', [{'c.y': 2.5, 'a.y': -2.5}]),
    ('twins', [{'c._': 2.0}, {'c': 1.0}]),
    ('deep', [{'a': 2.0}]), ('deep', [{'a._': 2.0}]), ('deep', [{'a._.q': 2.0}]), ('deep', [{'a.x._.q': 2.0}]), ('deep', [{'a.x': 2.0}]), ('deep', [{'a.x._': 2.0}]), ('deep', [{'a.x.q': 2.0, 'a.z': 1.0}]),
    ('deep', [{'a._': 2.0, 'a.x._': 3.0}]), ('deep', [{'a.x._': 3.0, 'a.x': 4.0, 'a': 5.0, 'c': -1.0}]), ('deep', [{'a.x': 4.0, 'a.x._': 3.0}]),
    ('deep', [{'a': 4.0, 'a._': 3.0, 'b': 1.0}]),
    ('mixed', [{'a.a.a': 1.0, 'a.b.a': 2.0, 'b.a': 3.0}]), ('mixed', [{'a.a._': 1.0, 'b._': 2.0, 'a': 0.5}]), ('mixed', [{'a.b': 1.0}, {'a.b._': 2.0}]),
    ('deeper', [{'t.v.w._': 2.0}]), ('deeper', [{'t.v._': 2.0, 't.v': 1.0}]), ('deeper', [{'t._': 2.0, 'u': 1.0}]), ('deeper', [{'t.v.w.x': -2.0, 't.v.w': 3.0, 'r._': 1.0}]),
    ('replaced', [{'a': 1.0, 'b.a': 2.0, 'ab': 3.0}]),
]
REFUSED = [('flat', {'a.x': 1.0}), ('flat', {'d': 1.0}), ('flat', {'a._': 1.0}), ('nest', {'d': 1.0}), ('nest', {'b.z': 1.0}), ('nest', {'d._': 1.0}),
           ('deep', {'a.y': 1.0}), ('deep', {'a.x.z': 1.0}), ('nest', {'b.x': 1.0, 'e': 2.0})]


def keyed(d):
    return {tuple(k.split('.')): v for k, v in d.items()}


def text_of(ds):
    return ' + '.join('{' + ', '.join(f'{k}: {v:g}' for k, v in d.items()) + '} * v' for d in ds)


def expression(ds, names=None):
    names = names or [f'__dict{i}' for i in range(len(ds))]
    return X(text_of(ds), ('v',), literals={n: keyed(d) for n, d in zip(names, ds)}, made=' + '.join(f'{n} * v' for n in names))


def rows(g, tr, xs, what, fi, body, tail=(), model='m'):
    """The literals of the last run, expression by expression."""
    c, T_ = g.c, TREES[tr]
    W = g.program(T_.body() + [f'm.decision_units = pd.Index({UNITS})', 'm.declare_vector("v", 0)', 'm["v"].assign(arr1)'] + body, what, xs, {'arr1': (len(UNITS),)})
    if W.refused():
        return refuse(c, 'literal-row', W, fi)
    evs = g.names(W)
    if evs is None or len(evs) != len(xs):
        return c.skip('literal-row', fi, f'{what}: the evaluation is not followed')
    for x in xs:
        es = [e for e in evs if e.text is not None and any(n in (e.pairs() or {}) for n in x.literals)]
        mine = [e for e in evs if x.made in show(e.text, 6)] if len(xs) > 1 else evs
        if len(mine) != 1:
            c.skip('literal-row', fi, f'{what}: the evaluation of {x.text} is not followed')
            continue
        ps = mine[0].pairs()
        for n, d in x.literals.items():
            want = (1, len(T_.order)), [const(float(v)) for v in literal_row(T_, d)]
            part = '{' + ', '.join(f'{".".join(k)}: {v:g}' for k, v in d.items()) + '}'
            if not ps:
                c.skip('literal-row', fi, f'{what}: the evaluation of {x.text} is not followed')
            elif n not in ps:
                c.ob('literal-row', fi, False, '', f'{what}: {part} is not there when {x.text} is evaluated')
            else:
                g.same(W, 'literal-row', fi, ps[n], want, f'{part} with the choices {", ".join(T_.order)}{what}', 'each value of a literal is in the column of the choices its key names')


def p35(c):
    literal_parsed(c)
    pattern(c, literal_inserted, literal_prepared)
    g = Grids(c, 'p35')
    fi = c.p.functions.get('cheval.parsing.expressions.Expression._prepare_dict_literals') or c.p.fn('cheval.parsing.expressions.Expression.parse')
    run = 'm.run_stochastic(clear_scope=False)'
    for tr, ds in LITERALS:
        x = expression(ds)
        rows(g, tr, [x], '', fi, [f'm.expressions.append({x.text!r})', run])
    for tr, a, b in (('flat', {'a': 3.0}, {'b': 2.0}), ('nest', {'b._': 3.0}, {'a': 2.0, 'b.x': 1.0}), ('deep', {'a.x._': 3.0, 'b': 1.0}, {'a.x': 2.0})):
        x, y = X(text_of([a]), ('v',), literals={'__dict0': keyed(a)}, made='__dict0 * v'), \
            X(text_of([b]).replace(' * v', ' + v'), ('v',), literals={'__dict0': keyed(b)}, made='__dict0 + v')
        rows(g, tr, [x, y], ', two expressions', fi, [f'm.expressions.append({x.text!r})', f'm.expressions.append({y.text!r})', run])
        rows(g, tr, [y, x], ', two expressions, run twice', fi, [f'm.expressions.append({y.text!r})', f'm.expressions.append({x.text!r})', run, run])
    for tr, d in REFUSED:
        x = expression([d])
        W = g.program(TREES[tr].body() + [f'm.decision_units = pd.Index({UNITS})', 'm.declare_vector("v", 0)', 'm["v"].assign(arr1)', f'm.expressions.append({x.text!r})', run,
                                          'return 1'], f'{x.text} with the choices {", ".join(TREES[tr].order)}', [x], {'arr1': (len(UNITS),)})
        evs = [] if W.refused() else g.names(W) or []
        if any((e.pairs() or {}).get('__dict0') is not None for e in evs):
            c.ob('unknown-choice', fi, False, '', f'{W.what} is evaluated, although a key names none of them')
        else:
            g.refusal(W, fi, 'unknown-choice', 'a key that names no choice is refused')


RULES = {'P35': p35}
