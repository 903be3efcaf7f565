"""What models keep, discard, copy and refuse, by the meaning of witness programs."""
from __future__ import annotations

from .lib import *  # noqa: F401,F403
from .interp import strip_alloc, strip_st
from .rules_tree import (A, B, C, D, DU, DU2, E, GIVEN, MW, NROWS, TREES, Reader, Runs, Summed, Texts, Tree, Unread, X, added, as_vector, model_fn, part_of,
                         raised_class, reached, refuse, run_names, shapes_for, start_of, var)
from .terms import FALSE, NONE, TRUE, T, const, cval, glob, is_const, show, t

FLAT, NEST, DEEP = TREES['flat'], TREES['nest'], TREES['deep']
FULL = [A, B, C, D, E]


def labels_ob(c, rule, W, v, fi, what, tr):
    L = W.it.labels(v)
    if L is None and not is_const(v):
        c.skip(rule, fi, f'{what}: the choices are {show(v, 4)}')
        return
    c.ob(rule, fi, L is not None and L.labels == tr.choices, 'the choices are those of the tree',
         f'{what}: the choices are {"nothing" if L is None else ", ".join(map(str, L.labels))}, they have to be {", ".join(map(str, tr.choices))}')


# ---------------------------------------------------------------------------------------------- runs leave the model
READS = ('m.validate()', 'm.validate(group="g")', 'm.choices', 'm.elemental_choices', 'm.depth', 'm.decision_units', 'list(m.expressions)',
         'm.expressions.tolist()', 'm.expressions.get_group("g")', 'm.expressions.copy()', 'm.expressions + m.expressions', 'm.precision', 'm["v"].filled', 'm.copy()',
         'm.copy_subset(mask)', 'list(m.expressions.itersimple())', 'list(m.expressions.iterchained())', 'm.run_stochastic(clear_scope=False)', 'm.run_discrete(clear_scope=False)',
         'm.run_stochastic(group="g", clear_scope=False)', 'm.run_discrete(clear_scope=False, n_draws=3, astype="index")', 'list(m_c.children())',
         'm_c.max_level()', 'm_c.full_name', 'm_c.nested_id(1)', 'm_c.is_parent', 'str(m_c)')
FAILS = (('m.run_discrete(n_draws=0)', 'ValueError'), ('m.run_stochastic(group="zz")', 'KeyError'), ('m.validate(group="zz")', 'KeyError'),
         ('m.preval("zz")', 'KeyError'), ('m.expressions.get_group("zz")', 'KeyError'), ('m["zz"]', 'KeyError'),
         ('m.expressions.drop_group("zz")', 'KeyError'))


def p15(c):
    run = Runs(c, 'p15', 'same-run-again')
    sto = model_fn(c, 'run_stochastic')
    steps = added(FULL[:3]) + added(FULL[3:], 'g')
    for tn, tr in (('flat', FLAT), ('deep', DEEP)):
        last = tr.order[-1]
        for r in READS:
            r = r.replace('m_c', var(last)).replace('nested_id(1)', f'nested_id({tr.depth})')
            if tn == 'deep' and 'run' not in r and var(last) not in r and r not in ('m.choices', 'm.elemental_choices', 'm.validate()', 'm.copy()'):
                continue
            for call in ('m.run_stochastic()', 'm.run_discrete(random_seed=seed)')[:2 if 'run' in r else 1]:
                W = run(tr, steps + [r, f'x = {r}'], f'{call[2:].split("(")[0]} after {r} of a {tn} tree', call, FULL, sto, end='m.choices, m.decision_units, m.depth')
                after(c, W, sto, tr)
    for r, exc in FAILS:
        W = run(FLAT, steps + ['try:', f'    {r}', f'except {exc}:', '    pass'], f'run_stochastic after {r} failed', 'm.run_stochastic()', FULL, sto,
                end='m.choices, m.decision_units, m.depth')
        after(c, W, sto, FLAT)
    # the data of symbols is only removed if that was asked for
    for call, fi in (('run_stochastic', sto), ('run_discrete', model_fn(c, 'run_discrete'))):
        W = run.program(FLAT.body() + ['m.decision_units = du'] + run_names(3) + added(FULL) +
                        [f'm.{call}(clear_scope=False)', 'return m["n"].filled, m["k"].filled, m["v"].filled, m["w"].filled, m["t"].filled, m["u"].filled, m["x"].filled'],
                        f'{call}(clear_scope=False)', FULL)
        if W.refused():
            refuse(c, 'data-kept', W, fi)
            continue
        for nm, v in zip('nkvwtux', W.parts):
            known(c, 'data-kept', fi, v, True, f'{W.what}: the data of {nm} is removed', 'data of symbols is kept if that was asked for')


def after(c, W, fi, tr):
    if W.refused() or len(W.parts) != 3:
        return
    labels_ob(c, 'same-tree', W, W.parts[0], fi, W.what, tr)
    c.ob('same-units', fi, strip_st(W.parts[1]) is DU, 'the decision units stay', f'{W.what}: the decision units are {show(W.parts[1], 4)}')
    known(c, 'same-tree', fi, W.parts[2], tr.depth, f'{W.what}: the depth is {show(W.parts[2], 3)}', 'the tree stays')


def known(c, rule, fi, v, want, bad, text):
    v = strip_alloc(strip_st(v)) if v is not None else NONE
    if is_const(v):
        c.ob(rule, fi, cval(v) == want and isinstance(cval(v), bool) == isinstance(want, bool), text, bad)
    else:
        c.skip(rule, fi, f'{bad} ({show(v, 4)})')


# ---------------------------------------------------------------------------------------------- what changes discard
def more(tr, *steps):
    return Tree(*(list(tr.steps) + list(steps)))


CHANGES = [
    ('a new choice', FLAT, ['m.add_choice("d")'], more(FLAT, 'd')),
    ('a replaced choice', FLAT, ['m.add_choice("a")'], more(FLAT, 'a')),
    ('new choices', FLAT, ['m.add_choices(["d", "e"])'], more(FLAT, 'd', 'e')),
    ('replaced choices', FLAT, ['m.add_choices(["a", "e"])'], more(FLAT, 'a', 'e')),
    ('new nested choices', FLAT, ['m_a.add_choice("x")', 'm_a.add_choice("y")'], more(FLAT, 'a.x', 'a.y')),
    ('another nested choice', NEST, ['m_b.add_choice("z")'], more(NEST, 'b.z')),
    ('a replaced nested choice', NEST, ['m_b.add_choice("y")'], more(NEST, 'b.y')),
    ('a replaced nest', NEST, ['m.add_choice("b")'], more(NEST, 'b')),
    ('choices below a nested choice', NEST, ['m_b_x.add_choice("p")', 'm_b_x.add_choice("q")'], more(NEST, 'b.x.p', 'b.x.q')),
    ('a deep choice', DEEP, ['m_a_x.add_choice("r")'], more(DEEP, 'a.x.r')),
    ('a replaced deep nest', DEEP, ['m_a.add_choice("x")'], more(DEEP, 'a.x')),
]
FLAGS = 'return ' + ', '.join(f'm["{x}"].filled' for x in 'nkvtwux')


def p16(c):
    run = Runs(c, 'p16', 'nothing-left')
    ch, du, node = model_fn(c, 'choices'), c.p.fn('cheval.model.ChoiceModel.decision_units.setter') if 'cheval.model.ChoiceModel.decision_units.setter' in \
        c.p.functions else model_fn(c, 'validate'), model_fn(c, 'add_choice')
    for what, tr, step, new in CHANGES:
        k = len(tr.order)
        # symbols
        W = run.program(tr.body() + ['m.decision_units = du'] + run_names(k) + ['c0 = m.choices'] + step + [FLAGS + ', m.choices'], f'after {what}', [], k)
        if W.refused() or len(W.parts) != 8:
            refuse(c, 'data-discarded', W, node)
        else:
            for nm, v in zip('nkvtwux', W.parts):
                gone = nm in 'wux'
                known(c, 'data-discarded' if gone else 'data-kept', node, v, not gone, f'{what}: the data of {nm} is {"kept" if gone else "removed"}',
                      'data by choices is discarded when the choices change' if gone else 'data that does not depend on the choices is kept')
            labels_ob(c, 'columns-renewed', W, W.parts[7], ch, f'after {what}', new)
        # partial utilities
        for pre, mid in (('', []), (' after preval()', ['m.preval("g", cleanup_scope=False)'])):
            k = len(new.order)
            before = ['m.declare_number("n")', 'm.declare_vector("v", 0)', 'm.declare_table("t", 0)', 'm.declare_vector("w", 1)', 'm["n"].assign(5)',
                      'm["v"].assign(arr1)', 'm["t"].assign(df1)'] + added([A]) + added([C], 'g') + (mid or ['m.run_stochastic(clear_scope=False)'])
            xs = [A, C, B]
            W = run(new, step + ['m["w"].assign(arr2)'] + added([B]), f'a run after {what}{pre}', 'm.run_stochastic()', xs, want=[A, B] if mid else xs,
                    before=before, build=tr, names=False, end='m.choices', shapes_k=k)
            if W.value is not None:
                labels_ob(c, 'columns-renewed', W, W.value, ch, W.what, new)
    for what, step in (('new decision units', ['m.decision_units = du2']), ('decision units set again', ['m.decision_units = du']),
                       ('decision units of another kind', ['m.decision_units = s1'])):
        W = run.program(FLAT.body() + ['m.decision_units = du'] + run_names(3) + step + [FLAGS + ', m.decision_units'], f'after {what}', [], 3)
        if W.refused() or len(W.parts) != 8:
            refuse(c, 'data-discarded', W, du)
            continue
        for nm, v in zip('nkvtwux', W.parts):
            if nm in 'wu':
                continue
            gone = nm in 'vtx'
            known(c, 'data-discarded' if gone else 'data-kept', du, v, not gone, f'{what}: the data of {nm} is {"kept" if gone else "removed"}',
                  'data by units is discarded when the units change' if gone else 'data that does not depend on the units is kept')
        if what == 'new decision units':
            c.ob('units-set', du, strip_st(W.parts[7]) is DU2, 'the decision units are those that were set', f'{what}: they are {show(W.parts[7], 4)}')
    for pre, mid in (('', ['m.run_stochastic(clear_scope=False)']), (' after preval()', ['m.preval("g", cleanup_scope=False)']),
                     (' after preval() and a run', ['m.preval("g", cleanup_scope=False)', 'm.run_stochastic(clear_scope=False)'])):
        W = run(FLAT, mid + ['m.decision_units = du2', 'm["v"].assign(arr1)', 'm["w"].assign(arr2)', 'm["t"].assign(df1)'], f'a run with new decision units{pre}',
                'm.run_stochastic()', [A, B, C], want=[A, B] if 'preval' in mid[0] else [A, B, C], before=added([A, B]) + added([C], 'g'),
                end='r[0], r[1], r[2]')
        if W.value is not None and len(W.parts) == 3:
            for v in W.parts[::2]:
                R = Reader(W)
                R.n_choices = 3
                try:
                    k, ix, xs, cols = R.table(v)
                except Unread as e:
                    c.skip('units-set', du, f'{W.what}: {e}')
                    continue
                c.ob('units-set', du, strip_st(ix) is DU2, 'results are labelled with the decision units that were set', f'{W.what}: they are labelled with {show(ix, 4)}')


# ---------------------------------------------------------------------------------------------- copies
COPY_FLAGS = ('decision_units', 'scope_declared', 'scope_assigned', 'expressions')
OLD = ['m.declare_vector("z", 0)', 'm.preval("p", cleanup_scope=False)']


def p17(c):
    run = Runs(c, 'p17', 'copy-run')
    cp, sub = model_fn(c, 'copy'), model_fn(c, 'copy_subset')
    start = ['m = ChoiceModel(precision=4, debug_id=any1)'] + FLAT.body()[1:] + ['m.decision_units = du'] + run_names(3) + ['m.declare_vector("z", 0)'] + \
        added([A, B]) + added([C], 'g')
    for bits in list(range(16)) + [None]:
        fl = dict(zip(COPY_FLAGS, ((bits >> i) & 1 == 1 for i in range(4)))) if bits is not None else dict.fromkeys(COPY_FLAGS, True)
        call = 'm.copy(' + ', '.join(f'{k}={v}' for k, v in fl.items()) + ')' if bits is not None else 'm.copy()'
        what = f'a copy made by {call}'
        W = run.program(start + [f'o = {call}', 'return o.precision, o.debug_id, o.choices, [e.raw for e in o.expressions], o is m'], what, [A, B, C])
        if W.refused() or len(W.parts) != 5:
            refuse(c, 'settings-copied', W, cp)
            continue
        known(c, 'settings-copied', cp, W.parts[0], 4, f'{what}: the precision is {show(W.parts[0], 3)}', 'settings are copied')
        c.ob('settings-copied', cp, strip_st(W.parts[1]) is t('param', 'any1'), 'settings are copied', f'{what}: the debug_id is {show(W.parts[1], 4)}')
        labels_ob(c, 'tree-copied', W, W.parts[2], cp, what, FLAT)
        ys = W.it.elems(W.parts[3])
        if ys is None:
            c.skip('parts-copied', cp, f'{what}: the expressions are {show(W.parts[3], 4)}')
        else:
            got = sorted(str(cval(strip_alloc(strip_st(y)))) for y in ys)
            want = sorted(x.text for x in (A, B, C)) if fl['expressions'] else []
            c.ob('parts-copied', cp, got == want, 'expressions are copied if that was asked for', f'{what}: its expressions are {", ".join(got) or "none"}')
        asked(c, run, start + [f'o = {call}', 'return o.decision_units'], f'{what}: the decision units', cp, fl['decision_units'] or fl['scope_assigned'],
              lambda W: strip_st(W.value) is DU, [A, B, C], 'ModelNotReadyError')
        decl = fl['scope_declared'] or fl['scope_assigned']
        for nm in 'nvwtuxz' if bits in (None, 0, 2, 6, 7) else 'nwz':
            asked(c, run, start + [f'o = {call}', f'return o["{nm}"].filled'], f'{what}: the symbol {nm}', cp, decl,
                  lambda W, w=fl['scope_assigned'] and nm != 'z': is_const(W.value) and cval(W.value) is w, [A, B, C], 'KeyError')
    # runs of copies: data, expressions and partial utilities
    pre = added([A, B]) + added([C], 'g') + added([D], 'p') + ['m.preval("p", cleanup_scope=False)']
    every = [A, B, C, D]
    run(FLAT, ['o = m.copy()'], 'a run of a copy', 'o.run_stochastic()', every, cp, before=pre)
    run(FLAT, ['o = m.copy()'], 'a run of a copy', 'o.run_discrete(random_seed=seed)', every, cp, before=pre)
    run(FLAT, ['o = m.copy(utilities=False)'], 'a run of a copy without partial utilities', 'o.run_stochastic()', every, cp, want=[A, B, C], before=pre)
    run(FLAT, ['o = m.copy(expressions=False)'], 'a run of a copy without expressions', 'o.run_stochastic()', every, cp, want=[D], before=pre)
    run(FLAT, ['o = m.copy().copy()'], 'a run of a copy of a copy', 'o.run_stochastic()', every, cp, before=pre)
    run(DEEP, ['o = m.copy()'], 'a run of a copy of a deep tree', 'o.run_stochastic()', every, cp, before=pre)
    groups = added([E]) + added([A, C], 0) + added([B, D], '') + added([D, A, E], 'h')
    for made in ('m.copy()', 'm.copy().copy()', 'm.copy_subset(mask)')[:2]:
        run(FLAT, [f'o = {made}'], f'a run of {made} with several groups', 'o.run_stochastic()', [A, B, C, D, E], cp, want=[E, A, C, B, D, D, A, E], before=groups)
    run(FLAT, ['o = m.copy()'], 'a run of a group of a copy', 'o.run_stochastic(group=0)', [A, B, C, D, E], cp, want=[A, C], before=groups)
    run(FLAT, ['o = m.copy(scope_assigned=False)', 'o["n"].assign(5)', 'o["v"].assign(arr1)', 'o["w"].assign(arr2)', 'o["t"].assign(df1)'],
        'a run of a copy without data, which is assigned later', 'o.run_stochastic()', every, cp, before=pre)
    # later changes of the copy and of the original
    changes = ['add_choice("d")', 'add_choice("a")', 'expressions.append("u.d - t.c")', 'expressions.append("u.d - t.c", group="g")', 'expressions.clear()', 'expressions.drop_group("g")',
               'clear_scope()', '["n"].assign(9)', '["v"].empty()', '["t"].empty()', 'declare_number("n")', 'declare_number("other")', 'run_stochastic()',
               'run_discrete(random_seed=seed)', 'preval("g")', 'preval("g", drop_group=False)', 'add_partial_utilities(pd.DataFrame(arr3, index=du, columns=m.choices))',
               'decision_units = du2', 'debug_id = any1']
    for made in ('m.copy()', 'm.copy_subset(mask)'):
        for x, y in (('o', 'm'), ('m', 'o')):
            if made == 'm.copy_subset(mask)' and y == 'o':
                continue
            for ch in changes:
                if made == 'm.copy_subset(mask)' and ('add_partial' in ch or 'assign(any1)' in ch):
                    continue
                for p in (pre, pre[:-1]):
                    if p is not pre and ch[:4] not in ('add_', 'run_', 'prev'):
                        continue
                    names = {'o': 'the copy', 'm': 'the original'}
                    stmt = f'{x}{"" if ch[0] == "[" else "."}{ch}'
                    W = run(FLAT, [f'o = {made}', stmt], f'a run of {names[y]} after {stmt} of {names[x]} ({made})' + ('' if p is pre else ' without partial utilities'),
                            f'{y}.run_stochastic()', every + [E], cp if made == 'm.copy()' else sub, want=every, before=p, end=f'{y}.choices, {y}.decision_units')
                    if W.value is None or len(W.parts) != 2:
                        continue
                    labels_ob(c, 'separate', W, W.parts[0], cp, W.what, FLAT)
                    c.ob('separate', cp, strip_st(W.parts[1]) is DU, 'a copy and its original have their own decision units', f'{W.what}: they are {show(W.parts[1], 4)}')
                    u = [z for z in W.seen if z[0] != 'add'][-1][3]
                    c.ob('separate', cp, not has_added(u), 'a copy and its original have their own partial utilities', f'{W.what}: the partial utilities of the other are used')
    subset(c, run, pre, every, sub)


def asked(c, run, body, what, fi, want, good, xs, exc):
    """Obligations on something that a copy has only if it was asked for."""
    W = run.program(body, what, xs)
    if not want:
        if W.refused():
            return c.ob('parts-copied', fi, True, 'only what was asked for is copied', '')
        c.ob('parts-copied', fi, any(raised_class(e) == exc for e in W.maybe()), 'only what was asked for is copied', f'{what}: copied although that was not asked for')
    elif W.refused():
        c.ob('parts-copied', fi, False, 'what was asked for is copied', f'{what}: not copied')
    elif good(W):
        c.ob('parts-copied', fi, True, 'what was asked for is copied', '')
    elif is_const(W.value) or W.value.op == 'param':
        c.ob('parts-copied', fi, False, 'what was asked for is copied', f'{what}: {show(W.value, 4)}')
    else:
        c.skip('parts-copied', fi, f'{what}: {show(W.value, 4)}')


def has_added(v):
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'upd' and x.args[1] == 'added':
                return True
            todo += x.args
    return False


def selections(v, depth=0):
    """(where data comes from, how often it was restricted by the mask)"""
    mask = t('param', 'mask')
    n = 0
    while depth < 40:
        depth += 1
        i = strip_alloc(strip_st(v))
        if i.op == 'mcall' and i.args[0] in ('copy', 'to_numpy', 'astype', 'view', 'ravel', 'reshape'):
            v = i.args[1]
        elif i.op == 'mcall' and i.args[0] == 'compress' and i.args[2] and of_mask(i.args[2][0], mask):
            v, n = i.args[1], n + 1
        elif i.op == 'attr' and i.args[1] in ('values', 'loc', 'iloc'):
            v = i.args[0]
        elif i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0] in ('pandas.DataFrame', 'numpy.array', 'numpy.asarray', 'numpy.copy') and i.args[1]:
            v = i.args[1][0]
        elif i.op == 'sub':
            ks = list(i.args[1].args) if i.args[1].op == 'tup' else [i.args[1]]
            hit = [j for j, k in enumerate(ks) if of_mask(k, mask)]
            if hit and hit != [0]:
                return i, n
            if hit or is_const(i.args[1], Ellipsis) or Reader.whole(None, ks[0]):
                v, n = i.args[0], n + len(hit)
            else:
                return t('sub', selections(i.args[0])[0], i.args[1]), n + selections(i.args[0])[1]
        else:
            return i, n
    return v, n


def of_mask(k, mask):
    k = strip_alloc(strip_st(k))
    while k.op in ('attr', 'mcall', 'call') and k is not mask:
        if k.op == 'attr' and k.args[1] in ('values', 'array'):
            k = strip_alloc(strip_st(k.args[0]))
        elif k.op == 'mcall' and k.args[0] in ('to_numpy', 'astype', 'copy'):
            k = strip_alloc(strip_st(k.args[1]))
        elif k.op == 'call' and k.args[0].op == 'glob' and k.args[0].args[0] in ('numpy.array', 'numpy.asarray', 'numpy.flatnonzero') and k.args[1]:
            k = strip_alloc(strip_st(k.args[1][0]))
        else:
            return False
    return k is mask


def subset(c, run, pre, every, fi):
    """A subset has the rows of the mask, and everything else."""
    P = lambda x: t('param', x)  # noqa: E731
    data = {'v': (P('arr1'), 1), 'w': (P('arr2'), 0), 't_c': (t('sub', P('df1'), const('c')), 1), 'u_d': (t('sub', P('df3'), const('d')), 0), 'x': (P('arr3'), 1)}
    for tn, tr in (('flat', FLAT), ('nest', NEST)):
        for p, what in ((pre, 'with partial utilities'), (pre[:-1], 'without partial utilities')):
            body = ['m = ChoiceModel(precision=4, debug_id=None)'] + tr.body()[1:] + ['m.decision_units = du'] + run_names(len(tr.order)) + p + added([E]) + \
                ['o = m.copy_subset(mask)', 'r = o.run_stochastic(clear_scope=False)',
                 'return o.precision, o.choices, [e.raw for e in o.expressions], o.decision_units, o["n"].filled, r[0]']
            W = run.program(body, f'a subset of a {tn} tree {what}', every + [E], len(tr.order), masks={'mask': 3})
            if W.refused() or len(W.parts) != 6:
                refuse(c, 'subset-complete', W, fi)
                continue
            known(c, 'settings-copied', fi, W.parts[0], 4, f'{W.what}: the precision is {show(W.parts[0], 3)}', 'settings are copied')
            labels_ob(c, 'tree-copied', W, W.parts[1], fi, W.what, tr)
            ys = W.it.elems(W.parts[2])
            want = [x for x in every + [E] if x is not D or p is not pre]
            if ys is not None:
                got = sorted(str(cval(strip_alloc(strip_st(y)))) for y in ys)
                c.ob('subset-complete', fi, got == sorted(x.text for x in want), 'a subset has all expressions', f'{W.what}: its expressions are {", ".join(got)}')
            else:
                c.skip('subset-complete', fi, f'{W.what}: {show(W.parts[2], 4)}')
            src, k = selections(W.parts[3])
            if src is DU:
                c.ob('subset-rows', fi, k == 1, 'a subset has the decision units of the mask', f'{W.what}: the decision units are {show(W.parts[3], 4)}')
            else:
                c.skip('subset-rows', fi, f'{W.what}: the decision units are {show(W.parts[3], 4)}')
            ks = [x for x in W.seen if x[0] != 'add']
            if not ks:
                c.skip('subset-rows', fi, f'{W.what}: no worker is called')
                continue
            util = ks[-1][3]
            evs = [Summed(W, x) for x in reached(util)]
            left = [x.made for x in every + [E]]
            import ast
            for s in evs:
                text, why = s.read()
                hit = [m for m in left if text is not None and ast.dump(ast.parse(m, mode='eval').body) == text]
                if hit:
                    left.remove(hit[0])
                mine = not (p is pre and hit and hit[0] == D.made)
                ps = s.pairs()
                if ps is None or text is None:
                    c.skip('subset-complete', fi, f'{W.what}: {why or show(s.text, 4)}')
                    continue
                for nm, v in ps.items():
                    if nm == 'n' or nm == 'k':
                        known(c, 'subset-rows', fi, v, {'n': 5.0, 'k': 7.0}[nm], f'{W.what}: {nm} is {show(v, 4)}', 'a subset has the numbers')
                    elif nm in data or nm == 't_c2':
                        src, k = selections(v)
                        i = strip_alloc(strip_st(src))
                        if i.op == 'mcall' and i.args[0] == 'to_numpy':
                            src, k2 = selections(i.args[1])
                            k += k2
                        w, times = data['t_c' if nm == 't_c2' else nm]
                        if not mine:
                            times = 0
                        if strip_alloc(strip_st(src)) is w:
                            c.ob('subset-rows', fi, k == times, 'data of a subset has the rows of the mask, data by choices all',
                                 f'{W.what}: the data of {nm} is {show(v, 5)}')
                        else:
                            c.skip('subset-rows', fi, f'{W.what}: the data of {nm} is {show(src, 5)}')
            c.ob('subset-complete', fi, not left, 'the utilities of a subset are the sum of the expressions', f'{W.what}: not added: {", ".join(left)}')
            # partial utilities
            src, k = selections(util)
            z = strip_alloc(strip_st(src))
            if z.op == 'call' and z.args[0] is glob('numpy.zeros'):
                n = W.it.shape_of(src)
                want_n, want_k = (NROWS, 1) if p is pre else (3, 0)
                if p is pre or k:
                    c.ob('subset-rows', fi, (n, k) == ((NROWS, len(tr.order)), 1), 'partial utilities of a subset have the rows of the mask',
                         f'{W.what}: the utilities are restricted {k} times')
                else:
                    c.ob('subset-rows', fi, n == (3, len(tr.order)), 'utilities of a subset have the rows of the mask', f'{W.what}: the utilities have the shape {n}')
            else:
                c.skip('subset-rows', fi, f'{W.what}: the utilities start from {show(src, 4)}')
    # the mask belongs to the decision units
    for mk, ok in (('pd.Series(arr1, index=du)', True), ('pd.Series(arr1, index=du2)', False)):
        W = run.program(FLAT.body() + ['m.decision_units = du', f'o = m.copy_subset({mk})', 'return 1'], f'a subset by {mk}', [])
        if ok:
            c.ob('mask-checked', fi, not W.refused(), 'a mask with the index of the decision units is accepted', f'{W.what} is refused')
        else:
            bad = W.refused() or W.maybe()
            c.ob('mask-checked', fi, bool(bad), 'a mask with another index is refused', f'{W.what} is not refused')


# ---------------------------------------------------------------------------------------------- trees and declarations
def p19(c):
    run = Runs(c, 'p19')
    add, adds = model_fn(c, 'add_choice'), model_fn(c, 'add_choices')
    nadd = c.p.fn('cheval.api.ChoiceNode.add_choice')
    for name, tr in TREES.items():
        what = f'the tree {", ".join(s for s, _ in tr.steps)}'
        for s in tr.order:
            x = var(s)
            up = s.rpartition('.')[0]
            kids = [y for y in tr.order if y.startswith(s + '.') and '.' not in y[len(s) + 1:]]
            low = max([y.count('.') + 1 for y in tr.order if y == s or y.startswith(s + '.')])
            W = run.program(tr.body() + [f'x = {x}', 'return x.name, x.full_name, x.level, x.is_parent, x.n_children, x.logsum_scale, x.max_level(), '
                                         f'{"x.parent is " + var(up) if up else "x.parent is None"}, str(x), sorted([k.name for k in x.children()])'], f'{what}: the node {s}', [])
            fi = nadd if up else add
            if W.refused() or len(W.parts) != 10:
                refuse(c, 'node-as-added', W, fi)
                continue
            last = s.rpartition('.')[2]
            want = (last, s, s.count('.') + 1, bool(kids), len(kids), float(tr.scale[s]), low, True, last)
            for v, w, nm in zip(W.parts, want, ('name', 'full name', 'level', 'is_parent', 'number of children', 'scale', 'depth below', 'parent', 'text')):
                known(c, 'node-as-added', fi, v, w, f'{W.what}: its {nm} is {show(v, 4)} instead of {w}', 'a choice has the name, parent, level and scale that it was added with')
            ys = W.it.elems(W.parts[9])
            if ys is not None and all(is_const(y) for y in ys):
                got = sorted(cval(y) for y in ys)
                c.ob('node-as-added', fi, got == sorted(k.rpartition('.')[2] for k in kids), 'a choice has the children that were added to it',
                     f'{W.what}: its children are {", ".join(got) or "none"}')
            else:
                c.skip('node-as-added', fi, f'{W.what}: children {show(W.parts[9], 4)}')
    # several at once
    for arg, scales in (('["c", "a", "b"]', None), ('("c", "a", "b")', (.5, .25, .75)), ('["c", "a", "b"]', (1.0, .5, .25))):
        call = f'm.add_choices({arg}' + (f', {list(scales)!r})' if scales else ')')
        W = run.program(['m = ChoiceModel()', f'd = {call}', 'm.decision_units = du', 'm.validate()',
                         'return m.choices, list(d), [d[k].name for k in d], [d[k].logsum_scale for k in d], [d[k].level for k in d]'], call, [])
        if W.refused() or len(W.parts) != 5:
            refuse(c, 'choices-as-added', W, adds)
            continue
        labels_ob(c, 'choices-as-added', W, W.parts[0], adds, call, Tree('c', 'a', 'b'))
        for v, w, nm in zip(W.parts[1:], (['c', 'a', 'b'], ['c', 'a', 'b'], list(scales or (1.0, 1.0, 1.0)), [1, 1, 1]), ('keys', 'names', 'scales', 'levels')):
            ys = W.it.elems(v)
            if ys is None or not all(is_const(strip_st(y)) for y in ys):
                c.skip('choices-as-added', adds, f'{call}: {nm} {show(v, 4)}')
            else:
                got = [cval(strip_st(y)) for y in ys]
                c.ob('choices-as-added', adds, got == w, 'several choices are added with their own names and scales', f'{call}: the {nm} are {got}')
    # what is refused
    for tn, tr, owner, fi in (('flat', FLAT, 'm', add), ('nest', NEST, 'm', add), ('nest', NEST, 'm_b', nadd), ('deep', DEEP, 'm_a_x', nadd)):
        for bad in ('"x.y"', '"."', '"_"', '"d", 0', '"d", 0.0', '"d", -0.5', '"d", 1.5', '"d", logsum_scale=2', '"a.b", 0.5'):
            call = f'{owner}.add_choice({bad})'
            W = run.program(tr.body() + [call, 'return 1'], f'{call} of a {tn} tree', [])
            c.ob('invalid-refused', fi, W.refused() and bool(W.raises()), 'invalid choices are refused', f'{W.what} is not refused')
            if not W.refused():
                continue
            W = run.program(tr.body() + ['m.decision_units = du', 'try:', f'    {call}', 'except Exception:', '    pass', 'm.validate()',
                                         'return m.choices, m.elemental_choices'] , f'{tn} tree after {call} was refused', [])
            if W.refused() or len(W.parts) != 2:
                refuse(c, 'refused-changes-nothing', W, fi)
            else:
                labels_ob(c, 'refused-changes-nothing', W, W.parts[0], fi, W.what, tr)
        for name in ('d', 'x_1', '_x', 'Walk', '__'):
            call = f'{owner}.add_choice("{name}", 0.5)'
            W = run.program(tr.body() + [f'x = {call}', 'return x.name'], f'{call} of a {tn} tree', [])
            c.ob('valid-accepted', fi, not W.refused(), 'valid choices are accepted', f'{W.what} is refused')
    for z in ('0', '0.0', '-1', '1.5', '2'):
        W = run.program(FLAT.body() + [f'm_a.logsum_scale = {z}', 'return 1'], f'setting a scale to {z}', [])
        c.ob('invalid-refused', add, W.refused() and bool(W.raises()), 'invalid scales are refused', f'{W.what} is not refused')
        W = run.program(FLAT.body() + ['m_a.logsum_scale = 0.5', 'try:', f'    m_a.logsum_scale = {z}', 'except Exception:', '    pass', 'return m_a.logsum_scale'],
                        f'setting a scale to {z}', [])
        if not W.refused():
            known(c, 'refused-changes-nothing', add, W.value, 0.5, f'{W.what}: the scale is {show(W.value, 3)}', 'a refused scale changes nothing')
    for z in ('0.5', '1', '1.0'):
        W = run.program(FLAT.body() + [f'm_a.logsum_scale = {z}', 'return m_a.logsum_scale'], f'setting a scale to {z}', [])
        if W.refused():
            refuse(c, 'valid-accepted', W, add)
        else:
            known(c, 'valid-accepted', add, W.value, float(z), f'{W.what}: the scale is {show(W.value, 3)}', 'valid scales are accepted')
    # declarations
    for kind in ('number("%s")', 'vector("%s", 0)', 'vector("%s", 1)', 'table("%s", 0)', 'table("%s", 1)', 'matrix("%s")', 'matrix("%s", 1)'):
        fi = model_fn(c, 'declare_' + kind.split('(')[0])
        for word in ('NAN', 'OUT', 'NEG_INF'):
            call = 'm.declare_' + kind % word
            W = run.program(FLAT.body() + [call, 'return 1'], call, [])
            c.ob('invalid-refused', fi, W.refused() and bool(W.raises()), 'reserved words cannot be declared', f'{call} is not refused')
            if W.refused():
                W = run.program(FLAT.body() + ['try:', f'    {call}', 'except Exception:', '    pass', f'x = m["{word}"]', 'return 1'], call, [])
                c.ob('refused-changes-nothing', fi, W.refused() or any(raised_class(e) == 'KeyError' for e in W.maybe()), 'a refused declaration changes nothing',
                     f'{call}: the symbol is declared although it was refused')
        for word in ('x', 'OUTER', 'nan', 'NAN_2'):
            call = 'm.declare_' + kind % word
            W = run.program(FLAT.body() + [call, f'return m["{word}"].filled'], call, [])
            if W.refused():
                refuse(c, 'valid-accepted', W, fi)
            else:
                known(c, 'valid-accepted', fi, W.value, False, f'{call}: the symbol holds data', 'a declared symbol holds no data')
    for call, kind in (('m.declare_vector("x", %s)', 'vector'), ('m.declare_table("x", %s)', 'table'), ('m.declare_matrix("x", %s)', 'matrix')):
        for z in ('2', '-1', '3'):
            W = run.program(FLAT.body() + [call % z, 'return 1'], call % z, [])
            c.ob('invalid-refused', model_fn(c, 'declare_' + kind), W.refused() and bool(W.raises()), 'orientations are 0 or 1', f'{call % z} is not refused')
    pr = model_fn(c, '__init__')
    for z in ('2', '16', '0', '7', '5', '-4'):
        for body in ([f'm = ChoiceModel(precision={z})', 'return 1'], ['m = ChoiceModel()', f'm.precision = {z}', 'return 1']):
            W = run.program(body, body[-2], [])
            c.ob('invalid-refused', pr, W.refused() and bool(W.raises()), 'the precision is 4 or 8', f'{body[-2]} is not refused')
        W = run.program(['m = ChoiceModel(precision=4)', 'try:', f'    m.precision = {z}', 'except Exception:', '    pass', 'return m.precision'], f'm.precision = {z}', [])
        if not W.refused():
            known(c, 'refused-changes-nothing', pr, W.value, 4, f'after {W.what} was refused, it is {show(W.value, 3)}', 'a refused precision changes nothing')
    for z in ('4', '8'):
        for body in ([f'm = ChoiceModel(precision={z})', 'return m.precision'], ['m = ChoiceModel()', f'm.precision = {z}', 'return m.precision']):
            W = run.program(body, body[-2], [])
            if W.refused():
                refuse(c, 'valid-accepted', W, pr)
            else:
                known(c, 'valid-accepted', pr, W.value, int(z), f'{body[-2]}: the precision is {show(W.value, 3)}', 'the precision is 4 or 8')
    W = run.program(['m = ChoiceModel()', 'return m.precision'], 'the precision of a model', [])
    if not W.refused():
        known(c, 'valid-accepted', pr, W.value, 8, f'{W.what} is {show(W.value, 3)}', 'the precision is 8 by default')


RULES = {'P15': p15, 'P16': p16, 'P17': p17, 'P19': p19}
