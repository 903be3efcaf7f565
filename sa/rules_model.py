"""Rules over the model: choices, results, readiness, scope, copies."""
from .lib import *  # noqa: F401,F403
from .lib import arg_of, callargs, callname, exc_class, flat_phi, key_comps, lin, lits, path_keys, uncast
from .rules_core import ROLES, WORKERS, core, roles

MODEL = 'cheval.model.ChoiceModel'
NODE = 'cheval.api.ChoiceNode'
GROUP = 'cheval.api.ExpressionGroup'
PUB = ('choices', 'elemental_choices', 'decision_units', 'depth')
RUNS = ('run_discrete', 'run_stochastic')
RESHAPERS = {'pandas.Index', 'numpy.array', 'numpy.asarray', 'builtins.list', 'builtins.tuple', 'builtins.iter',
             'pandas.MultiIndex.from_tuples', 'pandas.Categorical', 'pandas.Series', 'pandas.array'}
RESHAPE_M = {'.astype', '.to_flat_index', '.to_numpy', '.copy', '.tolist', '.rename', '.set_names', '.to_list', '.view'}
DISORDER = {'builtins.sorted', 'builtins.reversed', 'builtins.set', 'builtins.frozenset', 'numpy.unique', 'pandas.unique',
            '.sort_values', '.unique', '.sort', '.sortlevel', '.union', '.drop_duplicates', '.intersection', '.difference',
            '.append', '.drop', '.insert', '.dropna', '.sort_index', '.swaplevel', '.reorder_levels', 'numpy.sort',
            '.droplevel', '.get_level_values'}


def mfn(c, name):
    return c.p.fn(f'{MODEL}.{name}')


def SELF(res):
    return next(iter(res.params.values()))


def unwrap(x):
    """A value without the wrappers that keep its elements and their order; the list of merged values it can be."""
    out = []

    def go(y):
        if y.op == 'st' and y.args[1].op == 'eta':
            return out.append(y)
        y = strip_alloc(strip_st(y))
        if y.op == 'phi':
            go(y.args[1])
            go(y.args[2])
            return
        n = callname(y)
        if n in RESHAPERS and callargs(y):
            return go(callargs(y)[0])
        if n == 'pandas.Categorical' and tkw(y, 'values') is not None:
            return go(tkw(y, 'values'))
        if n in RESHAPE_M:
            return go(y.args[1])
        if y.op == 'attr' and y.args[1] in ('values', 'array'):
            return go(y.args[0])
        out.append(y)
    go(x)
    return out


def registry(c):
    """The mapping of choices that decides their order: what `choices` is made from."""
    res = c.run(mfn(c, 'choices'), noinline=('validate', 'depth', 'nested_id', 'full_name'))
    found = []
    for y in unwrap(res.value):
        d, elt, conds = series_of(y)
        if d is not None and d.op == 'attr' and strip_st(d.args[0]) is SELF(res):
            found.append(d.args[1])
    if not found:
        raise Broken('the registry of choices was not found behind `choices`')
    return found[0], res


def series_of(y):
    """(mapping, element, conditions) of a sequence made from the keys or values of a mapping, in order."""
    b = built(y)
    if b is not None and LOOPS[b[0]].domain is not None:
        return strip_st(LOOPS[b[0]].domain), b[1], b[2]
    y = strip_alloc(strip_st(y))
    n = callname(y)
    if n in ('.keys', '.values', '.items') and not callargs(y):
        return strip_st(y.args[1]), n[1:], ()
    if y.op == 'attr':
        return y, 'keys', ()
    return None, None, ()


def disorder(y):
    """A construct in a value that drops or reorders elements, or None."""
    for x in walk(y, False):
        n = callname(x)
        if n in DISORDER:
            return x
        if x.op == 'sub' and x.args[1].op == 'slice':
            return x
        if x.op == 'attr' and x.args[1] == 'categories':
            return x
        if x.op == 'collect' and x.args[0] == 'set':
            return x
    return None


def is_choices(x, facts=()):
    """True: the choices, in order. False: something that drops or reorders them. None: not known."""
    verdict = True
    for y in unwrap(x):
        if y.op == 'attr' and y.args[1] == 'choices':
            continue
        if disorder(y) is not None or (y.op == 'sub'):
            return False
        if y.op == 'attr' and y.args[1] in ('elemental_choices', 'decision_units'):
            return False
        verdict = None
    return verdict


# ---------------------------------------------------------------------------------------------- choice order
def node_at(d, iv):
    """The value of mapping `d` at position `iv` of its iteration."""
    return sub(d, sub(d, iv))


def p10(c):
    D, res = registry(c)
    me = SELF(res)
    d = t('attr', me, D)
    fi = mfn(c, 'choices')
    # the index of choices
    n = 0
    for fs, leaf in flat_phi(res.value):
        if infeasible(fs):
            continue
        for y in unwrap(leaf):
            if y.op == 'attr' and y.args[0] is me and y.args[1] != D:
                continue                                             # the cached index
            bad = disorder(y)
            dom, elt, conds = series_of(y)
            n += 1
            c.ob('choices-in-insertion-order', fi, bad is None and (dom is None or dom is d) and not conds,
                 'choices lists every node of the tree in the order of insertion',
                 f'choices is made from {show(y, 5)}' + (f' with condition {show(conds[0], 4)}' if conds else ''))
            if isinstance(elt, T):
                label_of(c, fi, elt, d, 'choices')
    c.ob('choices-found', fi, n > 0, 'choices is made from the registry of nodes')
    # elemental choices
    fi = mfn(c, 'elemental_choices')
    r2 = c.run(fi, noinline=('validate', 'depth', 'nested_id', 'full_name', 'choices', 'is_parent'))
    me2 = SELF(r2)
    for fs, leaf in flat_phi(r2.value):
        if infeasible(fs):
            continue
        for y in unwrap(leaf):
            if y.op == 'attr' and y.args[1] == 'choices':
                single = any(uncast(a).op == 'attr' and uncast(a).args[1] == 'depth' or
                             (uncast(a).op == 'attr' and uncast(a).args[1] == 'nlevels') for l, p in lits(fs) if l.op == 'cmp'
                             for a in l.args[1:])
                c.ob('elemental-order', fi, single, 'elemental choices are the choices when the model has one level')
                continue
            if y.op == 'sub' and any(u.op == 'attr' and u.args[1] == 'choices' for u in unwrap(y.args[0])):
                y = y.args[1]                                     # a mask over the choices, in their order
                c.ob('elemental-order', fi, disorder(y) is None, 'elemental choices are a subset of choices, in order')
                continue
            dom, elt, conds = series_of(y)
            ok = disorder(y) is None
            if dom is not None:
                ok = ok and dom is t('attr', me2, D)
                cs = [(l, p) for cd in conds for l, p in literals(cd, True)]
                ok2 = len(cs) == 1 and leaf_test(cs[0]) is True
                c.ob('elemental-are-leaves', fi, ok2, 'elemental choices are the nodes without children, all of them',
                     'elemental choices are selected by ' + (' and '.join(show(nneg(l) if not p else l, 5) for l, p in cs)
                                                            or 'nothing'))
            c.ob('elemental-order', fi, ok, 'elemental choices keep the order of choices', f'they are made from {show(y, 5)}')
    flatten_rule(c, D)
    nested_id_rule(c)
    samplers_given_tree(c)
    positions_from_choices(c)


def leaf_test(lit):
    """True if a literal says that a node has no children, False if it says it has, None if it is something else."""
    l, p = lit
    if l.op == 'attr' and l.args[1] == 'is_parent':
        return not p
    if l.op == 'cmp':
        a, b = l.args[1], l.args[2]
        for x, y in ((a, b), (b, a)):
            if x.op == 'attr' and x.args[1] == 'n_children' or (x.op == 'len' and child_map(x.args[0])):
                if is_const(y, 0) and l.args[0] == '==':
                    return p
                if is_const(y, 0) and l.args[0] == '<' and y is a:
                    return not p
                if is_const(y, 0) and l.args[0] == '<=' and y is b:
                    return p
                if is_const(y, 1) and l.args[0] == '<' and y is b:
                    return p
                if is_const(y, 1) and l.args[0] == '<=' and y is a:
                    return not p
    if l.op in ('attr', 'len') and (l.op == 'attr' and (child_map(l) or l.args[1] == 'n_children') or l.op == 'len' and
                                    child_map(l.args[0])):
        return not p
    return None


def child_map(x):
    x = strip_st(x)
    return x.op == 'attr' and 'child' in x.args[1]


def label_of(c, fi, elt, d, what):
    """The label of a node comes from the node visited: its nested id, full name, name or key."""
    es = [x for x in walk(elt, False) if x.op == 'sub' and x.args[0] is d] + [elt]
    if callname(elt) == '.nested_id':
        c.ob('label-of-node', fi, strip_st(elt.args[1]).op == 'sub' and strip_st(elt.args[1]).args[0] is d,
             f'{what}: each label is that of the node listed')


def flatten_rule(c, D):
    """The arrays given to the nested kernels describe the tree in the order of the choices."""
    r = c.run(mfn(c, 'run_stochastic'), noinline=WORKERS + PUB + ('validate', '_evaluate_utilities', 'full_name', 'is_parent',
                                                                 'n_children', 'clear_scope'))
    me = SELF(r)
    d = t('attr', me, D)
    calls = enters(r, 'worker_nested_probabilities')
    if not calls:
        raise Broken('run_stochastic does not call worker_nested_probabilities')
    e0 = calls[0]
    arrs = {}
    for role in ('hierarchy', 'levels', 'logsum_scales', 'bottom_flags'):
        a = arg_of(e0, roles(c, 'worker_nested_probabilities')[role].args[0])
        a = strip_st(a) if a is not None else None
        arrs[role] = a
    c.flatten_entry = e0
    for role, a in arrs.items():
        if a is None:
            c.ob('tree-array', e0, False, f'the nested kernel is given the {role}')
            continue
        if a.op != 'alloc':
            els = series_of(a)
            base = strip_alloc(a)
            if callname(base) in ('numpy.array', 'numpy.fromiter', 'numpy.asarray') and callargs(base):
                els = series_of(callargs(base)[0])
            if els[0] is d and isinstance(els[1], T) and not els[2]:
                value_ok(c, e0, role, els[1], None, d, None, ())
            else:
                c.skip('tree-array', e0, f'{role} is {show(a, 4)}')
            continue
        base = strip_alloc(a)
        if callname(base) in ('numpy.array', 'numpy.fromiter', 'numpy.asarray') and callargs(base):
            els = series_of(callargs(base)[0])
            if els[0] is d and isinstance(els[1], T) and not els[2]:
                value_ok(c, e0, role, els[1], None, d, None, ())
                continue
        sets = [e for e in r.events if e.kind == 'setsub' and strip_st(e.obj) is a]
        init = callargs(base)[1] if callname(base) == 'numpy.full' and len(callargs(base)) > 1 else \
            const(0) if callname(base) == 'numpy.zeros' else const(1) if callname(base) == 'numpy.ones' else None
        c.ob('tree-array', sets[0] if sets else e0, bool(sets), f'{role}: an entry is set for the nodes of the tree')
        if init is None:
            c.ob('tree-array', sets[0] if sets else e0, False, f'{role}: entries that are not set have a defined value',
                 f'{role} starts as {show(base, 4)}')
        for e in sets:
            pos = position_node(e.key, d)
            c.ob('tree-array-position', e, pos is not None, f'{role}: an entry is set at the position of a node among the '
                 'choices', f'{role}: an entry is set at {show(e.key, 5)}')
            if pos is not None:
                own = [(g if p else nneg(g)) for g, p, k in e.guards if k in ('if', 'sc', 'survive', 'implied')
                       and contains(g, pos, False)]
                value_ok(c, e, role, e.value, init, d, pos, own)


def position_node(k, d):
    """The node whose position among the values of `d` the term `k` is, or None."""
    k = uncast(k)
    if k.op == 'iv':
        dom = LOOPS[k.args[0]].domain
        return node_at(d, k) if dom is not None and strip_st(dom) is d else None
    b = built(k.args[0]) if k.op == 'sub' else None
    if b is not None:
        key = b[0]
        if LOOPS[key].domain is None or strip_st(LOOPS[key].domain) is not d or b[2]:
            return None
        iv = t('iv', key)
        pair = b[1].args if isinstance(b[1], T) and b[1].op == 'tup' else b[1]
        if isinstance(pair, T) or len(pair) != 2:
            return None
        kk, vv = pair
        if uncast(vv) is not iv:
            return None
        # the key of the map, as a function of the node
        target = k.args[1]
        nd = node_at(d, iv)
        hole = t('param', '$node')
        gen = subst(kk, {nd: hole})
        if gen is t('attr', hole, 'full_name'):
            if target.op == 'attr' and target.args[1] == 'full_name':
                return strip_st(target.args[0])
            if target.op == 'sub' and target.args[0] is d:          # the key of the registry is the full name
                return sub(d, target)
            return None
        if gen is hole:
            return target
        if kk is sub(d, iv):
            if target.op == 'attr' and target.args[1] == 'full_name':
                return strip_st(target.args[0])
            return sub(d, target)
        if callname(kk) == 'builtins.id' and callargs(kk)[0] is nd and callname(target) == 'builtins.id':
            return callargs(target)[0]
        return None
    if callname(k) == '.index' and callargs(k):
        dom, elt, conds = series_of(callargs(strip_alloc(strip_st(k.args[1])))[0]) \
            if callname(strip_alloc(strip_st(k.args[1]))) == 'builtins.list' else series_of(k.args[1])
        if dom is d and not conds:
            x = callargs(k)[0]
            if elt == 'keys':
                return strip_st(x.args[0]) if x.op == 'attr' and x.args[1] == 'full_name' else sub(d, x)
            if elt == 'values':
                return x
    return None


def is_attr(x, name, of=None):
    x = strip_st(x)
    return x.op == 'attr' and x.args[1].lstrip('_') == name and (of is None or strip_st(x.args[0]) is of)


def value_ok(c, e, role, v, init, d, nd, conds):
    """Whether the value of a tree array at a node is right."""
    ls = [(l, p) for cd in conds for l, p in literals(cd, True)]
    if nd is None:
        nds = [x for x in walk(v, False) if x.op == 'sub' and x.args[0] is d]
        nd = nds[0] if nds else None
        if nd is None:
            return c.skip('tree-array-value', e, f'{role}: {show(v, 4)}')
    if role == 'levels':
        dd, k = lin(v)
        ok = len(dd) == 1 and all(is_attr(x, 'level', nd) and cf == 1 for x, cf in dd.items()) and k == -1 and not ls
        c.ob('tree-array-value', e, ok, 'levels: a node is as deep as its level, the top being 0', f'levels: {show(v, 5)}')
    elif role == 'hierarchy':
        par = [x for x in walk(v, False) if is_attr(x, 'parent', nd)]
        for fs, leaf in flat_phi(v):
            pos = position_node(leaf, d)
            if pos is None and is_const(uncast(leaf)):
                nopar = any(l.op == 'cmp' and is_attr(l.args[1], 'parent', nd) and p for l, p in lits(fs))
                c.ob('tree-array-value', e, nopar and cval(uncast(leaf)) == -1, 'hierarchy: a node without parent has -1')
                continue
            ok = pos is not None and is_attr(pos, 'parent', nd)
            c.ob('tree-array-value', e, ok, 'hierarchy: the entry of a node is the position of its parent among the choices',
                 f'hierarchy: the entry is {show(leaf, 6)}')
            extra = [(l, p) for l, p in ls if not (l.op == 'cmp' and l.args[0] == 'is' and is_attr(l.args[1], 'parent', nd)
                                                   and not p) and not (is_attr(l, 'parent', nd) and p)
                     and not (l.op == 'cmp' and any(is_attr(a, 'level', nd) for a in l.args[1:]))]
            c.ob('tree-array-every-node', e, not extra, 'hierarchy: the entry is set for every node with a parent',
                 f'hierarchy: set only if {" and ".join(show(l if p else nneg(l), 4) for l, p in extra)}')
        if init is not None:
            c.ob('tree-array-value', e, is_const(uncast(init), -1) or not ls, 'hierarchy: a node without parent has -1',
                 f'hierarchy starts as {show(init)}')
    elif role == 'logsum_scales':
        leaves = [leaf for fs, leaf in flat_phi(v) if not (is_const(uncast(leaf), 1, 1.0) and any(
            leaf_test(q) for q in lits(fs)))]
        ok = all(is_attr(x, 'logsum_scale', nd) for x in leaves) and leaves
        c.ob('tree-array-value', e, ok, 'logsum_scales: a nest has its own scale', f'logsum_scales: {show(v, 5)}')
        extra = [q for q in ls if leaf_test(q) is not False]
        c.ob('tree-array-every-node', e, not extra, 'logsum_scales: the scale is set for every nest',
             f'logsum_scales: set only if {" and ".join(show(l if p else nneg(l), 4) for l, p in extra)}')
    elif role == 'bottom_flags':
        if is_const(v):
            lt = [leaf_test(q) for q in ls]
            want = bool(cval(v))
            ok = lt == [want] and init is not None and bool(cval(init)) is not want
        else:
            ok = not ls and [leaf_test(q) for q in literals(v, True)] == [True]
        c.ob('tree-array-value', e, ok, 'bottom_flags: set exactly for the nodes without children',
             f'bottom_flags: {show(v, 5)} if {" and ".join(show(l if p else nneg(l), 4) for l, p in ls)}')


def nested_id_rule(c):
    """The label of a node has its name at the place of its level, and its ancestors' names before."""
    fi = c.p.fn(f'{NODE}.nested_id')
    r = c.run(fi)
    me = SELF(r)
    ml = [v for k, v in r.params.items()][1]
    sets = [e for e in r.events if e.kind == 'setsub']
    names = [e for e in sets if is_attr(e.value, 'name')]
    if not names:
        return c.skip('label-level', fi, 'nested_id does not store names one by one')
    for e in names:
        nd = strip_st(strip_st(e.value).args[0])
        top = [1 for l, p in lits(e.facts()) if l.op == 'cmp' and is_attr(l.args[1], 'parent', nd) and p]
        k, kc = lin(e.key)
        ok = (is_const(uncast(e.key), 0) and bool(top)) or (
            len(k) == 1 and all(is_attr(x, 'level', nd) and cf == 1 for x, cf in k.items()) and kc == -1)
        c.ob('label-level', e, ok, 'the name of a node is at the place of its level', f'it is at {show(e.key, 4)}')
    for e in sets:
        if e in names:
            continue
        v = e.value
        if e.key.op == 'slice' and v.op == 'sub' and v.args[1].op == 'slice':
            same = [same_lin(a, b) if not (is_const(a, None) and is_const(b, None)) else True
                    for a, b in zip(e.key.args, v.args[1].args)]
            lo = is_const(e.key.args[0], None) or is_const(e.key.args[0], 0)
            hi, hc = lin(e.key.args[1])
            ok = all(same) and lo and (is_const(e.key.args[1], None) or (
                len(hi) == 1 and all(is_attr(x, 'level', me) and cf == 1 for x, cf in hi.items()) and hc >= -1) or
                uncast(e.key.args[1]) is ml)
            src = strip_alloc(strip_st(v.args[0]))
            ok = ok and callname(src) == '.nested_id' and is_attr(src.args[1], 'parent', me)
            c.ob('label-ancestors', e, ok, 'the places of the ancestors are those of the label of the parent',
                 f'{show(e.key, 4)} is set to {show(v, 4)}')
    # the padding
    for a in {strip_st(e.obj) for e in sets}:
        base = strip_alloc(a)
        pad = [x for x in walk(base, False) if x.op == 'const' and isinstance(cval(x), str)]
        c.ob('label-padding', fi, [cval(x) for x in pad] in (['.'], []), 'unused places of a label hold "."',
             f'they hold {[cval(x) for x in pad]}')


def samplers_given_tree(c):
    """Each run gives the nested kernels the tree arrays in the right roles, and uses them exactly for nested models."""
    for run in RUNS:
        r = c.run(mfn(c, run), noinline=WORKERS + PUB + ('validate', '_evaluate_utilities', '_flatten', 'clear_scope'))
        me = SELF(r)
        for w in WORKERS:
            for e in enters(r, w):
                nested = 'nested' in w
                ls = lits(e.facts())
                deep = [p for l, p in ls if l.op == 'cmp' and l.args[0] in ('<', '<=', '==') and any(
                    is_attr(a, 'depth', me) for a in l.args[1:])]
                m = [multi(l, p, me) for l, p in ls if multi(l, p, me) is not None]
                c.ob('kernel-for-depth', e, bool(m) and all(x is nested for x in m),
                     f'{run}: {w} is used exactly when the model is {"nested" if nested else "flat"}',
                     f'{run}: {w} is called under {", ".join(show(l if p else nneg(l), 4) for l, p in ls) or "no condition"}')
                if nested and c.p.functions.get(f'{MODEL}._flatten'):
                    got = {}
                    for role in ('hierarchy', 'levels', 'logsum_scales', 'bottom_flags'):
                        a = arg_of(e, roles(c, w)[role].args[0])
                        a = strip_st(a) if a is not None else None
                        got[role] = a
                    idx = [cval(a.args[1]) if a is not None and a.op == 'sub' and is_const(a.args[1]) and
                           callname(a.args[0]) == '._flatten' else None for a in got.values()]
                    if None not in idx:
                        # the order is that found to be right in the stochastic run
                        key = 'flatten_order'
                        if run == 'run_stochastic':
                            c.__dict__[key] = idx
                        c.__dict__.setdefault(key + run, idx)
    a, b = c.__dict__.get('flatten_orderrun_discrete'), c.__dict__.get('flatten_orderrun_stochastic')
    if a is not None and b is not None:
        c.ob('tree-arrays-in-role', mfn(c, 'run_discrete'), a == b,
             'both runs give the tree arrays to the nested kernels in the same roles', f'{a} against {b}')


def multi(l, p, me):
    """True if a literal says the model is nested, False if it says it is flat."""
    if l.op != 'cmp':
        return None
    a, b = l.args[1], l.args[2]
    isd = lambda x: is_attr(x, 'depth') or is_attr(x, 'nlevels')  # noqa: E731
    if l.args[0] == '<' and is_const(a, 1) and isd(b):
        return p
    if l.args[0] == '<=' and isd(a) and is_const(b, 1):
        return not p
    if l.args[0] == '==' and (isd(a) and is_const(b, 1) or isd(b) and is_const(a, 1)):
        return not p
    if l.args[0] == '<' and isd(a) and is_const(b, 2):
        return not p
    if l.args[0] == '<=' and is_const(a, 2) and isd(b):
        return p
    return None


def positions_from_choices(c):
    """Column positions (filters, dictionary literals, partial utilities) come from the index of choices."""
    n = 0
    for run in RUNS + ('preval', 'add_partial_utilities'):
        r = c.run(mfn(c, run), noinline=WORKERS + PUB + ('validate', 'fast_indexed_add', '_get'))
        me = SELF(r)
        for e in r.events:
            if e.kind == 'call' and e.func is not None and e.func.op == 'meth' and e.func.args[0] in (
                    'get_loc', 'get_indexer', 'get_locs', 'slice_indexer', 'searchsorted'):
                if not any(f.module.relpath.endswith(('model.py', 'expressions.py', 'api.py')) for f in e.frames[-1:]):
                    continue
                o = strip_st(e.obj)
                if any(is_attr(y, 'decision_units') for y in unwrap(o)):
                    continue
                v = is_choices(o)
                n += 1
                if v is None:
                    c.skip('column-position', e, f'position looked up in {show(o, 4)}')
                else:
                    c.ob('column-position', e, v, f'{run}: column positions are looked up in the index of choices',
                         f'{run}: a column position is looked up in {show(o, 5)}')
    c.ob('column-position-found', mfn(c, 'run_stochastic'), n > 0, 'column positions are looked up in the index of choices')


# ---------------------------------------------------------------------------------------------- results
def du_field(c):
    """The field behind the public `decision_units`."""
    if 'du' not in c.__dict__:
        r = c.run(c.p.fn(f'{MODEL}.decision_units'))
        f = [y.args[1] for fs, y in flat_phi(r.value) for y in [strip_st(y)] if y.op == 'attr' and y.args[0] is SELF(r)]
        if not f:
            raise Broken('the field behind decision_units was not found')
        c.du = f[0]
    return c.du


def is_du(c, x):
    ok = True
    for y in unwrap(x):
        if y.op == 'attr' and y.args[1] in ('decision_units', du_field(c)):
            continue
        ok = False
    return ok


def worker_part(x):
    """(worker, component) of a value that is one component of the result of a worker."""
    x = strip_st(x)
    if x.op == 'phi':
        a, b = worker_part(x.args[1]), worker_part(x.args[2])
        return a if a is not None and b is not None and a[1] == b[1] else None
    if x.op == 'sub' and is_const(x.args[1]) and isinstance(cval(x.args[1]), int):
        f = callname(x.args[0])
        if f and f.split('.')[-1] in WORKERS:
            return f.split('.')[-1], cval(x.args[1])
    return None


def raw_parts(x):
    return {worker_part(y) for y in walk(x, False) if worker_part(y)}


def frame_parts(x):
    """(kind, data, index, columns, name) of a Series or DataFrame that is constructed."""
    x = strip_alloc(strip_st(x))
    n = callname(x)
    if n not in ('pandas.DataFrame', 'pandas.Series'):
        return None
    a = callargs(x)
    data = a[0] if a else tkw(x, 'data')
    index = a[1] if len(a) > 1 else tkw(x, 'index')
    cols = (a[2] if len(a) > 2 else tkw(x, 'columns')) if n.endswith('Frame') else None
    name = tkw(x, 'name')
    return n.split('.')[1], data, index, cols, name


def plain(x):
    """The value a view or copy of whole array is taken from."""
    while True:
        x = strip_alloc(strip_st(x))
        n = callname(x)
        if n in ('.copy', '.astype', '.view', 'numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray'):
            x = x.args[1] if n[0] == '.' else callargs(x)[0]
        else:
            return x


def all_slice(k):
    return k.op == 'slice' and all(is_const(a, None) for a in k.args)


def column_of(x):
    """(array, column) when x is a column of a two-dimensional array."""
    x = plain(x)
    if x.op == 'sub' and x.args[1].op == 'tup' and len(x.args[1].args) == 2 and all_slice(x.args[1].args[0]):
        return plain(x.args[0]), x.args[1].args[1]
    if x.op == 'sub' and x.args[0].op == 'attr' and x.args[0].args[1] == 'T':
        return plain(x.args[0].args[0]), x.args[1]
    return None, None


def p11(c):
    p11_stochastic(c)
    p11_discrete(c)
    debug_rule(c)


def p11_stochastic(c):
    no = WORKERS + PUB + ('validate', '_evaluate_utilities', '_flatten', 'clear_scope', 'is_parent', 'n_children')
    # stochastic
    r = c.run(mfn(c, 'run_stochastic'), noinline=no)
    fi = r.fi
    out = strip_st(r.value)
    if out.op != 'tup' or len(out.args) != 3:
        raise Broken('run_stochastic no longer returns three results')
    for i, (what, comp, two) in enumerate((('probabilities', 0, True), ('logsums', 1, False), ('nested logsums', 2, True))):
        for fs, leaf in flat_phi(out.args[i]):
            if infeasible(fs):
                continue
            fp = frame_parts(leaf)
            if fp is None:
                c.skip('result-labelled', fi, f'{what}: {show(leaf, 4)}')
                continue
            kind, data, index, cols, _ = fp
            for f2, dl in flat_phi(data, fs):
                if infeasible(f2):
                    continue
                dl = plain(dl)
                mask = None
                if dl.op == 'sub' and worker_part(dl) is None and dl.args[1].op == 'tup' and all_slice(dl.args[1].args[0]):
                    mask = dl.args[1].args[1]
                    dl = plain(dl.args[0])
                wp = worker_part(dl)
                if wp is None and raw_parts(dl):
                    c.skip('result-component', fi, f'{what}: {show(dl, 4)}')
                elif wp is None:
                    c.ob('result-component', fi, False, f'{what} come from the kernel', f'{what} are {show(dl, 4)}')
                else:
                    c.ob('result-component', fi, wp[1] == comp, f'{what} are component {comp} of the kernel result',
                         f'{what} are component {wp[1]} of {wp[0]}')
                c.ob('result-index', fi, index is not None and is_du(c, index),
                     f'{what} are labelled with the decision units', f'{what} are labelled with {show(index, 4) if index else None}')
                if two:
                    columns_ok(c, fi, what, cols, mask, f2, wp)


def p11_discrete(c):
    no_d = WORKERS + PUB + ('validate', '_evaluate_utilities', '_flatten', 'clear_scope')
    r = c.run(mfn(c, 'run_discrete'), noinline=no_d)
    fi = r.fi
    out = strip_st(r.value)
    if out.op != 'tup' or len(out.args) != 2:
        raise Broken('run_discrete no longer returns two results')
    for fs, leaf in flat_phi(out.args[1]):
        fp = frame_parts(leaf)
        if fp is None:
            c.skip('result-labelled', fi, f'logsums: {show(leaf, 4)}')
            continue
        for f2, dl in flat_phi(fp[1], fs):
            wp = worker_part(plain(dl))
            if wp is not None:
                c.ob('result-component', fi, wp[1] == 1, 'logsums are component 1 of the kernel result', f'they are {wp}')
        c.ob('result-index', fi, fp[2] is not None and is_du(c, fp[2]), 'logsums are labelled with the decision units',
             f'they are labelled with {show(fp[2], 4) if fp[2] else None}')
    astype = r.params.get('astype')
    if astype is None:
        raise Broken('run_discrete no longer takes astype')
    idx = cmp('Eq', astype, const('index'))
    # labels
    labelled = 0
    for e in r.events:
        if e.kind != 'call' or not e.frames[-1].module.relpath.endswith('model.py'):
            continue
        got = label_lookup(e.value)
        if got is None or not raw_parts(got[1]):
            continue
        table, code = got
        labelled += 1
        facts = lits(e.facts())
        for f2, tl in flat_phi(table, tuple(facts)):
            v = is_choices(tl)
            if v is None:
                c.skip('label-table', e, show(tl, 5))
            else:
                c.ob('label-table', e, v, 'sampled positions are looked up in the choices, in order',
                     f'sampled positions are looked up in {show(tl, 6)}')
        for f2, cl in flat_phi(code, tuple(facts)):
            p = plain(cl)
            col = None
            if worker_part(p) is None:
                arr, col = column_of(p)
                p = arr
            c.ob('label-code', e, p is not None and worker_part(p) is not None and worker_part(p)[1] == 0,
                 'the positions looked up are those sampled', f'the positions looked up are {show(cl, 6)}')
            if col is not None and is_const(col):
                c.ob('label-every-draw', e, single_draw(facts, r), 'the result has a column for every draw',
                     f'column {show(col)} is used for every draw')
            if col is not None and uncast(col).op == 'iv':
                dom = LOOPS[uncast(col).args[0]].domain
                full = dom is not None and dom.op == 'range' and is_const(dom.args[0], 0) and ncols(dom.args[1], p, r)
                c.ob('label-every-draw', e, full, 'the result has a column for every draw',
                     f'columns are made for {show(dom, 4) if dom is not None else None}')
    c.ob('labels-looked-up', fi, labelled > 0, 'sampled positions are turned into labels of choices')
    nested_cast(c, r)
    for e in r.events:
        if e.kind != 'call':
            continue
        fp = frame_parts(e.value)
        if fp is None or fp[1] is None or not any(w[1] == 0 for w in raw_parts(fp[1])):
            continue
        if not e.frames[-1].module.relpath.endswith('model.py'):
            continue
        if fp[2] is None or is_const(fp[2], None):
            inherits = any(frame_parts(y) and frame_parts(y)[2] is not None for y in walk(fp[1], False))
            c.ob('result-index', e, inherits, 'sampled choices are labelled with the decision units', 'they have no labels')
        else:
            c.ob('result-index', e, is_du(c, fp[2]), 'sampled choices are labelled with the decision units',
                 f'sampled choices are labelled with {show(fp[2], 5)}')
        direct = [f2 for f2, dl in flat_phi(fp[1], tuple(lits(e.facts()))) if worker_part(plain(dl)) or (
            column_of(dl)[0] is not None and worker_part(column_of(dl)[0]))]
        for f2 in direct:
            ok = decide(idx, f2) is True
            c.ob('positions-only-for-index', e, ok, 'bare positions are only returned when asked for',
                 'bare positions are returned although labels are asked for')
            for dl in [dl for f3, dl in flat_phi(fp[1]) if column_of(dl)[0] is not None]:
                if is_const(column_of(dl)[1]):
                    one = single_draw(lits(e.facts()), r)
                    c.form('single-column', e, one, 'a single column is returned only when there is a single draw',
                         'the first column is returned although there are more draws')
    # squeezing
    for fs, leaf in flat_phi(out.args[0]):
        if infeasible(fs):
            continue
        x = strip_st(leaf)
        first = None
        if x.op == 'sub' and x.args[0].op == 'attr' and x.args[0].args[1] == 'iloc':
            first = x
        if callname(x) in ('.squeeze',):
            first = x
        if first is not None:
            c.form('single-column', fi, single_draw(lits(fs), r), 'a single column is returned only when there is a single draw',
                 'the first column is returned although there are more draws')


def nested_cast(c, r):
    """The choices of a nested model are a MultiIndex, which can neither be cast nor made a Categorical."""
    n = 0
    for e in r.events:
        if e.kind != 'call' or not e.frames[-1].module.relpath.endswith('model.py'):
            continue
        x = strip_alloc(strip_st(e.value))
        f = callname(x)
        if f == '.astype' and not (callargs(x) and (is_const(callargs(x)[0], 'object', 'O') or callargs(x)[0] is t('glob', 'builtins.object'))):
            obj = x.args[1]
        elif f == 'pandas.Categorical' and callargs(x):
            obj = callargs(x)[0]
        else:
            continue
        for f2, y in flat_phi(obj, tuple(lits(e.facts()))):
            y = strip_st(y)
            if infeasible(f2) or not (y.op == 'attr' and y.args[1] == 'choices' and y.args[0] is SELF(r)):
                continue
            says = [multi(l, p, SELF(r)) for l, p in f2]
            if any(v is False for v in says):
                n += 1
            elif any(v is None and any(z is y for z in walk(l, True)) for v, (l, p) in zip(says, f2)):
                c.skip('nested-labels', e, f'cast if {"; ".join(show(l, 4) for l, p in f2)}')
            else:
                c.ob('nested-labels', e, False, '', 'the choices of a nested model (a MultiIndex) are cast, which fails')
    c.ob('nested-labels', r.fi, True, f'{n} casts of the choices are for models without nests')


def label_lookup(x):
    """(table, codes) of a lookup of codes in a table of labels."""
    x = strip_alloc(strip_st(x))
    n = callname(x)
    if n == '.take' and callargs(x):
        return x.args[1], callargs(x)[0]
    if n == 'pandas.Categorical.from_codes':
        a = callargs(x)
        cats = a[1] if len(a) > 1 else tkw(x, 'categories')
        codes = a[0] if a else tkw(x, 'codes')
        return (cats, codes) if cats is not None and codes is not None else None
    if n == 'numpy.take' and len(callargs(x)) > 1:
        return callargs(x)[0], callargs(x)[1]
    return None


def ncols(x, arr, r):
    x = uncast(x)
    if x.op == 'sub' and x.args[0].op == 'attr' and x.args[0].args[1] == 'shape' and is_const(x.args[1], 1):
        return plain(x.args[0].args[0]) is arr
    return x is r.params.get('n_draws')


def single_draw(ls, r):
    for l, p in ls:
        if l.op == 'cmp' and l.args[0] == '==' and p and is_const(l.args[2], 1) and draws_count(l.args[1], r):
            return True
        if l.op == 'cmp' and l.args[0] == '<=' and p and is_const(l.args[2], 1) and draws_count(l.args[1], r):
            return True
        if l.op == 'cmp' and l.args[0] == '<' and not p and is_const(l.args[1], 1) and draws_count(l.args[2], r):
            return True
    return False


def draws_count(x, r):
    x = uncast(x)
    return x is r.params.get('n_draws') or (x.op == 'sub' and x.args[0].op == 'attr' and x.args[0].args[1] == 'shape'
                                            and is_const(x.args[1], 1)) or (x.op == 'len')


def columns_ok(c, fi, what, cols, mask, facts, wp):
    if cols is None or is_const(cols, None):
        return c.ob('result-columns', fi, False, f'{what} have the choices as columns', f'{what} have no column labels')
    for f2, cl in flat_phi(cols, facts):
        if infeasible(f2):
            continue
        if mask is None:
            v = is_choices(cl)
            if v is False and wp is not None and 'nested' not in wp[0]:
                v = all(y.op == 'attr' and y.args[1] == 'elemental_choices' for y in unwrap(cl))   # the same, when flat
            if v is None:
                c.skip('result-columns', fi, show(cl, 5))
            else:
                c.ob('result-columns', fi, v, f'{what} have the choices as columns', f'{what} have columns {show(cl, 5)}')
            continue
        # a selection of columns
        x = strip_alloc(strip_st(cl))
        if all(y.op == 'attr' and y.args[1] == 'elemental_choices' for y in unwrap(x)):
            okc = mask_is_elemental(mask)
        elif x.op == 'sub':
            okc = is_choices(x.args[0]) is True and strip_st(x.args[1]) is strip_st(mask) and mask_is_elemental(mask)
        else:
            okc = False
        if okc is None:
            c.skip('result-columns', fi, f'columns selected by {show(mask, 5)}')
        else:
            c.ob('result-columns', fi, okc, f'{what}: the columns kept and their labels are those of the elemental choices',
                 f'{what}: the columns kept are {show(mask, 5)}, the labels {show(cl, 5)}')


def mask_is_elemental(m):
    """Whether a mask or list of positions over the choices selects the elemental choices, in the order of choices."""
    m = strip_alloc(strip_st(m))
    n = callname(m)
    el = lambda x: all(y.op == 'attr' and y.args[1] == 'elemental_choices' for y in unwrap(x))  # noqa: E731
    if n == '.isin':
        return is_choices(m.args[1]) is True and el(callargs(m)[0])
    if n in ('.get_indexer',):
        return is_choices(m.args[1]) is True and el(callargs(m)[0])
    if n in ('numpy.flatnonzero',):
        return mask_is_elemental(callargs(m)[0])
    if n in ('numpy.array', 'numpy.asarray'):
        return mask_is_elemental(callargs(m)[0])
    if m.op == 'collect':
        d, elt, conds = series_of(m)
        if isinstance(elt, T) and not conds:
            ls = literals(elt, True)
            return len(ls) == 1 and leaf_test(ls[0]) is True
        return None
    if m.op == 'sub' and callname(m.args[0]) == '._flatten':
        return cval(m.args[1]) == 3
    if m.op in ('inv', 'not', 'neg'):
        return False if mask_is_elemental(m.args[0]) else None
    return None


def debug_rule(c):
    """The record whose utilities are kept for inspection is the one asked for."""
    r = c.run(mfn(c, 'run_stochastic'), noinline=WORKERS + PUB + ('validate', '_get', '_partial_utilities', 'clear_scope'))
    sets = [e for e in r.events if e.kind == 'setattr' and e.key == 'debug_results' and strip_st(e.obj) is SELF(r)]
    c.ob('debug-results', sets[0] if sets else r.fi, bool(sets), 'a run with a debug id keeps the utilities of that record')
    for e in sets:
        fp = frame_parts(e.value)
        own = [(l, p) for l, p in lits([g for g in e.guards if g[2] in ('if', 'sc')]) if contains(l, t('attr', SELF(r), 'debug_id'))]
        ok = all(l.op == 'cmp' and l.args[0] == 'is' and not p for l, p in own)
        c.ob('debug-any-id', e, ok, 'any label can be the debug id, also one that counts as false',
             f'results are kept only if {" and ".join(show(l if p else nneg(l), 4) for l, p in own)}')
        if fp is not None and fp[3] is not None:
            c.ob('debug-columns', e, is_choices(fp[3]) is not False, 'debug results have the choices as columns')
    locs = [e for e in r.events if e.kind == 'call' and e.func is not None and e.func.op == 'meth'
            and e.func.args[0] in ('get_loc', 'get_indexer') and any(contains(a, t('attr', SELF(r), 'debug_id')) for a in e.args)]
    for e in locs:
        c.ob('debug-record', e, is_du(c, e.obj), 'the debug id is looked up among the decision units',
             f'it is looked up in {show(e.obj, 4)}')


RULES = {'P10': p10, 'P11': p11}
