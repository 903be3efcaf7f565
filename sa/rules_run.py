"""Rules over a run of the model: the NaN barrier, readiness, evaluation of expressions."""
from .interp import view_roots
from .lib import *  # noqa: F401,F403
from .lib import arg_of, callargs, callname, exc_class, flat_phi, lits, raises, root, uncast
from .rules_core import WORKERS, roles
from .rules_model import (GROUP, MODEL, NODE, PUB, SELF, all_slice, du_field, frame_parts, is_choices, is_du, mfn, node_at,
                          registry, series_of, unwrap)

EVAL = 'numexpr.evaluate'
SAME_M = {'.copy', '.astype', '.view', '.to_numpy'}
SAME_F = {'numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'cheval.utils.to_numpy'}
OPAQUE = WORKERS + PUB + ('_get', '_partial_utilities', 'clear_scope', 'to_numpy', '_prepare_dict_literals', '_flatten',
                          '_convert_result', '_build_nested_stochastic_frame', 'full_name')
RUNS = ('run_discrete', 'run_stochastic', 'preval')
SUB = 'cheval.api.ExpressionSubGroup'


def content(x):
    """The array whose present content a value has: whole-array views, copies and wrappers are looked through."""
    while True:
        if x.op == 'st':
            if x.args[1].op != 'init':
                return x
            x = x.args[0]
            continue
        y = strip_alloc(x) if x.op == 'alloc' else x
        n = callname(y)
        if n in SAME_M:
            x = y.args[1]
        elif n in SAME_F and callargs(y):
            x = callargs(y)[0]
        elif n == 'pandas.DataFrame' and frame_parts(y)[1] is not None:
            x = frame_parts(y)[1]
        elif y.op == 'attr' and y.args[1] == 'values':
            x = y.args[0]
        elif y.op == 'sub' and (all_slice(y.args[1]) or is_const(y.args[1], Ellipsis)):
            x = y.args[0]
        elif y.op == 'phi' and content(y.args[1]) is content(y.args[2]):
            x = y.args[1]
        else:
            return x


def utility_sinks(c, name, noinline=OPAQUE):
    """(result, [(event, table)]): where a run hands the utility table on."""
    r = c.run(mfn(c, name), noinline=noinline)
    out = []
    for w in WORKERS:
        for e in enters(r, w):
            a = arg_of(e, roles(c, w)['utilities'].args[0])
            if a is not None:
                out.append((e, a))
    if name == 'preval':
        f = cache_field(c)
        out += [(e, e.value) for e in r.events if e.kind == 'setattr' and e.key == f and strip_st(e.obj) is SELF(r)]
    if not out:
        raise Broken(f'{name} hands its utilities to no computation')
    return r, out


def cache_field(c):
    """The attribute that holds partial utilities."""
    r = c.run(mfn(c, '_partial_utilities'), noinline=('validate',) + PUB)
    me = SELF(r)
    for _, leaf in flat_phi(r.value):
        x = strip_st(leaf)
        if x.op == 'attr' and strip_st(x.args[0]) is me:
            return x.args[1]
    for e in r.events:
        if e.kind == 'setattr' and strip_st(e.obj) is me:
            return e.key
    raise Broken('the cache of partial utilities was not found')


def evaluations(r):
    return [e for e in r.events if e.kind == 'call' and callname(e.value) == EVAL]


def out_array(e):
    """The whole array an evaluation writes to."""
    o = kwarg(e, 'out')
    if o is None and len(e.args) > 3:
        o = e.args[3]
    if o is None:
        return None
    rs = set(root(o))
    return rs.pop() if len(rs) == 1 else None


# ---------------------------------------------------------------------------------------------- P12
NAN_F = {'numpy.isnan', 'pandas.isna', 'pandas.isnull'}
NAN_M = {'.isna', '.isnull'}
AGG = {'sum', 'any', 'max', 'count_nonzero', 'amax'}


def nan_atom(x):
    """(array, kind): x is a count ('n'), 'any' flag ('b') or 'none' flag ('not') over the NaN cells of the array."""
    x = uncast(x)
    x = strip_alloc(x) if x.op == 'alloc' else x
    n = callname(x)
    if n is None:
        if x.op == 'inv' or x.op == 'not':
            a = nan_atom(x.args[0])
            if a and a[1] == 'cells':
                return a[0], 'notcells'
            if a and a[1] in ('b', 'not'):
                return a[0], 'not' if a[1] == 'b' else 'b'
        if x.op == 'attr' and x.args[1] == 'values':
            return nan_atom(x.args[0])
        return None
    short = n.split('.')[-1]
    if n in NAN_F or n in NAN_M:
        a = callargs(x)[0] if n in NAN_F else x.args[1]
        s = uncast(a)
        s = strip_alloc(s) if s.op == 'alloc' else s
        sn = callname(s)
        if sn in ('.sum', '.min', '.max', 'numpy.sum', 'numpy.min', 'numpy.max') and tkw(s, 'axis') is None:
            return (s.args[1] if sn[0] == '.' else callargs(s)[0]), 'b'
        return a, 'cells'
    inner = x.args[1] if n[0] == '.' else (callargs(x)[0] if callargs(x) else None)
    if n in ('.to_numpy', '.ravel', '.flatten', '.astype', 'numpy.ravel', 'numpy.asarray'):
        return nan_atom(inner)
    if (n[0] == '.' or n.startswith('numpy.') or n.startswith('builtins.')) and inner is not None:
        a = nan_atom(inner)
        if a is None:
            return None
        if short in ('sum', 'count_nonzero') and a[1] in ('cells', 'n', 'b'):
            return a[0], 'n'
        if short in ('any', 'max', 'amax') and a[1] in ('cells', 'b', 'n'):
            return a[0], 'b'
        if short == 'all' and a[1] in ('notcells', 'not'):
            return a[0], 'not'
    return None


def nan_claim(l, p):
    """(array, good): a literal about NaN cells of an array; good if it holds exactly when there are none."""
    for x in walk(l, False):
        a = nan_atom(x)
        if a is None or a[1] in ('cells', 'notcells'):
            continue
        if a[1] == 'n':
            good, bad = [const(0)], [const(k) for k in (1, 2, 3, 10 ** 6)]
        else:
            good, bad = [const(a[1] == 'not')], [const(a[1] != 'not')]
        ts = [truth(subst(l, {x: v})) for v in good]
        tb = [truth(subst(l, {x: v})) for v in bad]
        if None in tb and all(v == p for v in ts):
            rest = [subst(l, {x: v}) for v in bad]
            if not any(nan_atom(y) for z in rest for y in walk(z, False)):
                return a[0], False                # it depends on something else whether NaN cells pass
        if None in ts + tb:
            return a[0], None
        return a[0], all(v == p for v in ts) and all(v != p for v in tb)
    return None


def p12(c):
    for name in RUNS:
        r, sinks = utility_sinks(c, name)
        evs = evaluations(r)
        if not evs:
            raise Broken(f'{name} evaluates no expressions')
        U = out_array(evs[0])
        for e, table in sinks:
            cur = content(table)
            facts = lits(e.facts())
            what = 'the computation of probabilities' if e.kind != 'setattr' else 'the stored partial utilities'
            # the table checked is the table as evaluated
            evaluated = cur.op == 'st' and U is not None and cur.args[0] is U
            if not evaluated:
                c.ob('nan-table', e, False, 'the utilities used are those the expressions were evaluated into',
                     f'{what} is given {show(table, 5)}')
                continue
            k = cur.args[1]
            after = k.op == 'eta' and any(k.args[0] in v.loops for v in evs) or (
                k.op == 'upd' and k.args[1] == 'out')
            c.ob('nan-not-hidden', e, after, 'nothing changes the utilities between the last expression and their use',
                 f'the utilities are changed after the expressions were evaluated: {show(k, 4)}')
            claims = [(l, p, nan_claim(l, p)) for l, p in facts]
            claims = [(l, p, a) for l, p, a in claims if a is not None and contains(a[0], U)]
            good = [x for x in claims if x[2][1] is True and content(x[2][0]) is cur]
            unknown = [x for x in claims if x[2][1] is None] or [l for l, p in facts if l.op == 'exists' and any(
                nan_atom(y) for y in walk(l, False))]
            if not good and unknown:
                c.skip('nan-barrier', e, 'a check of NaN cells of a form that is not analysed')
                continue
            bad = 'the utilities are used without a check for NaN'
            if claims:
                l, p, a = claims[0]
                bad = f'{what} is reached when {"" if p else "not "}({show(l, 6)})' if a[1] is False else \
                    f'the check for NaN covers {show(a[0], 4)} only'
            c.ob('nan-barrier', e, bool(good), f'{what} is reached only if no cell of the table is NaN', bad)
            rs = []
            for l, p, a in good:
                for x in raises(c, r, 'UtilityBoundsError'):
                    if any(g is l and q is (not p) for g, q in lits(x.facts())):
                        rs.append(x)
            if good:
                c.ob('nan-error', e, bool(rs), 'a NaN cell raises UtilityBoundsError',
                     'a NaN cell does not raise UtilityBoundsError')


# ---------------------------------------------------------------------------------------------- P13
def top_field(c):
    """The attribute that holds the nodes of the top level."""
    r = c.run(mfn(c, 'add_choice'), noinline=('_create_node',))
    me = SELF(r)
    for e in r.events:
        if e.kind == 'mutate' and e.op in ('add', 'append'):
            o = strip_st(e.obj)
            if o.op == 'attr' and strip_st(o.args[0]) is me:
                return o.args[1]
        if e.kind == 'setsub':
            o = strip_st(e.obj)
            if o.op == 'attr' and strip_st(o.args[0]) is me:
                return o.args[1]
    raise Broken('add_choice does not record the choice as one of the top level')


def scope_field(c):
    r = c.run(mfn(c, '__getitem__'))
    x = strip_st(r.value)
    if x.op == 'sub' and strip_st(x.args[0]).op == 'attr':
        return strip_st(x.args[0]).args[1]
    raise Broken('the scope of symbols was not found')


def expr_field(c):
    r = c.run(mfn(c, 'expressions'))
    x = strip_st(r.value)
    if x.op == 'attr':
        return x.args[1]
    raise Broken('the expressions of the model were not found')


def count_test(l, p, atoms, good, bad):
    """Whether a literal holds for all the good values of a count and fails for all the bad ones (None: not known)."""
    m = atoms(l)
    if not m:
        return None
    out = []
    for v in good + bad:
        s = truth(subst(l, {a: f(v) for a, f in m}))
        if s is None:
            return None
        out.append(s == p)
    return all(out[:len(good)]) and not any(out[len(good):])


def len_atoms(test):
    """Atoms of a term that depend on the size of the collections `test` accepts."""
    def find(l):
        out = []
        for x in walk(l, False):
            if x.op == 'len' and test(strip_st(x.args[0])):
                out.append((x, lambda v: const(v)))
            elif test(strip_st(x)) and x.op in ('attr', 'st') and l is x:
                out.append((x, lambda v: const(v > 0)))
            elif x.op == 'bool' and test(strip_st(x.args[0])):
                out.append((x, lambda v: const(v > 0)))
        return out
    return find


def reserved(x):
    """A collection of reserved names."""
    x = strip_st(x)
    x = strip_alloc(x) if x.op == 'alloc' else x
    if x.op == 'glob':
        return x.args[0].split('.')[-1].startswith('RESERVED')
    return bool(any(y.op == 'glob' and y.args[0].split('.')[-1].startswith('RESERVED') for y in walk(x, False))) or \
        x.op == 'lit' and all(a.op == 'const' for a in x.args[1:])


def parts_of(x):
    """Sources a collection of names is put together from."""
    x = strip_st(x)
    x = strip_alloc(x) if x.op == 'alloc' else x
    n = callname(x)
    if n in ('builtins.list', 'builtins.set', 'builtins.tuple', 'builtins.sorted', 'builtins.frozenset', 'builtins.iter') and \
            len(callargs(x)) == 1:
        return parts_of(callargs(x)[0])
    if x.op == 'bin' and x.args[0] in ('+', '|'):
        return parts_of(x.args[1]) + parts_of(x.args[2])
    if x.op == 'bin' and x.args[0] == '-':
        return parts_of(x.args[1]) if reserved(x.args[2]) else [x]
    if n in ('.difference',):
        return parts_of(x.args[1]) if all(reserved(a) for a in callargs(x)) else [x]
    if n in ('itertools.chain',):
        return [y for a in callargs(x) for y in parts_of(a)]
    if n in ('.union',):
        return parts_of(x.args[1]) + [y for a in callargs(x) for y in parts_of(a)]
    if x.op == 'lit':
        out = []
        for a in x.args[1:]:
            if a.op != 'star':
                return [x]
            out += parts_of(a.args[0])
        return out
    b = built(x)
    if b is not None and not b[2] and LOOPS[b[0]].domain is not None and isinstance(b[1], T) and \
            b[1] is sub(LOOPS[b[0]].domain, t('iv', b[0])):
        return parts_of(LOOPS[b[0]].domain)
    return [x]


def own_container(c, r, name):
    """Terms for the expressions a run evaluates, per condition on the group."""
    me = SELF(r)
    allx = t('attr', me, expr_field(c))
    g = r.params.get('group')
    if g is None or name == 'run_discrete':
        return [((), allx)]
    one = t('mcall', 'get_group', allx, (g,), ())
    if name == 'preval':
        return [((), one)]
    return [(((cmp('Is', g, NONE), True),), allx), (((cmp('Is', g, NONE), False),), one)]


def group_of(c, x, me):
    """None: all the expressions; a term: those of this group; False: something else."""
    x = strip_st(x)
    allx = t('attr', me, expr_field(c))
    if x is allx:
        return None
    if callname(x) == '.get_group' and strip_st(x.args[1]) is allx and len(callargs(x)) == 1:
        return callargs(x)[0]
    if x.op == 'sub' and strip_st(x.args[0]).op == 'attr' and strip_st(x.args[0]).args[0] is allx:
        return x.args[1]
    return False


def container_ok(c, x, r, name, facts=()):
    """Whether a term is the container of expressions the run has to evaluate."""
    me, g = SELF(r), r.params.get('group')
    for fs, leaf in flat_phi(x, tuple(facts)):
        if infeasible(fs):
            continue
        got = group_of(c, leaf, me)
        if got is False:
            return False
        if name == 'run_discrete':
            if got is not None:
                return False
        else:
            d = decide(cmp('Is', g, NONE), fs)
            if got is None and d is not True:
                return False
            if got is not None and (got is not g or (d is not False and name != 'preval')):
                return False
    return True


def p13(c):
    D = registry(c)[0]
    top, scope = top_field(c), scope_field(c)
    for name in RUNS:
        r, sinks = utility_sinks(c, name)
        me = SELF(r)
        d = t('attr', me, D)
        topf, scf = t('attr', me, top), t('attr', me, scope)
        points = evaluations(r) + [e for e, _ in sinks]
        points = [e for e in points if e.kind != 'setattr']
        if not points:
            raise Broken(f'{name} evaluates nothing')
        for e in points:
            facts = lits(e.facts())
            where = f'{name} ({e.loc})'
            # at least two choices at the top
            vs = [count_test(l, p, len_atoms(lambda x: x is topf), [2, 3, 40], [0, 1]) for l, p in facts]
            weak = [show(l if p else nneg(l), 5) for (l, p), v in zip(facts, vs) if v is False]
            c.ob('needs-two-choices', e, any(v is True for v in vs),
                 f'{name}: expressions are evaluated only if there are two choices at the top level',
                 f'{name} goes ahead ' + (f'when {weak[0]}' if weak else 'whatever the number of choices'))
            # no nest with a single child
            ok, why = nests_checked(c, facts, d)
            if ok is None:
                c.skip('needs-full-nests', e, why)
            else:
                c.ob('needs-full-nests', e, ok, f'{name}: expressions are evaluated only if no nest has a single child', why)
            ok = any(l.op == 'cmp' and l.args[0] == 'is' and is_const(l.args[2], None) and not p and is_du(c, l.args[1])
                     for l, p in facts)
            c.ob('needs-decision-units', e, ok, f'{name}: expressions are evaluated only if decision units are set',
                 f'{name} goes ahead without decision units')
            for kind in ('declared', 'filled'):
                ok, why = symbols_checked(c, facts, r, name, scf, kind)
                if ok is None:
                    c.skip(f'needs-{kind}-symbols', e, why)
                else:
                    c.ob(f'needs-{kind}-symbols', e, ok,
                         f'{name}: expressions are evaluated only if every symbol used is {kind}', f'{name}: {why}')
    raised_class(c, top, D, scope)
    validate_parts(c, top, D, scope)
    symbols_filled(c)
    symbol_iters(c)


def child_len(d, key):
    nd = node_at(d, t('iv', key))

    def test(x):
        return x.op == 'attr' and 'child' in x.args[1] and strip_st(x.args[0]) is nd
    return test


def nests_checked(c, facts, d):
    why = 'nests with a single child are not refused'
    for l, p in facts:
        ex = none_such(l, p)
        if ex is None:
            if has_child_len(l):
                return None, show(l, 5)
            continue
        key, cond = ex
        dom = LOOPS[key].domain
        if dom is None or not has_child_len(cond):
            continue
        if strip_st(dom) is not d:
            s = series_of(dom)
            if s[0] is not d or s[2]:
                why = f'only the nodes of {show(dom, 4)} are checked for a single child'
                continue
        v = count_test(cond, True, len_atoms(child_len(d, key)), [1], [0, 2, 3])
        if v is True:
            return True, ''
        why = f'nodes are refused when {show(cond, 5)}'
        if v is None:
            at = len_atoms(child_len(d, key))(cond)
            if not at:
                return None, why
            why = f'a nest with a single child is refused only when {show(cond, 5)}'
    return False, why


def has_child_len(x):
    return any(y.op == 'len' and strip_st(y.args[0]).op == 'attr' and 'child' in strip_st(y.args[0]).args[1]
               for y in walk(x, False))


def symbols_checked(c, facts, r, name, scf, kind):
    """Whether the facts rule out a symbol that is not declared or filled."""
    covered = {}
    why = f'symbols that are not {kind} are not refused'
    undecided = None
    for l, p in facts:
        ex = none_such(l, p)
        if ex is None and kind == 'declared' and not p:
            x = strip_alloc(l) if l.op == 'alloc' else l
            rights = []
            while x.op == 'bin' and x.args[0] == '-':
                rights += parts_of(x.args[2])
                x = strip_st(x.args[1])
                x = strip_alloc(x) if x.op == 'alloc' else x
            if not any(strip_st(q) is scf or callname(q) == '.keys' and q.args[1] is scf for q in rights):
                continue
            dom, v = x, True
        elif ex is None or LOOPS[ex[0]].domain is None:
            continue
        else:
            key, cond = ex
            dom = LOOPS[key].domain
            nm = sub(dom, t('iv', key))
            v = symbol_test(cond, nm, scf, kind)
        if v is None:
            continue
        if v is not True:
            why = v
            continue
        for f2, leaf in flat_phi(dom, tuple(facts)):
            if infeasible(f2):
                continue
            for q in parts_of(leaf):
                n = callname(q)
                if n in ('.itersimple', '.iterchained') and not callargs(q) and not q.args[3]:
                    if container_ok(c, q.args[1], r, name, f2):
                        covered.setdefault(n, []).append(f2)
                    else:
                        why = f'the symbols checked are those of {show(q.args[1], 5)}'
                elif n in ('.itersimple', '.iterchained'):
                    why = f'the symbols checked are {show(q, 5)}'
                else:
                    undecided = show(q, 5)
    missing = [n for n in ('.itersimple', '.iterchained') if n not in covered]
    if not missing:
        return True, ''
    if undecided:
        return None, f'symbols of {undecided}'
    if len(missing) == 1:
        why = f'symbols of {missing[0][1:]}() are not checked' if why.startswith('symbols that') else why
    return False, why


def symbol_test(cond, nm, scf, kind):
    """True if the condition refuses a symbol that is not declared/filled; a text if not; None if it is about something else."""
    inn = cmp('In', nm, scf)
    fl = [x for x in walk(cond, False) if x.op == 'attr' and x.args[1] == 'filled']
    gets = [x for x in walk(cond, False) if callname(x) == '.get' and strip_st(x.args[1]) is scf]
    mem = [x for x in walk(cond, False) if x is inn]
    if not (fl or mem or gets):
        return None
    if kind == 'filled' and not fl or kind == 'declared' and not (mem or gets):
        return None
    m = {}
    for x in walk(cond, False):
        if x.op == 'cmp' and x.args[0] == '==' and nm in x.args[1:] and any(is_const(a) for a in x.args[1:]):
            m[x] = FALSE
        if x.op == 'cmp' and x.args[0] == 'in' and x.args[1] is nm and x is not inn:
            m[x] = FALSE
        if x.op == 'cmp' and x.args[0] == 'is' and x.args[1] in gets and is_const(x.args[2], None):
            m[x] = const(kind == 'declared')
    for x in mem:
        m[x] = const(kind != 'declared')
    for x in fl:
        m[x] = FALSE
    v = truth(subst(cond, m))
    if v is True:
        # and nothing is refused that is fine
        g = dict(m)
        for x in mem + fl:
            g[x] = TRUE
        for x in list(g):
            if x.op == 'cmp' and x.args[0] == 'is':
                g[x] = FALSE
        if truth(subst(cond, g)) is True:
            return 'a symbol that is declared and filled is refused'
        return True
    if v is False:
        return None if kind == 'declared' and fl else f'a symbol that is not {kind} passes: it is refused when {show(cond, 5)}'
    return f'a symbol that is not {kind} is refused only when {show(cond, 6)}'


def raised_class(c, top, D, scope):
    """What is raised when the model is not ready is a ModelNotReadyError."""
    for name in RUNS:
        r, sinks = utility_sinks(c, name)
        n = 0
        for e in r.events:
            if e.kind == 'raise' and e.frames and e.frames[-1].module.relpath.endswith('model.py'):
                about = {x for l, p in lits([g for g in e.guards if g[2] in ('if', 'sc')]) for x in walk(l, False)}
                me = SELF(r)
                if any(x in about for x in (t('attr', me, top), t('attr', me, scope))) or any(
                        x.op == 'attr' and x.args[1] == 'filled' for x in about) or any(
                        x.op == 'attr' and 'child' in x.args[1] for x in about):
                    n += 1
                    q = exc_class(c.p, e)
                    ok = q is not None and q.split('.')[-1] == 'ModelNotReadyError'
                    c.ob('raises-not-ready', e, ok, 'a model that is not ready raises ModelNotReadyError', f'{q} is raised')
        c.ob('raises-found', r.fi, n > 0, f'{name} raises when the model is not ready')


def validate_parts(c, top, D, scope):
    """validate() checks what its flags ask for, and only that."""
    fi = mfn(c, 'validate')
    names = {a.arg for a in fi.node.args.kwonlyargs + fi.node.args.args}
    flags = ('tree', 'decision_units', 'expressions', 'assignment')
    if not set(flags) <= names:
        raise Broken('the flags of validate() were not found')
    table = [((True, True, True, True), 'TDEA'), ((True, False, False, False), 'T'), ((False, True, False, False), 'D'),
             ((True, True, False, False), 'TD'), ((False, False, True, False), 'E'), ((False, False, True, True), 'EA'),
             ((False, False, False, False), '')]
    for vals, want in table:
        r = c.run(fi, noinline=('full_name', '_get', 'clear_scope', 'choices', 'elemental_choices', 'depth'),
                  bind={k: const(v) for k, v in zip(flags, vals)})
        me = SELF(r)
        got = set()
        for e in r.events:
            if e.kind != 'raise':
                continue
            about = {x for l, p in lits([g for g in e.guards if g[2] in ('if', 'sc')]) for x in walk(l, False)}
            if t('attr', me, top) in about or any(x.op == 'attr' and 'child' in x.args[1] for x in about):
                got.add('T')
            if any(is_du(c, x) for x in about if x.op == 'attr'):
                got.add('D')
            if t('attr', me, scope) in about:
                got.add('A' if any(x.op == 'attr' and x.args[1] == 'filled' for x in about) else 'E')
        on = ', '.join(f for f, v in zip(flags, vals) if v) or 'nothing'
        miss = set(want) - got
        c.ob('validate-flags', fi, not miss, f'validate({on}) makes every check asked for',
             f'validate with {on} on makes no check of ' + ', '.join({'T': 'the tree', 'D': 'the decision units', 'E':
                                                                     'declarations', 'A': 'assignments'}[m] for m in sorted(miss)))
        if not set(vals[2:]) & {True}:
            c.ob('validate-flags', fi, not got & {'E', 'A'}, f'validate({on}) does not check symbols',
                 f'validate with {on} on checks symbols')
        if not vals[0]:
            c.ob('validate-flags', fi, 'T' not in got, f'validate({on}) does not check the tree', 'the tree is checked')


SYMBOLS = ('NumberSymbol', 'VectorSymbol', 'TableSymbol', 'MatrixSymbol')


def data_field(c, cls):
    """The attribute that holds the data of a symbol."""
    r = c.run(f'cheval.api.{cls}.filled')
    x = strip_st(r.value)
    me = SELF(r)
    for y in walk(x, False):
        if y.op == 'attr' and strip_st(y.args[0]) is me:
            return y.args[1], r
    raise Broken(f'the data of {cls} was not found')


def symbols_filled(c):
    for cls in SYMBOLS:
        f, r = data_field(c, cls)
        me = SELF(r)
        v = strip_st(r.value)
        none = cmp('Is', t('attr', me, f), NONE)
        ok = (v.op == 'not' and v.args[0] is none) or v is nneg(none)
        at0 = truth(subst(v, {t('attr', me, f): const(0.0)}))
        if not ok and at0 is not False:
            c.skip('symbol-filled', r.fi, show(v, 5))
        else:
            c.ob('symbol-filled', r.fi, ok, f'a {cls} is filled exactly when it has data, whatever the data',
                 f'filled is {show(v, 5)}')
        r2 = c.run(f'cheval.api.{cls}.empty')
        m2 = SELF(r2)
        sets = [e for e in r2.events if e.kind == 'setattr' and strip_st(e.obj) is m2 and e.key == f]
        c.ob('symbol-emptied', r2.fi, any(is_const(e.value, None) and not own_ifs(e) for e in sets),
             f'an emptied {cls} is not filled')
        r3 = c.run(f'cheval.api.{cls}.__init__')
        m3 = SELF(r3)
        sets = [e for e in r3.events if e.kind == 'setattr' and strip_st(e.obj) is m3 and e.key == f]
        c.ob('symbol-starts-empty', r3.fi, bool(sets) and is_const(sets[-1].value, None), f'a new {cls} is not filled')


def own_ifs(e):
    return [(g, p) for g, p, k in e.guards if k in ('if', 'sc', 'except')]


def symbol_iters(c):
    """The symbols a container gives are all those of its expressions."""
    for kind in ('simple', 'chained'):
        r = c.run(f'{SUB}.iter{kind}')
        ys = [e for e in r.events if e.kind == 'yield']
        ok = any(is_all_of(e.value, lambda d: d.op == 'attr' and d.args[1] == f'{kind}_symbols') and not own_ifs(e) for e in ys)
        if not ys and strip_st(r.value).op != 'const':
            c.skip('group-symbols', r.fi, show(r.value, 4))
        else:
            c.ob('group-symbols', r.fi, ok, f'a group gives all of its {kind} symbols')
        g = c.run(f'{GROUP}.iter{kind}', noinline=('itersimple', 'iterchained'), bind={'groups': TRUE})
        ys = [e for e in g.events if e.kind == 'yield']
        own = any(is_all_of(e.value, lambda d: d.op == 'attr' and f'{kind}_symbols' in d.args[1]) and not own_ifs(e)
                  and len(e.loops) == 1 for e in ys)
        inner = any(is_all_of(e.value, lambda d: callname(d) == f'.iter{kind}' or (
            d.op == 'attr' and d.args[1] == f'{kind}_symbols')) and not own_ifs(e) and len(e.loops) == 2 for e in ys)
        if not ys and strip_st(g.value).op != 'const':
            c.skip('all-symbols', g.fi, show(g.value, 4))
            continue
        c.form('all-symbols', g.fi, own, f'the {kind} symbols of ungrouped expressions are given')
        c.form('all-symbols', g.fi, inner, f'the {kind} symbols of every group are given')


def is_all_of(v, test):
    """Whether a yielded value runs over a whole collection the test accepts."""
    v = strip_st(v)
    if v.op == 'sub' and uncast(v.args[1]).op == 'iv':
        dom = LOOPS[uncast(v.args[1]).args[0]].domain
        return dom is not None and strip_st(dom) is strip_st(v.args[0]) and test(strip_st(v.args[0]))
    return False


# ---------------------------------------------------------------------------------------------- P14
def own_guards(e, key):
    """Conditions of an event that arose inside a loop."""
    return [g for g in e.guards[len(LOOPS[key].entry_guards):] if g not in LOOPS[key].entry_guards]


def stops(c, r, g):
    """Whether a survived condition is one that raises otherwise."""
    bad = {(l, q) for l, q in literals(g[0], not g[1])}
    return any(e.kind == 'raise' and any((x, p) in bad for x, p, _ in e.guards) for e in r.events)


def expr_loop(e, r, name, c):
    """(loop, element term): the loop over the expressions of the run that an event is in."""
    for k in e.loops:
        dom = LOOPS[k].domain
        if dom is None:
            continue
        ds = parts_of(dom)
        if len(ds) == 1 and any(group_of(c, leaf, SELF(r)) is not False for _, leaf in flat_phi(ds[0])):
            return k, sub(dom, t('iv', k)), ds[0]
    return None, None, None


def text_of(x):
    """Pieces of a string: constants and terms."""
    if x.op == 'fstr':
        return [y for a in x.args for y in text_of(a)]
    if x.op == 'const' and isinstance(cval(x), str):
        return [cval(x)]
    if x.op == 'fmt' or callname(x) == 'builtins.str':
        return text_of(x.args[0] if x.op == 'fmt' else callargs(x)[0])
    return [x]


def adds_expression(x, elem, outs):
    """Whether the text evaluated is the output so far plus the expression, whatever the expression."""
    import ast
    ps = text_of(x)
    terms = [p for p in ps if isinstance(p, T)]
    if len(terms) != 1 or not is_transformed(terms[0], elem):
        return None if not any(is_transformed(y, elem) for y in walk(x, False)) else None
    try:
        got = ast.dump(ast.parse(''.join('A_ < B_' if isinstance(p, T) else p for p in ps), mode='eval'))
    except SyntaxError:
        return False
    for o in outs:
        for s in (f'{o} + (A_ < B_)', f'(A_ < B_) + {o}'):
            if got == ast.dump(ast.parse(s, mode='eval')):
                return True
    return False


def is_transformed(x, elem):
    while True:
        x = strip_st(x)
        n = callname(x)
        if n in ('.strip', '.rstrip', '.lstrip', 'builtins.str'):
            x = x.args[1] if n[0] == '.' else callargs(x)[0]
        else:
            return x.op == 'attr' and x.args[1] == 'transformed' and same_elem(x.args[0], elem)


def same_elem(x, elem):
    return strip_st(x) is strip_st(elem)


def filter_of(x, elem):
    return any(y.op == 'attr' and y.args[1] == 'filter_' and same_elem(y.args[0], elem) for y in walk(x, False))


def local_objects(e, r):
    """The dict of names given to an evaluation, and the dicts it was copied from."""
    l = kwarg(e, 'local_dict')
    if l is None and len(e.args) > 1:
        l = e.args[1]
    if l is None:
        return []
    out, todo = [], [l]
    while todo:
        x = strip_st(todo.pop())
        if x in out:
            continue
        if x.op == 'phi':
            todo += list(x.args[1:])
            continue
        out.append(x)
        if x.op in ('mu', 'eta') and x.args[0] in LOOPS:
            for d in (LOOPS[x.args[0]].init, LOOPS[x.args[0]].step):
                if x.args[1] in d:
                    todo.append(d[x.args[1]])
        y = strip_alloc(x) if x.op == 'alloc' else x
        n = callname(y)
        if n == '.copy':
            todo.append(y.args[1])
        elif n in ('builtins.dict', 'copy.copy') and callargs(y):
            todo.append(callargs(y)[0])
        elif y.op == 'dictlit':
            todo += [a[1] for a in y.args if isinstance(a, tuple) and a[0].op == 'star']
        elif y.op == 'bin' and y.args[0] == '|':
            todo += list(y.args[1:])
    return out


def entries(objs, r):
    """(event or None, key, value) of what is put in a set of dicts."""
    out = []
    for o in objs:
        y = strip_alloc(o) if o.op == 'alloc' else o
        if y.op == 'dictlit':
            for a in y.args:
                if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], T) and a[0].op != 'star':
                    out.append((None, a[0], a[1]))
        b = built(o)
        if b is not None and isinstance(b[1], T) and b[1].op == 'tup':
            out.append((None, b[1].args[0], b[1].args[1]))
    for e in r.events:
        if e.kind == 'setsub' and any(x in objs for x in flat_roots(e.obj)):
            out.append((e, e.key, e.value))
        if e.kind == 'mutate' and e.op == 'update' and any(x in objs for x in flat_roots(e.obj)) and e.args:
            b = built(e.args[0])
            if b is not None and isinstance(b[1], T) and b[1].op == 'tup':
                out.append((e, b[1].args[0], b[1].args[1]))
    return out


def flat_roots(x):
    return [strip_st(leaf) for _, leaf in flat_phi(x)]


def all_loops(e, *terms):
    """Loops a stored entry runs over: those of the event and of the terms."""
    ks = list(e.loops) if e is not None else []
    for x in terms:
        for y in walk(x, False):
            if y.op == 'iv' and y.args[0] not in ks:
                ks.append(y.args[0])
    return ks


def p14(c):
    p14_runs(c)
    containers(c)
    column_mask(c)
    preval_rule(c)


def p14_runs(c):
    sf = scope_field(c)
    for name in RUNS:
        r, sinks = utility_sinks(c, name)
        me = SELF(r)
        evs = evaluations(r)
        if not evs:
            raise Broken(f'{name} evaluates no expressions')
        U = out_array(evs[0])
        if U is None:
            c.skip('evaluated-into', evs[0], f'{name}: results of expressions are not written to one array')
            continue
        groups = {}
        for e in evs:
            key, elem, dom = expr_loop(e, r, name, c)
            c.ob('each-expression', e, key is not None, f'{name}: every expression is evaluated',
                 f'{name} evaluates a text that does not come from a loop over the expressions')
            if key is None:
                continue
            c.ob('own-expressions', e, container_ok(c, dom, r, name, lits(e.facts())),
                 f'{name}: the expressions evaluated are those of the model or of the group asked for',
                 f'{name} evaluates the expressions of {show(dom, 5)}')
            groups.setdefault(key, []).append((e, elem))
        for key, es in groups.items():
            one_evaluation(c, r, name, key, es)
            for e, elem in es:
                one_expression(c, r, name, key, e, elem, U, sf)
        only_evaluated(c, r, name, U, evs, sinks)


def one_evaluation(c, r, name, key, es):
    conds = []
    for e, elem in es:
        lp = LOOPS[key]
        if lp.has_break:
            c.ob('once-each', e, False, f'{name}: every expression is evaluated', 'the loop over the expressions can stop early')
        own = [g for g in own_guards(e, key) if g[2] in ('if', 'sc', 'except') or (g[2] in ('survive', 'implied')
                                                                                 and not stops(c, r, g))]
        own = [g for g in own if not (g[0].op == 'exists')]
        own = [g for g in own if g[2] != 'loopexit']
        conds.append(conj(*[g if p else nneg(g) for g, p, _ in own]))
        extra = [k for k in e.loops if k != key and k not in LOOPS[key].outer and e.loops.index(k) > e.loops.index(key)]
        if extra:
            d = LOOPS[extra[0]].domain
            if d is not None and any(contains(d, x) for x in (elem,)):
                c.ob('once-each', e, False, f'{name}: an expression is evaluated once',
                     f'an expression is evaluated once for each of {show(d, 5)}')
            else:
                c.skip('once-each', e, f'evaluated in a loop over {show(d, 4) if d is not None else "?"}')
        outer = [k for k in e.loops if e.loops.index(k) < e.loops.index(key)]
        if outer:
            d = LOOPS[outer[0]].domain
            c.skip('once-each', e, f'expressions are evaluated in a loop over {show(d, 4) if d is not None else "?"}')
    e = es[0][0]
    if len(es) == 1:
        cond = conds[0]
        c.ob('once-each', e, truth(cond) is True, f'{name}: an expression is evaluated whatever it is',
             f'an expression is evaluated only when {show(cond, 6)}')
        return
    for i, (a, _) in enumerate(es):
        for j, (b, _) in enumerate(es[:i]):
            if not infeasible([(conds[i], True), (conds[j], True)]):
                if truth(conds[i]) is True and truth(conds[j]) is True:
                    c.ob('once-each', a, False, f'{name}: an expression is evaluated once',
                         f'an expression is evaluated here and at {b.loc}')
                else:
                    c.skip('once-each', a, f'evaluated under {show(conds[i], 5)} and {show(conds[j], 5)}')
    if infeasible([(x, False) for x in conds]) or truth(disj(*conds)) is True:
        c.ob('once-each', e, True, f'{name}: an expression is evaluated whatever it is')
    else:
        c.skip('once-each', e, 'expressions are evaluated in several places')


def one_expression(c, r, name, key, e, elem, U, sf):
    me = SELF(r)
    objs = local_objects(e, r)
    if not objs:
        return c.skip('names', e, 'no dict of names')
    ent = entries(objs, r)
    outs = [cval(k) for _, k, v in ent if is_const(k) and content(v) is U or is_const(k) and strip_st(v) is U]
    c.ob('adds-to-output', e, bool(outs), f'{name}: the utilities so far are a name of the expression')
    v = adds_expression(e.args[0] if e.args else kwarg(e, 'ex'), elem, set(outs))
    if v is None:
        c.ob('text-of-expression', e, contains(e.args[0], elem), f'{name}: what is evaluated is the expression',
             f'what is evaluated is {show(e.args[0], 5)}')
        c.skip('adds-to-output', e, show(e.args[0], 5))
    else:
        c.ob('adds-to-output', e, v, f'{name}: the value of an expression is added to the utilities so far',
             f'what is evaluated is {show(e.args[0], 5)}')
    # names of its own
    d0 = objs[0]
    al = r.interp.alloc_loops.get(d0)
    if d0.op == 'alloc' and al is not None:
        writes = [x for x in entries([d0], r) if x[0] is not None and key in x[0].loops]
        if writes:
            c.ob('own-names', e, key in al, f'{name}: each expression has a dict of names of its own',
                 'names put in for one expression stay there for the next')
    out = kwarg(e, 'out') if kwarg(e, 'out') is not None else e.args[3]
    masks = output_mask(c, r, name, e, elem, out, U)
    names_of(c, r, name, key, e, elem, ent, sf, U)
    masked_names(c, r, name, e, ent, objs, masks)


def output_mask(c, r, name, e, elem, out, U):
    facts = tuple(lits(e.facts()))
    masks = []
    whole_ok = True
    seen = []
    for fs, leaf in flat_phi(out, facts):
        if infeasible(fs):
            continue
        x = leaf if strip_st(leaf) is U else content(leaf)
        if strip_st(x) is U:
            if not any(filter_of(l, elem) for l, p in lits(fs)) or not no_filter(fs, elem):
                whole_ok = False
            continue
        y = strip_st(x)
        if y.op == 'sub' and y.args[1].op == 'tup' and len(y.args[1].args) == 2 and all_slice(y.args[1].args[0]) and \
                root(y)[0] is U:
            m = y.args[1].args[1]
            masks.append((m, fs))
            c.ob('filter-of-expression', e, filter_of(m, elem), f'{name}: an expression with a filter changes the column of its '
                 'filter', f'the column changed is {show(m, 5)}')
        else:
            c.skip('filter-of-expression', e, show(leaf, 5))
            whole_ok = None
    if whole_ok is not None:
        # under conditions of its own, this expression may be one without a filter
        others = no_filter(facts, elem)
        c.ob('filter-of-expression', e, bool(whole_ok) or others, f'{name}: an expression with a filter changes no other column',
             'an expression with a filter changes every column')
    return masks


def no_filter(fs, elem):
    """Whether facts say that the expression has no filter."""
    def says(l, p):
        if l.op == 'not':
            return says(l.args[0], not p)
        if l.op == 'or' and p:
            return all(says(x, True) for x in l.args)
        if l.op == 'and' and not p:
            return all(says(x, False) for x in l.args)
        if l.op in ('or', 'and', 'exists') or not filter_of(l, elem):
            return False
        if l.op == 'cmp' and l.args[0] in ('Is', '==', 'is') and NONE in l.args[1:]:
            return p
        return not any(y.op == 'len' for y in walk(l, False))
    return any(says(l, p) for l, p in lits(fs))


def names_of(c, r, name, key, e, elem, ent, sf, U):
    me = SELF(r)
    scope = t('attr', me, sf)
    simple = chained = None
    lit = None
    consts = {}
    for ev, k, v in ent:
        if is_const(k):
            consts[cval(k)] = v
            continue
        # values of plain symbols
        n = callname(strip_st(v))
        if n == '._get' or (n or '').endswith('._get'):
            sym = strip_st(v).args[1]
            info = tkw(strip_st(v), 'chain_info') or (callargs(strip_st(v)) or [None])[0]
            sname = sym.args[1] if sym.op == 'sub' and strip_st(sym.args[0]) is scope else None
            if sname is None:
                c.skip('names', ev or e, f'{show(k, 4)} = {show(v, 4)}')
                continue
            src = source_of(sname)
            if info is None:
                okn = k is sname
                c.ob('plain-names', ev or e, okn, f'{name}: a symbol is given its own data', f'{show(k, 4)} is given the data '
                     f'of {show(sname, 4)}')
                if src is not None and callname(src) == '.itersimple':
                    own = extra_conditions(ev, k)
                    simple = own if simple is None else simple
                    if not own:
                        simple = []
            else:
                loop = [kk for kk in all_loops(ev, k, v)]
                good = chain_pairing(k, sname, info, elem)
                c.ob('chained-names', ev or e, good is not False, f'{name}: each lookup of an expression is given the data of '
                     'that lookup on its own table', f'{show(k, 5)} is given the data of {show(info, 5)} of {show(sname, 4)}')
                if good:
                    own = extra_conditions(ev, k)
                    chained = [] if not own else own
    objs = local_objects(e, r)
    for ev, k, v in ent:
        if not is_const(k) and source_of(k) is not None and is_attr_name(source_of(k), 'dict_literals'):
            if same_elem(source_of(k).args[0], elem):
                lit = not extra_conditions(ev, k)
    for x in r.events:
        if x.kind == 'call' and x.func is not None and x.func.op == 'meth' and x.obj is not None and same_elem(x.obj, elem):
            q = f'cheval.parsing.expressions.Expression.{x.func.args[0]}'
            if q not in c.p.functions or not any(o in objs for a in x.args for o in flat_roots(a)):
                continue
            own = [g for g in own_guards(x, key) if g[2] in ('if', 'sc')]
            if fills_literals(c, c.p.functions[q], x, objs):
                lit = not own
            for a in x.args:
                if is_choices(a) is False:
                    c.ob('literal-columns', x, False, f'{name}: dict literals are laid out over the choices',
                         f'dict literals are laid out over {show(a, 4)}')
    # a form that is not known is left to the witness programs of rules_tree, which look at the values of the names
    for rule, own, what in (('plain-names', simple, 'every plain symbol of the expressions'), ('chained-names', chained, 'every lookup of an expression')):
        (c.form if own is None else c.ob)(rule, e, own == [], f'{name}: {what} is given its data',
                                          'data are given to none' if not own else f'data are given to {what} only if {show(own[0], 4)}')
    (c.form if lit is None else c.ob)('literals', e, bool(lit), f'{name}: every dict literal of an expression is given its values')
    for nm, want in (('NAN', lambda v: v.op == 'glob' and v.args[0] in ('numpy.nan', 'math.nan') or (
            v.op == 'const' and cval(v) != cval(v))),
            ('NEG_INF', lambda v: v.op == 'neg' and v.args[0].op == 'glob' and v.args[0].args[0] in ('numpy.inf', 'math.inf') or (
                v.op == 'const' and cval(v) == float('-inf')))):
        v = consts.get(nm)
        c.ob('constants', e, v is not None and want(strip_st(v)), f'{name}: {nm} has its value',
             f'{nm} is {show(v, 4) if v is not None else "not defined"}')


def fills_literals(c, fi, call, objs):
    """Whether a method of an expression puts all of its dict literals in the dict it is given."""
    r = c.run(fi, noinline=('_insert_dict_val',))
    me = SELF(r)
    ps = list(r.params.values())[1:]
    target = [p for p, a in zip(ps, call.args) if any(o in objs for o in flat_roots(a))]
    for ev, k, v in entries(target, r):
        src = source_of(k)
        if src is not None and is_attr_name(src, 'dict_literals') and strip_st(src.args[0]) is me and not extra_conditions(ev, k):
            return True
    return False


def source_of(x):
    """The collection a loop element comes from."""
    x = strip_st(x)
    if x.op == 'sub' and uncast(x.args[1]).op == 'iv':
        ps = parts_of(x.args[0])
        return strip_st(ps[0]) if len(ps) == 1 else None
    return None


def extra_conditions(ev, k):
    """Conditions on an entry other than that the name is reserved or already there."""
    if ev is None:
        return []
    out = []
    for key in ev.loops:
        pass
    inner = ev.loops[-1] if ev.loops else None
    if inner is None:
        return []
    for g, p, kind in own_guards(ev, inner):
        if kind not in ('if', 'sc', 'survive', 'except'):
            continue
        for l, q in literals(g, p):
            if l.op == 'cmp' and l.args[0] in ('in', '==') and not q and k in l.args[1:]:
                continue                                     # reserved names, or names that are there already
            if l.op == 'cmp' and l.args[0] == 'in' and not q:
                continue
            out.append(l if q else nneg(l))
    return out


def chain_pairing(k, sname, info, elem):
    """Whether name, table and lookup belong together; None if the shape is not known."""
    # sname: an element of elem.chains; usages: elem.chains[sname]; k: an element of usages; info: usages[k]
    chains = t('attr', strip_st(elem), 'chains')
    if not (sname.op == 'sub' and strip_st(sname.args[0]).op == 'attr' and strip_st(sname.args[0]).args[1] == 'chains'):
        return None
    ch = strip_st(sname.args[0])
    if not same_elem(ch.args[0], elem):
        return False
    if info.op != 'sub' or k.op != 'sub':
        return None
    us = strip_st(info.args[0])
    if info.args[1] is not k:
        return False
    if us is not sub(ch, sname):
        return False if us.op == 'sub' else None
    return strip_st(k.args[0]) is us


def masked_names(c, r, name, e, ent, objs, masks):
    """Columns of names are selected along with those of the output."""
    if not masks:
        return
    m = masks[0][0]
    n = 0
    for ev, k, v in ent:
        x = strip_st(v)
        if x.op != 'sub' or x.args[1].op != 'tup' or len(x.args[1].args) != 2 or not all_slice(x.args[1].args[0]):
            continue
        col = x.args[1].args[1]
        src = x.args[0]
        facts = lits(ev.facts()) if ev is not None else []
        for fs, leaf in flat_phi(col, tuple(facts)):
            if infeasible(fs):
                continue
            wide = is_wide(fs, src)
            if is_const(leaf, 0):
                n += 1
                c.ob('names-masked', ev or e, wide is False, f'{name}: a name with a value per choice is given that of the filter',
                     'the first column of a name is used for any choice')
            elif spec(leaf, fs) is spec(m, fs) or leaf is m:
                n += 1
                c.ob('names-masked', ev or e, wide is not False, f'{name}: a name with one column is used as it is',
                     'a column is selected from a name that has one only')
                left = unmasked(fs, src)
                if left:
                    c.ob('names-masked', ev or e, False, f'{name}: a name with a value per choice is given that of the filter',
                         f'names with {left} columns are used whole')
            else:
                c.ob('names-masked', ev or e, filter_of(leaf, None) if False else False,
                     f'{name}: the columns of names are those of the output', f'the column of a name is {show(leaf, 5)}, that of '
                     f'the output {show(m, 5)}')
    if not n:
        c.skip('names-masked', e, 'no selection of columns of names found')


def unmasked(facts, src):
    """A number of columns, above one, for which the facts do not hold."""
    for l, p in lits(facts):
        at = [x for x in walk(l, False) if x.op == 'sub' and strip_st(x.args[0]).op == 'attr' and
              strip_st(x.args[0]).args[1] == 'shape' and is_const(x.args[1], 1, -1)]
        for a in at:
            for k in (2, 3):
                if truth(subst(l, {a: const(k)})) is (not p):
                    return k
    return None


def is_wide(facts, src):
    """True/False: facts say that the array has more than one column / just one; None: not known."""
    for l, p in lits(facts):
        at = [x for x in walk(l, False) if x.op == 'sub' and strip_st(x.args[0]).op == 'attr' and
              strip_st(x.args[0]).args[1] == 'shape' and is_const(x.args[1], 1, -1)]
        for a in at:
            v1, v2, v9 = (truth(subst(l, {a: const(k)})) for k in (1, 2, 9))
            if None in (v1, v2, v9):
                continue
            if v1 == p and v2 != p and v9 != p:
                return False
            if v1 != p and v2 == p and v9 == p:
                return True
    return None


def value_walk(x):
    """Terms whose values, not just shapes, are part of a value."""
    x = strip_st(x)
    n = callname(x) or ''
    if n.split('.')[-1] in ('zeros_like', 'empty_like', 'ones_like', 'full_like', 'zeros', 'empty', 'ones', 'full') or \
            x.op == 'attr' and x.args[1] in ('shape', 'index', 'columns', 'size', 'dtype'):
        return
    yield x
    for a in x.args:
        for b in (a if isinstance(a, tuple) else (a,)):
            if isinstance(b, T):
                yield from value_walk(b)


def only_evaluated(c, r, name, U, evs, sinks):
    """Nothing but the expressions changes the table, which starts from the partial utilities."""
    from .rules_core import mem_effects
    f = cache_field(c)
    for e in r.events:
        if e in evs:
            continue
        for o, _ in mem_effects(e):
            if U in view_roots(o):
                c.ob('only-expressions', e, False, f'{name}: only expressions change the utilities',
                     f'the utilities are changed by {show(e.obj, 4) if e.obj is not None else e.kind}')
    base = U
    y = strip_alloc(U) if U.op == 'alloc' else U
    n = callname(y)
    src = y.args[1] if n in SAME_M else callargs(y)[0] if n in SAME_F and callargs(y) else None
    if src is None:
        part = any(x.op == 'attr' and x.args[1] in ('_partial_utilities', f) for x in value_walk(y))
        c.ob('starts-from-partial', evs[0], part, f'{name}: utilities start from the partial utilities',
             f'utilities start as {show(y, 4)}')
    else:
        s0 = strip_st(content(src))
        ok = s0.op == 'attr' and s0.args[1] in ('_partial_utilities', f) and strip_st(s0.args[0]) is SELF(r)
        c.ob('starts-from-partial', evs[0], ok, f'{name}: utilities start from the partial utilities',
             f'utilities start as {show(src, 4)}')
    for e, table in sinks:
        for x in walk(table, False):
            fp = frame_parts(x)
            if fp is not None and fp[1] is not None and contains(fp[1], U) and fp[0] == 'DataFrame' and e.kind == 'setattr':
                c.ob('partial-labels', e, fp[2] is not None and is_du(c, fp[2]), 'stored utilities are labelled with the decision '
                     'units')
                c.ob('partial-labels', e, fp[3] is not None and is_choices(fp[3]) is True, 'stored utilities have the choices as '
                     'columns')


def containers(c):
    """Expressions are kept, once each, by the containers."""
    # adding one
    for grp in (NONE, None):
        bind = {'group': NONE} if grp is NONE else {}
        g = c.p.fn(f'{GROUP}.append')
        r = c.run(g, noinline=('parse', 'itersimple', 'iterchained'), bind=bind,
                  facts=() if grp is NONE else ((cmp('Is', t('param', 'group'), NONE), False),))
        me = SELF(r)
        expr = [e for e in r.events if e.kind == 'call' and e.fi is not None and e.fi.name == 'parse']
        adds = [e for e in r.events if e.kind == 'mutate' and e.op in ('append', 'extend', 'insert') and e.args
                and any(any(contains(a, x.value) for x in expr) for a in e.args) and not e.loops]
        c.ob('append-once', g, len(adds) >= 1, 'an expression that is added is kept')
        raw = r.params.get('e')
        for e in expr:
            c.ob('append-parses', e, bool(e.args) and raw is not None and strip_st(e.args[0]) is raw or not e.args,
                 'the expression added is the one given')
        for i, a in enumerate(adds):
            o = strip_st(a.obj)
            for b in adds[:i]:
                if not infeasible([(g_, p) for g_, p, _ in a.guards + b.guards]):
                    c.ob('append-once', a, False, 'an expression is kept once', f'it is also added at {b.loc}')
            leaves = flat_roots(a.obj)
            grouped = any(any(y.op == 'sub' for y in walk(x, False)) or any(y.op == 'alloc' for y in walk(x, False)) for x in leaves)
            if grp is NONE:
                c.ob('append-place', a, not grouped, 'an expression without a group is kept ungrouped',
                     f'it is added to {show(a.obj, 4)}')
            else:
                c.ob('append-place', a, grouped, 'an expression of a group is kept in that group', f'it is added to {show(a.obj, 4)}')
                for x in leaves:
                    for y in walk(x, False):
                        if y.op == 'sub' and strip_st(y.args[0]).op == 'attr':
                            c.ob('append-place', a, y.args[1] is r.params['group'], 'an expression of a group is kept in that group',
                                 f'it is kept in group {show(y.args[1], 4)}')
        for kind, test in (('simple', 'symbols'), ('chained', 'chains')):
            us = [e for e in r.events if e.kind in ('mutate', 'setattr') and (e.args or e.value is not None) and any(
                y.op == 'attr' and y.args[1] == test and any(strip_st(y.args[0]) is x.value for x in expr)
                for a in (list(e.args or ()) + ([e.value] if e.value is not None else [])) for y in walk(a, False))]
            us = [e for e in us if not ({k for _, _, k in e.guards if k in ('if', 'sc')} and own_of(e))]
            us += [a for a in adds if any(contains(x, y) for x in flat_roots(a.obj) for y in walk(x, False)
                                          if y.op in ('mcall', 'call') and 'ExpressionSubGroup' in show(y, 6))]
            c.form('append-symbols', g, bool(us), f'the {kind} symbols of an expression that is added are recorded')
    # giving them back
    r = c.run(f'{GROUP}.__iter__', noinline=(), bind={'groups': TRUE})
    ys = [e for e in r.events if e.kind == 'yield']
    if not ys:
        c.skip('all-expressions', r.fi, 'no generator')
    else:
        own = [e for e in ys if is_all_of(e.value, lambda d: d.op == 'attr' and strip_st(d.args[0]) is SELF(r)) and
               not own_ifs(e) and len(e.loops) == 1]
        inner = [e for e in ys if len(e.loops) == 2 and is_all_of(e.value, lambda d: True) and not own_ifs(e)]
        c.ob('all-expressions', r.fi, len(own) == 1, 'ungrouped expressions are all given, once')
        c.ob('all-expressions', r.fi, len(inner) == 1, 'expressions of every group are all given, once')
        c.ob('all-expressions', r.fi, len(ys) == len(own) + len(inner), 'nothing else is given as an expression')
    r = c.run(f'{SUB}.__iter__')
    ys = [e for e in r.events if e.kind == 'yield']
    if ys:
        c.ob('all-expressions', r.fi, len(ys) == 1 and is_all_of(ys[0].value, lambda d: is_attr_name(d, 'expressions'))
             and not own_ifs(ys[0]), 'expressions of a group are all given, once')
    r = c.run(f'{GROUP}.get_group')
    v = strip_st(r.value)
    if v.op == 'sub':
        c.ob('group-by-name', r.fi, v.args[1] is r.params['name'], 'a group is found by its name')
    else:
        c.skip('group-by-name', r.fi, show(v, 4))
    # expressions assigned to the model are added one by one
    if f'{MODEL}.expressions.setter' in c.p.functions:
        r = c.run(c.p.functions[f'{MODEL}.expressions.setter'], noinline=('append', 'parse'))
        item = list(r.params.values())[1]
        good = any((e.kind == 'mutate' and e.op == 'append' or e.kind == 'call' and callname(e.value) in ('.append', f'{GROUP}.append'))
                   and len(e.args) == 1 and not own_ifs(e) and is_all_of(e.args[-1], lambda d: d is item) for e in r.events)
        replaced = [e for e in r.events if e.kind == 'setattr' and strip_st(e.value) is item]
        if good or not replaced:
            c.ob('assign-expressions', r.fi, good,
                 'expressions assigned to the model are all added')
    merged(c)


def own_of(e):
    return [(g, p) for g, p, k in e.guards if k in ('if', 'sc') and not (
        g.op == 'cmp' and any(y.op == 'param' and y.args[0] == 'group' for y in walk(g, False)))]


def is_attr_name(x, n):
    return x.op == 'attr' and x.args[1] == n


def merged(c, which=('copy', '__add__')):
    """Copies and sums of containers keep every expression, and share no lists."""
    for q in which:
        r = c.run(f'{GROUP}.{q}', noinline=())
        new = strip_st(r.value)
        if new.op != 'alloc':
            c.skip('copies', r.fi, show(new, 4))
            continue
        srcs = [p for n, p in r.params.items()]
        for e in r.events:
            if e.kind == 'setattr' and strip_st(e.obj) is new and e.value is not None:
                v = strip_st(e.value)
                bad = [s for s in srcs if v.op == 'attr' and strip_st(v.args[0]) is s]
                c.ob('copies-separate', e, not bad, f'{q}: a container made from another shares no collection with it',
                     f'{e.key} is {show(v, 4)}')
            if e.kind == 'setsub' and e.value is not None and any(contains(o, new) or o in new_parts(r, new)
                                                                for o in flat_roots(e.obj)):
                for v in flat_roots(e.value):
                    bad = v.op == 'sub' and any(contains(v, s) for s in srcs)
                    c.ob('copies-separate', e, not bad, f'{q}: a container made from another shares no group with it',
                         f'the group is {show(v, 4)}')
            if e.kind == 'mutate':
                for s in srcs:
                    c.ob('copies-leave-source', e, not any(o is s or any(y is s for y in view_base(o)) for o in flat_roots(e.obj)),
                         f'{q} leaves the container it is made from as it is', f'{show(e.obj, 4)} is changed')
        for s in srcs:
            flat = any(mentions_elem(e, s, 1) for e in r.events)
            deep = any(mentions_elem(e, s, 2) for e in r.events)
            c.form('copies-complete', r.fi, flat, f'{q}: ungrouped expressions are taken over')
            c.form('copies-complete', r.fi, deep, f'{q}: expressions of groups are taken over')
    if '__add__' not in which:
        return
    r = c.run(f'{SUB}.__add__')
    both = list(r.params.values())
    adds = [e for e in r.events if e.kind == 'mutate' and e.op in ('append', 'extend')]
    for s in both:
        c.form('copies-complete', r.fi, any(any(z is s for a in e.args for y in walk(a, False) for z in view_base(y)) and
                                          not own_ifs(e) for e in adds) or any(
            e.kind == 'setattr' and any(is_attr_name(y, 'expressions') and strip_st(y.args[0]) is s for y in walk(e.value, False))
            for e in r.events) or any(is_attr_name(y, 'expressions') and strip_st(y.args[0]) is s for e in r.events
                                      if e.kind in ('new', 'call') for a in list(e.args or ()) + [v for _, v in e.kwargs or ()]
                                      for y in walk(a, False)),
             'a sum of groups has the expressions of both')


def new_parts(r, new):
    return {strip_st(e.value) for e in r.events if e.kind == 'setattr' and strip_st(e.obj) is new and e.value is not None}


def view_base(o):
    x = strip_st(o)
    out = []
    while x.op in ('attr', 'sub'):
        x = strip_st(x.args[0])
        out.append(x)
    return out


def is_group_map(x, s):
    x = strip_st(x)
    return x.op == 'attr' and strip_st(x.args[0]) is s and 'group' in x.args[1] and 'un' not in x.args[1]


def mentions_elem(e, s, depth):
    """Whether an event takes over the expressions of `s`: ungrouped (1) or grouped (2)."""
    vals = list(e.args or ()) + ([e.value] if e.value is not None else [])
    if e.kind not in ('mutate', 'setattr', 'setsub'):
        return False
    for v in vals:
        if depth == 2 and e.kind == 'setsub' and any(y.op == 'sub' and is_group_map(y.args[0], s) for y in walk(v, False)):
            return True
        for y in walk(v, False):
            if depth == 1 and y.op == 'attr' and strip_st(y.args[0]) is s and 'expr' in y.args[1]:
                return True
            if depth == 2 and y.op == 'sub' and y.args[0].op == 'sub' and any(z is s for z in view_base(y)) and e.kind == 'mutate':
                return True
            if depth == 2 and y.op == 'attr' and y.args[1] == 'expressions' and any(z is s for z in view_base(y)):
                return True
    return False


def column_mask(c):
    """The column of a filter is the place of that node among the choices."""
    r = c.run(mfn(c, 'run_discrete'), noinline=OPAQUE + ('validate',))
    me = SELF(r)
    n = 0
    for e in r.events:
        if e.kind == 'call' and e.func is not None and e.func.op == 'meth' and e.func.args[0] == 'get_loc' and e.args and any(
                y.op == 'attr' and y.args[1] == 'filter_' for y in walk(e.args[0], False)):
            n += 1
            c.ob('filter-column', e, is_choices(e.obj) is True, 'a filter is looked up among the choices',
                 f'it is looked up in {show(e.obj, 4)}')
            facts = tuple(lits(e.facts()))
            for fs, leaf in flat_phi(e.args[0], facts):
                if infeasible(fs):
                    continue
                filter_key(c, e, leaf, fs)
    if not n:
        c.skip('filter-column', r.fi, 'the column of a filter is not found with get_loc')


def filter_key(c, e, x, fs):
    x = strip_st(x)
    x = strip_alloc(x) if x.op == 'alloc' else x
    flat = x.op in ('sub', 'attr')
    lv = None
    for l, p in lits(fs):
        for y in walk(l, False):
            if y.op == 'attr' and y.args[1] == 'nlevels' or y.op == 'attr' and y.args[1] == 'depth':
                v1, v2, v3 = (truth(subst(l, {y: const(k)})) for k in (1, 2, 3))
                if None not in (v1, v2, v3):
                    lv = 1 if v1 == p and v2 != p else 2 if v1 != p and v2 == p and v3 == p else lv
    if flat:
        c.ob('filter-key', e, lv in (1, None), 'a filter of a nested model names the node by its whole path',
             f'the key looked up is {show(x, 5)}')
        if x.op == 'sub':
            c.ob('filter-key', e, is_const(x.args[1], 0, -1), 'a filter of a flat model is the name of a choice')
        return
    if callname(x) == 'builtins.tuple' and callargs(x):
        y = strip_st(callargs(x)[0])
        y = strip_alloc(y) if y.op == 'alloc' else y
        if y.op == 'bin' and y.args[0] == '+':
            parts, pad = y.args[1], y.args[2]
            isparts = callname(strip_st(parts)) == '.split'
            pad = strip_alloc(strip_st(pad)) if strip_st(pad).op == 'alloc' else strip_st(pad)
            ok = isparts and pad.op == 'bin' and pad.args[0] == '*'
            if ok:
                from .lib import lin
                lst = [a for a in pad.args[1:] if a.op == 'lit' or a.op == 'alloc']
                num = [a for a in pad.args[1:] if a not in lst]
                lst = [strip_alloc(a) if a.op == 'alloc' else a for a in lst]
                dot = bool(lst) and len(lst[0].args) == 2 and is_const(lst[0].args[1], '.')
                d, k = lin(num[0]) if num else ({}, 0)
                pos = [a for a, cf in d.items() if cf == 1 and a.op == 'attr' and a.args[1] in ('nlevels', 'depth')]
                neg_ = [a for a, cf in d.items() if cf == -1 and a.op == 'len']
                c.ob('filter-key', e, dot and k == 0 and len(d) == 2 and len(pos) == 1 and len(neg_) == 1,
                     'a filter is padded to the depth of the model, so that it names one node', f'it is padded with {show(pad, 5)}')
                return
    c.skip('filter-key', e, show(x, 5))


def preval_rule(c):
    r, sinks = utility_sinks(c, 'preval')
    g = r.params['group']
    me = SELF(r)
    f = cache_field(c)
    sets = [e for e, _ in sinks if e.kind == 'setattr']
    for e in sets:
        own = own_ifs(e)
        c.ob('preval-stores', e, not own, 'pre-evaluated utilities are stored', f'only when {show(own[0][0], 4) if own else ""}')
    drop = TRUE
    dg = r.params.get('drop_group')
    allx = t('attr', me, expr_field(c))
    drops = []
    for e in r.events:
        if e.kind in ('delsub',) and any(contains(o, allx) for o in flat_roots(e.obj)) and e.key is g:
            drops.append(e)
        if e.kind == 'mutate' and e.op == 'pop' and any(contains(o, allx) for o in flat_roots(e.obj)) and e.args and e.args[0] is g:
            drops.append(e)
    ok = False
    for e in drops:
        own = [(l, p) for g_, p_, k in e.guards if k in ('if', 'sc') for l, p in literals(g_, p_)]
        own = [x for x in own if x[0].op != 'exists']
        if all(l is dg and p for l, p in own):
            ok = True
    c.ob('preval-drops', drops[0] if drops else r.fi, ok, 'the expressions of a pre-evaluated group are not evaluated again',
         'the group that was pre-evaluated is not dropped when asked for')


RULES = {'P12': p12, 'P13': p13, 'P14': p14}
