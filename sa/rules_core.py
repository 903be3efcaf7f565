"""Rules over the sampling and probability kernels."""
from .lib import *  # noqa: F401,F403
from .lib import Den, arg_of, callargs, callname, exc_class, flat_phi, key_comps, lin, lits, nonpos, path_keys, poly, positive

CORE = 'cheval.core'
KERNELS = ('multinomial_probabilities', 'nested_probabilities')
SAMPLERS = ('multinomial_sample', 'nested_sample', 'multinomial_multisample', 'nested_multisample')
WORKERS = ('worker_multinomial_probabilities', 'worker_nested_probabilities', 'worker_multinomial_sample',
           'worker_nested_sample')
ROLES = {
    'multinomial_probabilities': ('utilities', 'check_infeasible'),
    'nested_probabilities': ('utilities', 'hierarchy', 'levels', 'logsum_scales', 'bottom_flags', 'scale_utilities',
                             'check_infeasible'),
    'worker_multinomial_probabilities': ('utilities', 'check_infeasible'),
    'worker_nested_probabilities': ('utilities', 'hierarchy', 'levels', 'logsum_scales', 'bottom_flags',
                                    'scale_utilities', 'check_infeasible'),
    'worker_multinomial_sample': ('utilities', 'n', 'seed'),
    'worker_nested_sample': ('utilities', 'hierarchy', 'levels', 'logsum_scales', 'bottom_flags', 'n', 'seed',
                             'scale_utilities'),
    'worker_weighted_sample': ('weights', 'n', 'seed'),
    'multinomial_sample': ('utilities', 'r'),
    'multinomial_multisample': ('utilities', 'n', 'seed', 'out'),
    'nested_sample': ('utilities', 'r', 'hierarchy', 'levels', 'logsum_scales', 'bottom_flags', 'scale_utilities'),
    'nested_multisample': ('utilities', 'hierarchy', 'levels', 'logsum_scales', 'bottom_flags', 'n', 'seed',
                           'scale_utilities', 'out'),
    'sample_multi': ('p_array', 'n', 'seed', 'out'),
    'sample_once': ('p_array', 'r'),
    'logarithmic_search': ('r', 'cps'),
}


def core(c, name):
    return c.p.fn(f'{CORE}.{name}')


def roles(c, name):
    """Role -> parameter term. The order of the parameters is part of the interface; their names are not."""
    fi = core(c, name)
    ps = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
    if len(ps) < len(ROLES[name]):
        raise Broken(f'{name} no longer takes {len(ROLES[name])} parameters')
    return {r: t('param', p) for r, p in zip(ROLES[name], ps)}


def parallel_functions(c):
    return [f for q, f in sorted(c.p.functions.items()) if f.is_njit and f.njit_kwargs().get('parallel') is True]


def prange_keys(res):
    out = []
    for e in res.events:
        for k in e.loops:
            if k in LOOPS and LOOPS[k].parallel and k not in out:
                out.append(k)
    return out


def distinct_facts(facts):
    """Arrays that the facts say have no repeated element."""
    out = []
    for l, p in facts:
        if l.op == 'cmp' and l.args[0] == '==' and p:
            for a in l.args[1:]:
                for y in walk(a, False):
                    if callname(y) in ('numpy.unique', 'builtins.set', '.unique', '.nunique'):
                        out.extend(strip_st(z) for z in (callargs(y) or [y.args[1]]))
        if l.op == 'attr' and l.args[1] == 'is_unique' and p:
            out.append(strip_st(l.args[0]))
            if callname(l.args[0]) in ('pandas.Index', 'pandas.Series'):
                out.append(strip_st(callargs(l.args[0])[0]))
        if callname(l) == '.any' and not p and callname(l.args[1]) == '.duplicated':
            x = l.args[1].args[1]
            out.append(strip_st(x))
            if callname(x) in ('pandas.Index', 'pandas.Series'):
                out.append(strip_st(callargs(x)[0]))
    return out


def branches(x):
    """The alternatives of a value that depends on a condition."""
    if x.op in ('phi', 'ite'):
        return [y for a in x.args[1:] if hasattr(a, 'op') for y in branches(strip_st(a))]
    return [x]


def injective(comps, iv, facts):
    """Whether different iterations index different elements."""
    ds = distinct_facts(facts)
    hits = []
    for k in comps:
        k = uncast(k)
        hits.append(k)
        if k.op == 'sub' and all(strip_st(a) in ds or callname(strip_alloc(strip_st(a))) == 'numpy.arange'
                                 for a in branches(strip_st(k.args[0]))):
            hits.append(uncast(k.args[1]))
    for h in hits:
        d, _ = lin(h)
        if d.get(iv) in (1, -1) and not any(contains(a, iv, False) for a in d if a is not iv) \
                and not any(a.op in ('iv', 'mu') for a in d if a is not iv):
            return True
    for h in hits:
        if h.op == 'bin' and h.args[0] == '//' and uncast(h.args[1]) is iv:
            if any(g.op == 'bin' and g.args[0] == '%' and uncast(g.args[1]) is iv and g.args[2] is h.args[2] for g in hits):
                return True
    return False


def mem_effects(e):
    """(object, key or None) pairs of the memory an event changes."""
    if e.kind in ('setsub', 'delsub'):
        yield e.obj, e.key
    elif e.kind == 'mutate':
        yield e.obj, None
    elif e.kind == 'call':
        o = kwarg(e, 'out')
        if o is not None and not is_const(o, None):
            yield o, None


def p01(c):
    for f in parallel_functions(c):
        name = f.qual.split('.')[-1]
        entries = [f]
        if name.startswith('_'):
            entries = callers(c, f) or [f]
        for ent in entries:
            res = c.run(ent)
            keys = [k for k in prange_keys(res) if any(x.frames and any(fr.qual == f.qual for fr in x.frames)
                                                       for x in loop_events(res, k))]
            c.ob('parallel-loop-found', f, True, f'{name} analysed through {ent.name}: {len(keys)} parallel loops')
            for k in keys:
                race_free(c, res, k, f)


def callers(c, f):
    """Functions of the project that call `f` by name."""
    out = []
    for q, g in sorted(c.p.functions.items()):
        if g is f:
            continue
        for n in ast_walk(g.node):
            if n.__class__.__name__ == 'Call' and c.p.resolve_expr(g.module, n.func) == f.qual:
                out.append(g)
                break
    return out


def ast_walk(n):
    import ast
    return ast.walk(n)


def race_free(c, res, k, f):
    iv = t('iv', k)
    lp = LOOPS[k]
    alloc_loops = res.interp.alloc_loops
    evs = loop_events(res, k)
    # stores
    for e in evs:
        for o, key in mem_effects(e):
            base, ks = path_keys(o)
            for b in [r for r in view_roots(base) if not view_roots(r)[1:]] or [base]:
                if b.op == 'alloc' and k in alloc_loops.get(b, ()):
                    c.ob('private-or-own-row', e, True, f'{f.name}: memory changed in the loop belongs to the iteration')
                    continue
                if b.op in ('bin', 'cmp', 'neg', 'call', 'mcall') and contains(b, iv):
                    continue            # the result of a computation of the iteration
                if b.op in ('mu', 'eta', 'call', 'mcall') and b.args[0] != k:
                    if not any(x.op in ('param', 'alloc') for x in view_roots(b)):
                        continue
                comps = [x for kk in ks + ([key] if key is not None else []) for x in key_comps(kk)]
                ok = injective(comps, iv, lits(e.facts()))
                if not ok and comps and f.module.name == CORE and not any(large(x) for x in comps):
                    c.skip('private-or-own-row', e, f'{f.name}: index {", ".join(show(x, 4) for x in comps)}, left to the witness '
                                                    f'programs')
                    continue
                c.ob('private-or-own-row', e, ok, f'{f.name}: each parallel iteration changes only elements of its own record',
                     f'{f.name}: iterations of the parallel loop at line {lp.lineno} can change the same elements of '
                     f'{show(b, 4)} (index {", ".join(show(x, 4) for x in comps) or "none"})')
    # values carried between iterations
    for n in lp.init:
        if not isinstance(n, str):
            continue
        mu = t('mu', k, n)
        users = [e for e in evs if not (e.kind == 'aug' and e.key == n)
                 and any(contains(x, mu) for x in event_terms(e))]
        c.ob('no-carried-value', users[0] if users else f, not users,
             f'{f.name}: no value of one parallel iteration is used by another',
             f'{f.name}: `{n}` carries a value between iterations of the parallel loop at line {lp.lineno}')
    # reads: the record matrix is only read at the row of the iteration
    mats = record_matrices(lp)
    for m in mats:
        for e in evs:
            stores = list(mem_effects(e))
            if not stores and e.kind not in ('raise',):
                continue
            for x in event_terms(e):
                bad = foreign_reads(x, m, iv)
                if bad is not None:
                    c.ob('reads-own-row', e, False, '', f'{f.name}: a record reads {show(bad, 4)} of another record')
                    break
            else:
                c.ob('reads-own-row', e, True, f'{f.name}: a record only reads its own row of {show(m)}')


def record_matrices(lp):
    d = lp.domain
    out = []
    if d is not None and d.op == 'range':
        for x in walk(d.args[1], False):
            if x.op == 'len' and strip_st(x.args[0]).op == 'param':
                out.append(strip_st(x.args[0]))
    return out


def foreign_reads(x, m, iv, seen=None):
    """A read of matrix m in term x that is not at row iv."""
    seen = set() if seen is None else seen
    if x.uid in seen:
        return None
    seen.add(x.uid)
    if x is m:
        return x
    if x.op == 'len' or (x.op == 'attr' and x.args[1] in ('shape', 'size', 'dtype', 'ndim')):
        return None
    if x.op == 'sub' and strip_st(x.args[0]) is m:
        k0 = uncast(key_comps(x.args[1])[0])
        if k0 is iv or (k0.op == 'bin' and k0.args[0] == '//' and uncast(k0.args[1]) is iv):
            return None
        return x
    for a in x.args:
        for y in (a if isinstance(a, tuple) else (a,)):
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, T):
                    r = foreign_reads(z, m, iv, seen)
                    if r is not None:
                        return r
    if x.op in ('mu', 'eta'):
        lp = LOOPS.get(x.args[0])
        if lp is not None and not lp.parallel:
            for d in (lp.init, lp.step):
                if x.args[1] in d:
                    r = foreign_reads(d[x.args[1]], m, iv, seen)
                    if r is not None:
                        return r
    return None


# ---------------------------------------------------------------------------------------------- randomness
def rng_calls(res):
    return [e for e in res.events if e.kind == 'call' and e.func is not None and e.func.op == 'glob'
            and (e.func.args[0].startswith('numpy.random.') or e.func.args[0].startswith('random.'))]


def p02(c):
    for f in parallel_functions(c):
        if f.name.startswith('_'):
            continue
        res = c.run(f)
        ev = rng_calls(res)
        if not ev:
            continue
        seeds = [e for e in ev if e.func.args[0].endswith('.seed')]
        draws = [e for e in ev if not e.func.args[0].endswith('.seed')]
        seed_p = roles(c, f.name).get('seed') if f.name in ROLES else None
        for e in ev:
            par = e.frames[-1].njit_kwargs().get('parallel') is True
            c.ob('rng-outside-parallel-function', e, not par,
                 f'{f.name}: the generator is used in a function that is not parallelised',
                 f'{f.name}: {e.func.args[0]} is called in the parallel function {e.frames[-1].name}')
        for e in draws:
            before = [s for s in seeds if s.seq < e.seq and s.frames == e.frames and s.loops == e.loops[:len(s.loops)]
                      and set(x[:2] for x in s.guards if x[2] in ('if', 'loop')) <= set(x[:2] for x in e.guards)]
            # the generator must have been seeded in this activation, inside the same parallel iteration
            pk = [k for k in e.loops if LOOPS[k].parallel]
            before = [s for s in before if all(k in s.loops for k in pk)]
            ok = bool(before)
            c.ob('seeded-before-draw', e, ok, f'{f.name}: draws follow a seeding of the generator in the same activation',
                 f'{f.name}: {e.func.args[0]} draws without the generator having been seeded for this record')
            if not ok:
                continue
            s = before[-1]
            a = s.args[0] if s.args else NONE
            ps = params_in(a)
            for x in walk(a, False):
                if x.op == 'sub' and is_draw_array(x.args[0]):      # a seed drawn from a seeded generator
                    x0 = strip_alloc(strip_st(x.args[0]))
                    src = [d for d in draws if call_term(d) is x0]
                    for d in src:
                        for s2 in seeds:
                            if s2.seq < d.seq and s2.frames == d.frames and s2.loops == d.loops and s2.args:
                                ps = ps | params_in(s2.args[0])
            c.ob('seed-from-argument', s, seed_p is None or seed_p in ps,
                 f'{f.name}: the generator is seeded from the seed argument', f'{f.name}: the seed is {show(a, 4)}')
            if seed_p is not None and not pk:
                c.ob('seed-unchanged', s, uncast(a) is seed_p or (lin(a)[0] == {seed_p: 1}),
                     f'{f.name}: the whole seed is used', f'{f.name}: the seed used is {show(a, 5)}')
            if pk:
                iv = t('iv', pk[0])
                if not per_record(a, iv) and not large(a) and contains(a, iv, False):
                    c.skip('seed-per-record', s, f'{f.name}: seeded with {show(a, 5)}, left to the witness programs')
                    continue
                c.ob('seed-per-record', s, per_record(a, iv),
                     f'{f.name}: every record has its own seed', f'{f.name}: records share the seed {show(a, 5)}')
            if pk == [] and not e.loops:
                n = [x for x in e.args[-1:]] + [v for k2, v in (e.kwargs or ()) if k2 == 'size']
        # use of the draws: at the index of the record
        for k in prange_keys(res):
            iv = t('iv', k)
            used = False
            for e in loop_events(res, k):
                if e.kind == 'load' and is_draw_array(e.obj):
                    x0 = strip_alloc(strip_st(e.obj))
                    if any(call_term(d) is x0 and k in d.loops for d in draws):
                        continue                    # drawn for this record
                    used = True
                    ok = uncast(key_comps(e.key)[0]) is iv
                    if not ok and not large(e.key):
                        c.skip('own-draw', e, f'{f.name}: the draw at {show(e.key, 4)} is used, left to the witness programs')
                        continue
                    c.ob('own-draw', e, ok, f'{f.name}: a record uses its own draw',
                         f'{f.name}: a record uses the draw at {show(e.key, 4)}')
            # the draws decide the result
            for e in loop_events(res, k):
                if e.kind == 'setsub' and e.frames[-1] is f and strip_st(e.obj).op == 'alloc' and len(key_comps(e.key)) == 2 \
                        and res.value.op == 'tup' and strip_st(e.obj) is strip_st(res.value.args[0]):
                    pass
            if used or per_record_seeded(res, k):
                c.ob('draws-reach-records', f, True,
                     f'{f.name}: every record of the loop at line {LOOPS[k].lineno} takes part in the drawing')
            else:
                c.skip('draws-reach-records', f, f'{f.name}: how the draws reach the loop at line {LOOPS[k].lineno} is left to the '
                                                 f'witness programs')
    # uniform draws
    for f in [x for q, x in sorted(c.p.functions.items()) if x.is_njit and q.startswith(CORE)]:
        res = c.run(f)
        for e in rng_calls(res):
            if e.frames[-1] is f and e.func.args[0].endswith('.uniform') and len(e.args) >= 2:
                hi = e.args[1]
                ok = is_const(hi, 1, 1.0) and (e.args[0].op == 'glob' or is_const(e.args[0], 0, 0.0))
                c.ob('draws-span-unit-interval', e, ok, f'{f.name}: draws are uniform between 0 and 1',
                     f'{f.name}: draws are uniform between {show(e.args[0])} and {show(hi)}')
    model_seed(c)


def large(x):
    """Whether a number larger than the witness tables takes part."""
    return any(y.op == 'const' and isinstance(cval(y), int) and abs(cval(y)) > 4 for y in walk(x, False))


def call_term(e):
    return t('call', e.func, tuple(e.args or ()), tuple(e.kwargs or ()))


def is_draw_array(x):
    x = strip_st(x)
    x = strip_alloc(x)
    return callname(x) is not None and callname(x).startswith('numpy.random.')


def per_record(a, iv):
    for x in walk(a, False):
        if x.op == 'sub' and is_draw_array(x.args[0]):
            return uncast(key_comps(x.args[1])[0]) is iv
    return contains(a, iv, False)


def per_record_seeded(res, k):
    return any(e.func.args[0].endswith('.seed') and k in e.loops for e in rng_calls(res))


def model_seed(c):
    """The seed that a model run is given is the seed that reaches the samplers, whatever its value."""
    q = 'cheval.model.ChoiceModel.run_discrete'
    fi = c.p.fn(q)
    rs = t('param', 'random_seed')
    it_rs = t('isinst', rs, glob_rs(c))
    for label, facts, check in (
            ('an integer seed', [(cmp('Is', rs, NONE), False), (it_rs, False)], 'int'),
            ('a RandomState', [(cmp('Is', rs, NONE), False), (it_rs, True)], 'state')):
        res = c.run(q, noinline=WORKERS + ('_evaluate_utilities',), facts=tuple(facts))
        calls = [e for w in WORKERS for e in enters(res, w)]
        c.ob('sampler-called', fi, len(calls) >= 2, 'run_discrete calls the nested and the multinomial sampler')
        for e in calls:
            w = e.fi.name
            if 'seed' not in ROLES[w]:
                continue
            v = arg_of(e, roles(c, w)['seed'].args[0])
            if v is None:
                c.ob('seed-passed', e, False, f'{w} is given the seed')
                continue
            v = spec(v, lits(e.facts()))
            if check == 'int':
                ok = uncast(v) is rs
                c.ob('seed-passed', e, ok, f'{label} reaches {w} as it is', f'{label} reaches {w} as {show(v, 5)}')
            else:
                ok = v.op == 'mcall' and v.args[1] is rs or any(
                    x.op == 'mcall' and strip_st(x.args[1]) is rs for x in walk(v)) and not any(
                    callname(x) in ('numpy.random.RandomState', 'numpy.random.randint') for x in walk(v))
                c.ob('seed-passed', e, ok, f'{label} is drawn from', f'{label}: the seed is {show(v, 5)}')
            # nothing else may influence the samplers' inputs
            for r, pn in zip(ROLES[w], [x.arg for x in e.fi.node.args.args]):
                a = arg_of(e, pn)
                if a is not None:
                    bad = [x for x in params_in(a) if x.args[0] in ('n_threads', 'logger')] if r != 'utilities' else []
                    c.ob('no-thread-dependence', e, not bad, f'{w}: {r} does not depend on the number of threads')
    # no module-level generator or clock on a seeded run
    res = c.run(q, noinline=WORKERS, facts=((cmp('Is', rs, NONE), False), (it_rs, False)))
    for e in rng_calls(res):
        c.ob('no-unseeded-generator', e, False, '', f'run_discrete uses {e.func.args[0]} although a seed was given')
    c.ob('no-unseeded-generator', fi, not rng_calls(res), 'a seeded run uses no other source of randomness')


def glob_rs(c):
    v = c.p.resolve(c.p.modules['cheval.model'], 'RandomState')
    return t('glob', v or 'numpy.random.RandomState')


# ---------------------------------------------------------------------------------------------- infeasible records
def any_nonpos(lits_, loops, arrs):
    """Whether the literals say that some element of one of the arrays is not positive; returns the array or None."""
    for l, p in lits_:
        x = nonpos(l, p)
        if x is not None:
            x = strip_st(x)
            if x.op == 'sub' and x.args[1].op == 'iv' and x.args[1].args[0] in loops and full_domain(x.args[1].args[0]):
                if strip_st(x.args[0]) in arrs:
                    return strip_st(x.args[0])
            if callname(x) in ('.min', 'numpy.min', 'numpy.amin'):
                b = strip_st(x.args[1] if x.op == 'mcall' else x.args[1][0])
                if b in arrs:
                    return b
        n = callname(l)
        if p and n in ('.any', 'numpy.any') or not p and n in ('.all', 'numpy.all'):
            inner = l.args[1] if l.op == 'mcall' else l.args[1][0]
            y = nonpos(inner, p) if p else None
            if not p:
                y = positive(inner, True)
            if y is not None and strip_st(y) in arrs:
                return strip_st(y)
    return None


def full_domain(key):
    d = LOOPS[key].domain
    if d is None:
        return False
    if d.op == 'range':
        return is_const(d.args[0], 0) and not (d.args[1].op == 'bin' and d.args[1].args[0] == '-')
    return True


def pattern(c, *parts):
    """Arguments for records and trees of any size, which need the kernels to be written in a known way. A form that is not known
    is left to the witness programs of rules_kernel, which judge what is computed."""
    for part in parts:
        n_obs, n_viol = len(c.obs), len(c.viol)
        try:
            part(c)
        except Exception as e:  # noqa: BLE001 - includes anchors that are gone
            c.skip('form', CORE, f'{part.__name__}: {type(e).__name__} {e}'[:200])
        failed = c.viol[n_viol:]
        del c.viol[n_viol:]
        c.obs[n_obs:] = [o for o in c.obs[n_obs:] if o[3]]
        for key, text, loc in failed:
            c.skip(key.split('|')[0], loc, f'form not known, left to the witness programs: {text}'[:300])


def p03(c):
    pattern(c, p03_kernels)
    p03_model(c)


def p03_kernels(c):
    ube = 'UtilityBoundsError'
    # kernels
    for k in KERNELS:
        fi = core(c, k)
        flag = roles(c, k)['check_infeasible'].args[0]
        on = c.run(fi, bind={flag: TRUE})
        total = on.value.args[1] if on.value.op == 'tup' else None
        rs = [e for e in raises(c, on, ube)]
        ok = False
        for e in rs:
            ls = [(l, p) for g, p, kd in e.guards if kd in ('if', 'sc', 'assert') for l, p in literals(g, p)]
            hit = [1 for l, p in ls if nonpos(l, p) is not None and total is not None and same_q(nonpos(l, p), total)]
            if hit and len(ls) == 1 and not e.loops:
                ok = True
        c.ob('kernel-raises', rs[0] if rs else fi, ok,
             f'{k} raises {ube} exactly when its total is zero and checking is on')
        off = c.run(fi, bind={flag: FALSE})
        rs = raises(c, off, ube)
        c.ob('kernel-silent', rs[0] if rs else fi, not rs, f'{k} does not raise when checking is off')
        for res in (on, off):
            guarded_divisions(c, res, k)
    infeasible_zero(c)
    # scalar samplers always check
    for s in SAMPLERS:
        res = c.run(core(c, s), noinline=KERNELS)
        calls = [e for k in KERNELS for e in enters(res, k)]
        c.ob('sampler-uses-kernel', core(c, s), bool(calls), f'{s} computes its probabilities with the checked kernel')
        for e in calls:
            v = arg_of(e, roles(c, e.fi.name)['check_infeasible'].args[0])
            c.ob('sampler-checks', e, v is TRUE, f'{s} always checks for infeasible records', f'{s} passes {v} as the check')
    # workers
    for w in WORKERS:
        fi = core(c, w)
        r = roles(c, w)
        flag = r.get('check_infeasible')
        for v in ((TRUE, FALSE) if flag is not None else (None,)):
            res = c.run(fi, bind={flag.args[0]: v} if flag is not None else None)
            rs = raises(c, res, ube)
            inside = [e for e in rs if any(LOOPS[k].parallel for k in e.loops)]
            c.ob('no-raise-in-parallel-loop', inside[0] if inside else fi, not inside,
                 f'{w}: no error is raised inside the parallel loop (it would be lost)')
            outside = [e for e in rs if e not in inside]
            if v is FALSE:
                c.ob('worker-silent', outside[0] if outside else fi, not outside, f'{w} does not raise when checking is off')
                continue
            arr = strip_st(res.value.args[1]) if res.value.op == 'tup' and len(res.value.args) > 1 else None
            arrs = {arr}
            conds = []
            for e in outside:
                ls = [(l, p) for g, p, kd in e.guards if kd not in ('survive', 'implied', 'loopexit') for l, p in literals(g, p)]
                hit = any_nonpos(ls, e.loops, arrs)
                if hit is None:
                    continue
                rest = [(l, p) for l, p in ls if any_nonpos([(l, p)], e.loops, arrs) is None]
                conds.append(conj(*[l if p else nneg(l) for l, p in rest]))
            tot = disj(*conds) if conds else FALSE
            c.ob('worker-raises', outside[0] if outside else fi, tot is TRUE,
                 f'{w} raises {ube} after the loop whenever any record has a zero total',
                 f'{w}: records with a zero total are {"not reported" if tot is FALSE else "only reported if " + show(tot, 5)}')


def p03_model(c):
    # the model passes the request on
    q = 'cheval.model.ChoiceModel.run_stochastic'
    res = c.run(q, noinline=WORKERS + ('_evaluate_utilities',))
    for e in [e for w in WORKERS for e in enters(res, w)]:
        v = arg_of(e, roles(c, e.fi.name)['check_infeasible'].args[0])
        c.ob('check-passed', e, v is t('param', 'check_infeasible'),
             f'run_stochastic passes its check_infeasible to {e.fi.name}', f'{e.fi.name} gets {show(v, 4) if v is not None else None}')
    q = 'cheval.model.ChoiceModel.run_discrete'
    res = c.run(q, noinline=WORKERS + ('_evaluate_utilities',))
    ws = [e for w in WORKERS for e in enters(res, w)]
    for e in ws:
        c.ob('discrete-errors', e, not any(x['kind'] == 'try' and x['handlers'] for x in e.tries),
             f'run_discrete lets the error of {e.fi.name} through')


def same_q(a, b):
    return strip_st(a) is strip_st(b) or poly(a) == poly(b)


def guarded_divisions(c, res, k):
    for e in res.select('div'):
        if e.op != '/' or e.frames[-1].module.name != CORE:
            continue
        d = e.value
        if not any(callname(y) == 'numpy.exp' for y in walk(d)):
            continue
        ok = any(positive(l, p) is not None and strip_st(positive(l, p)) is strip_st(d) for l, p in lits(e.facts()))
        c.ob('guarded-division', e, ok, f'{k}: division by a logsum only where it is positive',
             f'{k}: division by {show(d, 4)} which can be zero')


def infeasible_zero(c):
    fi = core(c, 'multinomial_probabilities')
    r = roles(c, 'multinomial_probabilities')
    res = c.run(fi, bind={r['check_infeasible'].args[0]: FALSE})
    d = Den()
    d.arrays = {r['utilities'].args[0]}
    pr = d.value(d.elem(final(res, res.value.args[0])))
    tot = d.value(res.value.args[1])
    z = spec(pr, [(cmp('LtE', tot, const(0)), True), (cmp('Lt', const(0), tot), False), (cmp('Eq', tot, const(0)), True)])
    c.ob('infeasible-zero', fi, is_const(z, 0, 0.0), 'multinomial: an infeasible record has probability zero everywhere',
         f'an infeasible record has probabilities {show(z, 6)}')


def final(res, x):
    """A returned object with its final content."""
    x = strip_st(x)
    c = res.state.heap.get((x, '#'))
    return t('st', x, c) if c is not None else x


# ---------------------------------------------------------------------------------------------- inputs untouched
def p04_core(c):
    out_roles = {'out', 'out_array'}
    for n in KERNELS + SAMPLERS + WORKERS + ('worker_weighted_sample', 'simple_probabilities', 'simple_sample',
                                            'simple_multisample', 'sample_once', 'logarithmic_search'):
        q = f'{CORE}.{n}'
        if q not in c.p.functions:
            continue
        fi = c.p.fn(q)
        res = c.run(fi)
        outs = set()
        if n in ROLES and 'out' in ROLES[n]:
            outs.add(roles(c, n)['out'])
        outs |= {x for x in res.params.values() if x.op == 'param' and x.args[0] in ('out', 'out_array')}
        bad = None
        k = 0
        for e in res.events:
            for o, key in mem_effects(e):
                k += 1
                for rt in view_roots(o):
                    if rt.op == 'param' and rt not in outs:
                        bad = (e, rt)
        c.ob('arguments-unchanged', bad[0] if bad else fi, bad is None,
             f'{n}: none of its {k} stores reaches memory of an argument',
             f'{n}: memory of the argument {show(bad[1])} is changed' if bad else None)
    # fast_indexed_add only changes its target
    fi = core(c, 'fast_indexed_add')
    res = c.run(fi)
    tgt = t('param', fi.node.args.args[0].arg)
    bad = None
    for e in res.events:
        for o, key in mem_effects(e):
            for rt in view_roots(o):
                if rt.op == 'param' and rt is not tgt:
                    bad = (e, rt)
    c.ob('arguments-unchanged', bad[0] if bad else fi, bad is None, 'fast_indexed_add: only the target is changed',
         f'fast_indexed_add changes {show(bad[1])}' if bad else None)


# ---------------------------------------------------------------------------------------------- drawing
def has_min(x):
    return any(y.op == 'glob' and y.args[0].endswith('MIN_RANDOM_VALUE') or
               (y.op == 'const' and isinstance(y.args[0], float) and 0 < y.args[0] < 1e-200) for y in walk(x, False))


def le_lit(l, p):
    """(a, b, strict) if the literal says a <= b or a < b."""
    if l.op != 'cmp':
        return None
    if l.args[0] == '<=':
        return (l.args[1], l.args[2], False) if p else (l.args[2], l.args[1], True)
    if l.args[0] == '<':
        return (l.args[1], l.args[2], True) if p else (l.args[2], l.args[1], False)
    return None


def searchsorted_ok(x, r, arr):
    """numpy.searchsorted(arr, r) on the left side."""
    x = uncast(x)
    if callname(x) == 'numpy.searchsorted' and len(x.args[1]) >= 2:
        side = tkw(x, 'side') or (x.args[1][2] if len(x.args[1]) > 2 else const('left'))
        return strip_st(x.args[1][0]) is arr and is_const(side, 'left')
    if callname(x) == '.searchsorted' and x.args[2]:
        side = tkw(x, 'side') or (x.args[2][1] if len(x.args[2]) > 1 else const('left'))
        return strip_st(x.args[1]) is arr and is_const(side, 'left')
    return False


def p05(c):
    pattern(c, p05_once, p05_search, p05_multi, p05_workers)
    # ---- model: number of draws
    q = 'cheval.model.ChoiceModel.run_discrete'
    res = c.run(q, noinline=WORKERS + ('_evaluate_utilities',))
    for e in [e for w in WORKERS for e in enters(res, w)]:
        v = arg_of(e, roles(c, e.fi.name)['n'].args[0])
        c.ob('draws-passed', e, v is t('param', 'n_draws'), f'run_discrete asks {e.fi.name} for n_draws draws')


def p05_once(c):
    # ---- sample_once
    fi = core(c, 'sample_once')
    r = roles(c, 'sample_once')
    P, R = r['p_array'], r['r']
    res = c.run(fi)
    n_in = 0
    fallback = []
    for st, v in res.returns:
        ls = lits(st.facts())
        v = uncast(v)
        inl = None
        for l, p in ls:
            q = le_lit(l, p)
            if q is None:
                continue
            a, b, strict = q
            if R in params_in(a) and accum_incl(b, P, v):
                inl = (a, strict)
        if inl is not None:
            n_in += 1
            c.ob('zero-draw', fi, inl[1] or has_min(inl[0]),
                 'sample_once: a draw of zero cannot select a choice of zero probability')
            c.ob('first-reached', fi, True, 'sample_once returns the first position whose cumulative probability reaches the draw')
        else:
            fallback.append((st, v))
    c.ob('first-reached', fi, n_in > 0, 'sample_once returns the position at which the cumulative probability reaches the draw')
    for st, v in fallback:
        ok = last_positive(v, P, st)
        c.ob('fallback-positive', fi, ok, 'sample_once: a draw above the total gives the last choice of positive probability',
             f'sample_once: a draw above the (rounded) total gives {show(v, 5)}, which can have probability zero')


def p05_search(c):
    fi = core(c, 'logarithmic_search')
    r = roles(c, 'logarithmic_search')
    R, A = r['r'], r['cps']
    res = c.run(fi)
    bisect(c, fi, res, R, A)


def p05_multi(c):
    fi = core(c, 'sample_multi')
    r = roles(c, 'sample_multi')
    P, N = r['p_array'], r['n']
    res = c.run(fi, noinline=('logarithmic_search',))
    calls = enters(res, 'logarithmic_search')
    c.ob('multi-searches', fi, bool(calls), 'sample_multi draws by searching the cumulative probabilities')
    for e in calls:
        lr = roles(c, 'logarithmic_search')
        rv, cv = arg_of(e, lr['r'].args[0]), arg_of(e, lr['cps'].args[0])
        c.ob('multi-own-draw', e, bool(e.loops) and own_draw(rv, e, res),
             'sample_multi: every draw uses its own random number', f'sample_multi searches with {show(rv, 4)}')
        d = Den()
        d.arrays = {P.args[0]}
        # content of the cumulated array at the call
        el = None
        x = [a for a in e.value.args[1]][1] if e.value is not None and e.value.op == 'call' else cv
        el = d.value(d.elem(x))
        pi = sub(P, d.i)
        ok = el is t('prefix', pi) or el is binop('+', t('prefix_before', pi), pi)
        c.ob('multi-cumulative', e, ok, 'sample_multi searches the running totals of the probabilities',
             f'sample_multi searches an array whose elements are {show(el, 5)}')
        outs = [s for s in res.events if s.kind == 'setsub' and contains(s.value, e.value, False)]
        ok = any(uncast(key_comps(s.key)[-1]).op == 'iv' and full_range(key_comps(s.key)[-1], N) for s in outs)
        c.ob('multi-every-draw', outs[0] if outs else e, ok, 'sample_multi stores one result for each of the n draws')


def p05_workers(c):
    # ---- workers draw from their own probabilities, for each number of draws
    for w in ('worker_multinomial_sample', 'worker_nested_sample'):
        worker_samples(c, w)


def full_range(ivt, n):
    d = LOOPS[uncast(ivt).args[0]].domain
    return d is not None and (d.op == 'range' and is_const(d.args[0], 0) or d.op != 'range')


def own_draw(rv, e, res):
    for x in walk(rv, False):
        n = callname(strip_alloc(x))
        if n and n.startswith('numpy.random.'):
            # drawn once per iteration, or an array of draws indexed by the iteration
            for d in rng_calls(res):
                if d.value is x and set(e.loops) <= set(d.loops):
                    return True
        if x.op == 'sub' and is_draw_array(x.args[0]) and x.args[1].op == 'iv' and x.args[1].args[0] in e.loops:
            return True
    return False


def accum_incl(b, P, v):
    """b is the running total of P up to and including position v (v the position of the iteration)."""
    d, k = lin(b)
    if k != 0 or len(d) != 2:
        return False
    mu = [x for x in d if x.op == 'mu']
    el = [x for x in d if x.op == 'sub' and strip_st(x.args[0]) is P]
    if len(mu) != 1 or len(el) != 1 or d[mu[0]] != 1 or d[el[0]] != 1:
        return False
    lp = LOOPS[mu[0].args[0]]
    iv = t('iv', mu[0].args[0])
    if not is_const(lp.init.get(mu[0].args[1]), 0, 0.0) or lp.step.get(mu[0].args[1]) is None:
        return False
    return same_lin(lp.step[mu[0].args[1]], b) and same_lin(el[0].args[1], v) and same_lin(v, iv)


def last_positive(v, P, st):
    for l, p in lits(st.facts()):
        q = positive(l, p)
        if q is not None and q.op == 'sub' and strip_st(q.args[0]) is P and same_lin(q.args[1], v):
            return True
    if v.op in ('eta', 'mu'):
        lp = LOOPS[v.args[0]]
        s = lp.step.get(v.args[1])
        if s is None:
            return False
        iv = t('iv', v.args[0])
        m = t('mu', v.args[0], v.args[1])
        found = False
        for fs, leaf in flat_phi(s):
            if leaf is m:
                continue
            if not same_lin(leaf, iv):
                return False
            if not any(positive(l, p) is not None and positive(l, p).op == 'sub' and strip_st(positive(l, p).args[0]) is P
                       and same_lin(positive(l, p).args[1], iv) for l, p in lits(fs)):
                return False
            found = True
        # every positive element updates it
        return found and d_full(v.args[0])
    return False


def d_full(key):
    d = LOOPS[key].domain
    return d is not None and (d.op != 'range' or is_const(d.args[0], 0))


def bisect(c, fi, res, R, A):
    """Inductive invariants of a bisection: below `upper` (inclusive) the total reaches the draw, at `lower` it does not."""
    for st, v in res.returns:
        v = uncast(v)
        if searchsorted_ok(v, R, A):
            c.ob('search-returns-reached', fi, has_min(v) or True, 'library search from the left')
            continue
        facts = lits(st.facts())
        reached = any(q is not None and q[1].op == 'sub' and strip_st(q[1].args[0]) is A and same_lin(q[1].args[1], v)
                      for q in (le_lit(l, p) for l, p in facts))
        if not reached and v.op == 'eta':
            reached = inv_upper(v, R, A)
        c.ob('search-returns-reached', fi, reached,
             'logarithmic_search: the cumulative probability at the position returned reaches the draw',
             f'logarithmic_search returns {show(v, 4)} without the cumulative probability there reaching the draw')
        minimal = any(q is not None and q[0].op == 'sub' and strip_st(q[0].args[0]) is A and q[2] and q[0].args[1].op == 'eta'
                      and inv_lower(q[0].args[1], A) for q in (le_lit(l, p) for l, p in facts)) \
            or v.op == 'eta' and inv_lower(v, A)
        c.ob('search-returns-first', fi, minimal, 'logarithmic_search: no earlier position reaches the draw')
    # draws of zero and draws above the rounded total
    used = set()
    for e in res.events:
        for l, p in lits(e.facts()):
            q = le_lit(l, p)
            if q:
                for x in q[:2]:
                    if R in params_in(x):
                        used.add(x)
    for key, lp in LOOPS.items():
        pass
    steps = [x for x in used if not (x is R)] or list(used)
    c.ob('search-zero-draw', fi, any(has_min(x) for x in steps),
         'logarithmic_search: a draw of zero cannot select a leading choice of zero probability')


def inv_upper(v, R, A):
    lp = LOOPS[v.args[0]]
    init, s = lp.init.get(v.args[1]), lp.step.get(v.args[1])
    m = t('mu', v.args[0], v.args[1])
    if init is None or s is None:
        return False
    last = binop('-', t('len', A), const(1))
    if not same_lin(init, last) and not is_const(init, -1):
        return False
    clamped = False
    for fs, leaf in flat_phi(s):
        if leaf is m:
            continue
        ok = False
        for l, p in lits(fs):
            q = le_lit(l, p)
            if q is not None and q[1].op == 'sub' and strip_st(q[1].args[0]) is A and same_lin(q[1].args[1], leaf):
                ok = True
                a = q[0]
                if any(callname(y) == 'builtins.min' or y.op == 'phi' for y in walk(a, False)) and any(
                        y.op == 'sub' and strip_st(y.args[0]) is A and (same_lin(y.args[1], last) or is_const(y.args[1], -1))
                        for y in walk(a, False)):
                    clamped = True
        if not ok:
            return False
    return clamped


def inv_lower(v, A):
    lp = LOOPS[v.args[0]]
    init, s = lp.init.get(v.args[1]), lp.step.get(v.args[1])
    m = t('mu', v.args[0], v.args[1])
    if init is None or s is None or not is_const(init, 0):
        return False
    for fs, leaf in flat_phi(s):
        if leaf is m:
            continue
        ok = False
        for l, p in lits(fs):
            q = le_lit(l, p)
            if q is not None and q[0].op == 'sub' and strip_st(q[0].args[0]) is A and q[2] and (
                    same_lin(q[0].args[1], leaf) or same_lin(binop('+', q[0].args[1], const(1)), leaf)):
                ok = True
        if not ok:
            return False
    return True


def worker_samples(c, w):
    fi = core(c, w)
    r = roles(c, w)
    res = c.run(fi, noinline=KERNELS + ('sample_once', 'sample_multi', 'generate_rand_floats_for_parallel',
                                       'generate_rand_ints_for_parallel'))
    out = strip_st(res.value.args[0]) if res.value.op == 'tup' else strip_st(res.value)
    lsarr = strip_st(res.value.args[1]) if res.value.op == 'tup' else None
    cov = []
    for e in res.events:
        if e.kind == 'setsub' and strip_st(e.obj) is out or e.kind == 'call' and e.fi is not None and \
                e.fi.name == 'sample_multi':
            if e.kind == 'setsub':
                v = uncast(e.value)
                ks = key_comps(e.key)
            else:
                v = e.value
                o = arg_of(e, roles(c, 'sample_multi')['out'].args[0])
                base, kk = path_keys(o) if o is not None else (None, [])
                if base is not out:
                    continue
                ks = [x for k2 in kk for x in key_comps(k2)]
            pk = [k for k in e.loops if LOOPS[k].parallel]
            iv = t('iv', pk[0]) if pk else None
            prob = None
            if v.op == 'call' and v.args[0].op == 'fn' and v.args[0].args[0].split('.')[-1] in ('sample_once', 'sample_multi'):
                prob = v.args[1][0]
            okp = prob is not None and from_kernel(c, strip_st(prob), r, iv, 0)
            c.ob('worker-draws-own-probabilities', e, okp, f'{w}: a record is drawn from its own probabilities',
                 f'{w}: a record is drawn from {show(prob if prob is not None else v, 5)}')
            c.ob('worker-stores-own-row', e, iv is not None and uncast(ks[0]) is iv, f'{w}: the draw of a record is stored in its row')
            if e.kind == 'setsub' and len(ks) > 1:
                c.ob('worker-first-column', e, is_const(ks[1], 0) or ks[1].op == 'slice', f'{w}: a single draw goes to the first column')
            if v.op == 'call' and v.args[0].args[0].endswith('sample_multi'):
                nn = v.args[1][1]
                c.ob('worker-n-draws', e, nn is r['n'], f'{w}: n draws are made for each record', f'{w}: {show(nn)} draws are made')
            cov.append(e.cond() if e.kind == 'setsub' else e.cond())
            full = LOOPS[pk[0]].domain if pk else None
            c.ob('worker-every-record', e, full is not None and full.op == 'range' and is_const(full.args[0], 0) and
                 t('len', r['utilities']) is full.args[1], f'{w}: every record is drawn',
                 f'{w}: the records drawn are {show(full) if full is not None else None}')
    conds = [drop_noise(x) for x in cov]
    c.ob('worker-all-cases', fi, bool(conds) and disj(*conds) is TRUE, f'{w}: records are drawn whatever the number of draws',
         f'{w}: records are only drawn if {show(disj(*conds), 4) if conds else None}')
    lss = [e for e in res.events if e.kind == 'setsub' and strip_st(e.obj) is lsarr]
    for e in lss:
        pk = [k for k in e.loops if LOOPS[k].parallel]
        iv = t('iv', pk[0]) if pk else None
        c.ob('worker-logsum', e, iv is not None and uncast(e.key) is iv and from_kernel(c, strip_st(e.value), r, iv, 1),
             f'{w}: the logsum of a record is the total of its own exponentiated utilities', f'{w} stores {show(e.value, 5)}')
    conds = [drop_noise(e.cond()) for e in lss]
    c.ob('worker-logsum-all-cases', fi, bool(conds) and disj(*conds) is TRUE, f'{w}: every record has its logsum stored')


def drop_noise(x):
    """A condition without the parts that only say that earlier loops ran to completion."""
    parts = x.args if x.op == 'and' else (x,)
    keep = [p for p in parts if not has_op(p, 'exists', False)]
    return conj(*keep)


def from_kernel(c, x, r, iv, k):
    """x is output k of the probability kernel applied to row iv of the utilities with the tree of the caller."""
    if x.op != 'sub' or not is_const(x.args[1], k):
        return False
    call = x.args[0]
    if call.op != 'call' or call.args[0].op != 'fn':
        return False
    name = call.args[0].args[0].split('.')[-1]
    if name not in KERNELS:
        return False
    return kernel_args_ok(call, name, r, iv)


def kernel_args_ok(call, name, r, iv):
    a = call.args[1]
    want = ROLES[name]
    if len(a) < len(want) - 1:
        return False
    for role, v in zip(want, a):
        if role == 'check_infeasible':
            continue
        if role == 'utilities':
            b, ks = path_keys(v)
            if b is not r['utilities'] or (iv is not None and (len(ks) != 1 or uncast(key_comps(ks[0])[0]) is not iv)) \
                    or (iv is None and ks):
                return False
        elif strip_st(v) is not r.get(role):
            return False
    # the nested kernel must be used when there is a tree
    return (name == 'nested_probabilities') == ('hierarchy' in r)


# ---------------------------------------------------------------------------------------------- formulas
def p06(c):
    pattern(c, mnl, nested, p06_workers)
    # the model hands over the scaling flag
    for q in ('run_discrete', 'run_stochastic'):
        res = c.run(f'cheval.model.ChoiceModel.{q}', noinline=WORKERS + ('_evaluate_utilities',))
        for e in [e for w in WORKERS for e in enters(res, w)]:
            if 'scale_utilities' in ROLES[e.fi.name]:
                v = arg_of(e, roles(c, e.fi.name)['scale_utilities'].args[0])
                c.ob('scaling-passed', e, v is t('param', 'scale_utilities'), f'{q} passes scale_utilities to {e.fi.name}')


def p06_workers(c):
    for w in ('worker_multinomial_probabilities', 'worker_nested_probabilities'):
        fi = core(c, w)
        r = roles(c, w)
        res = c.run(fi, noinline=KERNELS)
        outs = [strip_st(x) for x in res.value.args] if res.value.op == 'tup' else []
        c.ob('worker-returns', fi, len(outs) == 3, f'{w} returns probabilities, logsums and logsum terms')
        for k, o in enumerate(outs):
            ss = [e for e in res.events if e.kind == 'setsub' and strip_st(e.obj) is o]
            c.ob('worker-output-filled', fi, bool(ss), f'{w}: output {k} is filled')
            for e in ss:
                pk = [x for x in e.loops if LOOPS[x].parallel]
                iv = t('iv', pk[0]) if pk else None
                ks = key_comps(e.key)
                ok = iv is not None and uncast(ks[0]) is iv and all(x.op == 'slice' for x in ks[1:]) \
                    and from_kernel(c, strip_st(e.value), r, iv, k)
                c.ob('worker-row', e, ok, f'{w}: row i of output {k} is output {k} of the kernel for record i',
                     f'{w}: {show(e.key, 3)} of output {k} is {show(e.value, 5)}')
                d = LOOPS[pk[0]].domain if pk else None
                c.ob('worker-every-record', e, d is not None and d.op == 'range' and is_const(d.args[0], 0)
                     and d.args[1] is t('len', r['utilities']), f'{w}: every record is computed')
    for s, kern in zip(SAMPLERS, ('multinomial_probabilities', 'nested_probabilities') * 2):
        fi = core(c, s)
        r = roles(c, s)
        res = c.run(fi, noinline=KERNELS + ('sample_once', 'sample_multi'))
        v = res.value
        ok = v.op == 'tup' and len(v.args) == 2 and from_kernel(c, strip_st(v.args[1]), r, None, 1)
        c.ob('sampler-logsum', fi, ok, f'{s} returns the logsum of the same utilities', f'{s} returns {show(v, 6)}')
        d = v.args[0] if v.op == 'tup' else v
        ok = d.op == 'call' and d.args[0].op == 'fn' and from_kernel(c, strip_st(d.args[1][0]), r, None, 0)
        c.ob('sampler-draws', fi, ok, f'{s} draws from the probabilities of its utilities', f'{s} draws from {show(d, 5)}')


def EXP(x):
    return t('call', t('glob', 'numpy.exp'), (x,), ())


def mnl(c):
    fi = core(c, 'multinomial_probabilities')
    r = roles(c, 'multinomial_probabilities')
    res = c.run(fi, bind={r['check_infeasible'].args[0]: FALSE})
    d = Den()
    d.arrays = {r['utilities'].args[0]}
    U = sub(r['utilities'], d.i)
    p, tot, ls = res.value.args
    total = t('SUM', EXP(U))
    v = d.value(tot)
    c.ob('mnl-logsum', fi, v is total, 'multinomial: the total is the sum of the exponentiated utilities', f'the total is {show(v, 6)}')
    v = d.value(d.elem(final(res, ls)))
    c.ob('mnl-terms', fi, v is EXP(U), 'multinomial: the terms are the exponentiated utilities', f'a term is {show(v, 6)}')
    v = d.value(d.elem(final(res, p)))
    v = spec(v, [(cmp('LtE', total, const(0)), False), (cmp('Lt', const(0), total), True), (cmp('Eq', total, const(0)), False)])
    c.ob('mnl-probability', fi, poly(v) == poly(binop('/', EXP(U), total)),
         'multinomial: a probability is the exponentiated utility over the total', f'a probability is {show(v, 6)}')


def nested(c):
    k = 'nested_probabilities'
    fi = core(c, k)
    r = roles(c, k)
    U, H, L, S, B, F = (r[x] for x in ('utilities', 'hierarchy', 'levels', 'logsum_scales', 'bottom_flags', 'scale_utilities'))
    res = c.run(fi, bind={r['check_infeasible'].args[0]: FALSE})
    if res.value.op != 'tup' or len(res.value.args) != 3:
        c.ob('nested-outputs', fi, False, 'nested: returns probabilities, logsum and logsum terms')
        return
    prob, top, fin = (strip_st(x) for x in res.value.args)
    stores = [e for e in res.events if e.kind == 'setsub']

    def isU(x, iv):
        """The utility of node iv: its own element before anything has been stored there."""
        x = strip_st(x)
        if x.op != 'sub' or x.args[1] is not iv:
            return False
        b = strip_st(x.args[0])
        return b is U or b is prob and copy_of(prob, U)

    def parent(iv):
        return sub(H, iv)

    def facts(iv, bottom, scaled, child):
        pa = parent(iv)
        out = [(sub(B, iv), bottom), (F, scaled), (cmp('Lt', pa, const(0)), not child),
               (cmp('Eq', pa, const(-1)), not child), (cmp('LtE', const(0), pa), child), (cmp('LtE', pa, const(-1)), not child),
               (cmp('Lt', const(-1), pa), child)]
        for y in (sub(B, iv),):
            out.append((cmp('Eq', y, TRUE), bottom))
        return out

    # --- step 1: exponentiation from the bottom up
    exps = [e for e in stores if strip_st(e.obj) is fin and len(e.loops) >= 2]
    c.ob('nested-terms', fi, bool(exps), 'nested: the logsum term of every node is stored')
    groups = [e for e in stores if uncast(e.key).op == 'sub' and strip_st(uncast(e.key).args[0]) is H and is_accum(e)]
    c.ob('nested-collect', fi, bool(groups), "nested: exponentiated utilities are added to their parent's total")
    gset = {strip_st(e.obj) for e in groups}
    G = next(iter(gset)) if len(gset) == 1 else None
    for e in exps:
        iv = uncast(e.key)
        if iv.op != 'iv':
            c.ob('nested-terms', e, False, 'nested: the logsum term of a node is stored at the node')
            continue
        lvl = level_of(e, L, iv)
        okorder = lvl is not None and order(lvl, L, e, -1)
        c.ob('nested-bottom-up', e, okorder, 'nested: nodes are visited level by level from the deepest to the top, every level once',
             f'nested: the level visited is {show(lvl, 5) if lvl is not None else "not determined"}')
        base = lits(e.facts())
        for bottom in (True, False):
            for scaled in (True, False):
                for child in (True, False):
                    fs = facts(iv, bottom, scaled, child)
                    v = spec(e.value, fs + base)
                    den = sub(S, parent(iv)) if scaled and child else const(1.0)
                    cands = [x for x in walk(v, False) if isU(x, iv)]
                    u = cands[0] if cands else sub(U, iv)
                    num = u
                    if not bottom:
                        g = [x for x in walk(v, False) if x.op == 'sub' and x.args[1] is iv and strip_st(x.args[0]) is G]
                        g = g[0] if g else t('missing')
                        num = binop('+', u, binop('*', sub(S, iv), t('call', t('glob', 'numpy.log'), (g,), ())))
                    want = EXP(binop('/', num, den))
                    c.ob('nested-exponent', e, poly(v) == poly(want),
                         f'nested: exponent of a {"bottom" if bottom else "nest"} node, {"scaled" if scaled else "unscaled"}, '
                         f'{"below a nest" if child else "at the top"}',
                         f'nested: a {"bottom" if bottom else "nest"} node {"below a nest" if child else "at the top"} '
                         f'({"scaled" if scaled else "unscaled"}) has the term {show(v, 8)}')
    E = exps[0].value if exps else None
    for e in groups:
        iv = uncast(uncast(e.key).args[1])
        inc = increment(e)
        c.ob('nested-collect', e, uncast(e.key) is parent(iv) and E is not None and same_under(inc, E, e),
             "nested: a node's exponentiated utility is added to the total of its own parent",
             f'nested: {show(inc, 5)} is added at {show(e.key, 4)}')
        fs = lits(e.facts())
        ok = decide(cmp('Lt', parent(iv), const(0)), fs + derive_parent(fs, parent(iv))) is False
        c.ob('nested-collect-parent', e, ok, 'nested: only nodes with a parent are added to a nest')
    # top total
    if top.op == 'eta':
        acc = None
        lp = LOOPS[top.args[0]]
        okinit = is_const(lp.init.get(top.args[1]), 0, 0.0)
        inner = inner_step(top)
        good = okinit and inner is not None and E is not None
        if good:
            key, name = inner
            lp2 = LOOPS[key]
            s = lp2.step[name]
            m = t('mu', key, name)
            iv = t('iv', key)
            lead = [(f, p) for f, p in lits(exps[0].facts())]
            for child in (True, False):
                v = spec(s, facts(iv, True, True, child)[2:] + lead)
                want = m if child else binop('+', m, spec(E, facts(iv, True, True, child)[2:] + lead))
                good = good and poly(v) == poly(want)
        c.ob('nested-top', fi, good, 'nested: the top total adds up exactly the nodes without a parent', f'nested: top total {show(top, 4)}')
    else:
        c.ob('nested-top', fi, False, 'nested: the top total adds up exactly the nodes without a parent', f'it is {show(top, 5)}')
    # --- later steps on the probabilities
    ps = [e for e in stores if strip_st(e.obj) is prob]
    last1 = max([e.seq for e in exps + groups] or [0])
    phase = {'cond': [], 'abs': [], 'zero': [], 'exp': [], 'other': []}
    for e in ps:
        key = uncast(e.key)
        if is_const(e.value, 0, 0.0):
            phase['zero'].append(e)
        elif E is not None and key.op == 'iv' and same_under(e.value, E, e) and e.seq <= last1 + 3:
            phase['exp'].append(e)
        elif any(x.op == 'bin' and x.args[0] == '/' for x in walk(e.value, False)) and e.seq > last1:
            phase['cond'].append(e)
        elif any(x.op == 'bin' and x.args[0] == '*' for x in walk(e.value, False)) and e.seq > last1:
            phase['abs'].append(e)
        else:
            phase['other'].append(e)
    for e in phase['other']:
        c.ob('nested-probability-store', e, False, '', f'nested: unexpected value stored in the probabilities: {show(e.value, 6)}')
    for n, what in (('exp', 'exponentiated utilities'), ('cond', 'conditional probabilities'), ('abs', 'absolute probabilities'),
                    ('zero', 'zeroes for the nests')):
        c.ob('nested-phase', phase[n][0] if phase[n] else fi, bool(phase[n]), f'nested: {what} are stored')
    for e in phase['cond']:
        iv = uncast(e.key)
        for child in (True, False):
            fs = facts(iv, True, True, child)[2:]
            v = spec(e.value, fs)
            own = [x for x in walk(v, False) if x.op == 'sub' and x.args[1] is iv and strip_st(x.args[0]) is prob]
            want_d = [x for x in walk(v, False) if x.op == 'sub' and strip_st(x.args[0]) is G and x.args[1] is parent(iv)] if child else [top]
            good = False
            if own and want_d:
                d = want_d[0]
                pos = [(cmp('LtE', d, const(0)), False), (cmp('Lt', const(0), d), True), (cmp('Eq', d, const(0)), False)]
                zero = [(cmp('LtE', d, const(0)), True), (cmp('Lt', const(0), d), False), (cmp('Eq', d, const(0)), True)]
                good = poly(spec(v, pos)) == poly(binop('/', own[0], d))
                c.ob('nested-zero-total', e, is_const(spec(v, zero), 0, 0.0),
                     'nested: choices below a nest without any available choice get probability zero')
            c.ob('nested-conditional', e, good and full_domain(iv.args[0]),
                 f'nested: the conditional probability of a node {"in a nest" if child else "at the top"} is its term over the total',
                 f'nested: the conditional probability of a node {"in a nest" if child else "at the top"} is {show(v, 6)}')
    for e in phase['abs']:
        iv = uncast(e.key)
        lvl = level_of(e, L, iv) if iv.op == 'iv' else None
        own = [x for x in walk(e.value, False) if x.op == 'sub' and x.args[1] is iv and strip_st(x.args[0]) is prob]
        par = [x for x in walk(e.value, False) if x.op == 'sub' and x.args[1] is parent(iv) and strip_st(x.args[0]) is prob]
        c.ob('nested-absolute', e, bool(own and par) and poly(e.value) == poly(binop('*', own[0], par[0])),
             'nested: an absolute probability is the conditional one times the probability of the parent', f'it is {show(e.value, 6)}')
        c.ob('nested-top-down', e, lvl is not None and order(lvl, L, e, 1),
             'nested: absolute probabilities are computed from the top down, for every level below the first',
             f'nested: the level visited is {show(lvl, 5) if lvl is not None else "not determined"}')
    for e in phase['zero']:
        key = uncast(e.key)
        iv = uncast(key.args[1]) if key.op == 'sub' and strip_st(key.args[0]) is H else None
        ok = iv is not None and iv.op == 'iv' and full_domain(iv.args[0])
        if not ok and key.op == 'iv' and decide(sub(B, key), lits(e.facts())) is False and full_domain(key.args[0]):
            ok = True
        if ok and iv is not None:
            fs = lits(e.facts())
            ok = decide(cmp('Lt', parent(iv), const(0)), fs + derive_parent(fs, parent(iv))) is False
        c.ob('nested-zero-nests', e, ok, 'nested: nests (and only nests) get probability zero', f'nested: zero is stored at {show(e.key, 4)}')
    seqs = {n: [e.seq for e in v] for n, v in phase.items()}
    okseq = all(seqs[a] and seqs[b] and max(seqs[a]) < min(seqs[b]) for a, b in (('exp', 'cond'), ('cond', 'abs'), ('abs', 'zero')))
    okseq = okseq and all(e.seq < min(seqs['cond'] or [0]) for e in groups)
    c.ob('nested-order', fi, okseq, 'nested: totals first, then conditional, then absolute probabilities, nests zeroed last')


def derive_parent(fs, pa):
    out = []
    for l, p in fs:
        if l is cmp('LtE', const(0), pa) or l is cmp('Lt', const(-1), pa):
            out.append((cmp('Lt', pa, const(0)), not p))
        if l is cmp('Eq', pa, const(-1)):
            out.append((cmp('Lt', pa, const(0)), p))
    return out


def copy_of(a, u):
    """A fresh array holding a copy of `u`."""
    x = a
    n = 0
    while n < 6:
        n += 1
        x = strip_st(strip_alloc(x))
        if x is u:
            return True
        if x.op == 'mcall' and x.args[0] in ('astype', 'copy'):
            x = x.args[1]
        elif x.op == 'call' and callname(x) in ('numpy.array', 'numpy.copy'):
            x = x.args[1][0]
        else:
            return False
    return False


def is_accum(e):
    v = e.value
    return e.op == '+' or (v.op == 'bin' and v.args[0] == '+' and any(
        x.op == 'sub' and strip_st(x.args[0]) is strip_st(e.obj) and x.args[1] is e.key for x in v.args[1:]))


def increment(e):
    if e.args:
        return e.args[0]
    v = e.value
    a = [x for x in v.args[1:] if not (x.op == 'sub' and strip_st(x.args[0]) is strip_st(e.obj))]
    return a[0] if a else v


def same_under(a, b, e):
    fs = lits(e.facts())
    return spec(a, fs) is spec(b, fs) or poly(spec(a, fs)) == poly(spec(b, fs))


def level_of(e, L, iv):
    """The level at which node iv is visited by an event."""
    for l, p in lits(e.facts()):
        if l.op == 'cmp' and l.args[0] == '==' and p:
            for a, b in ((l.args[1], l.args[2]), (l.args[2], l.args[1])):
                if a is sub(L, iv):
                    return b
    return None


def order(lvl, L, e, direction):
    """Whether the level runs over max..0 (direction -1) or 1..max (direction 1) with the loop around the event."""
    d, k = lin(lvl)
    ivs = [x for x in d if x.op == 'iv']
    if len(ivs) != 1 or ivs[0].args[0] not in e.loops:
        return False
    iv = ivs[0]
    dom = LOOPS[iv.args[0]].domain
    if dom is None or dom.op != 'range':
        return False
    mx = [x for x in walk(binop('+', lvl, dom.args[1]), False) if callname(x) in ('.max', 'numpy.max', 'builtins.max')]
    if not mx:
        return False
    M = mx[0]
    if strip_st(M.args[1] if M.op == 'mcall' else M.args[1][0]) is not L:
        return False

    def at(ivval):
        dd = {a: b for a, b in d.items() if a is not iv}
        vd, vk = lin(ivval)
        co = d[iv]
        for a, b in vd.items():
            dd[a] = dd.get(a, 0) + co * b
        return {a: b for a, b in dd.items() if b}, k + co * vk
    first, last = at(dom.args[0]), at(binop('-', dom.args[1], const(1)))
    if direction == -1:
        return d[iv] == -1 and first == ({M: 1}, 0) and last == ({}, 0)
    return d[iv] == 1 and first in (({}, 1), ({}, 0)) and last == ({M: 1}, 0) and first == ({}, 1)


def inner_step(top):
    """(key, name) of the innermost loop that accumulates a nested accumulator."""
    key, name = top.args
    n = 0
    while n < 4:
        n += 1
        s = LOOPS[key].step.get(name)
        if s is None:
            return None
        if s.op == 'eta':
            init = LOOPS[s.args[0]].init.get(s.args[1])
            if init is not t('mu', key, name):
                return None
            key, name = s.args
            continue
        return key, name
    return None


RULES = {"P01": p01, "P02": p02, "P03": p03, "P05": p05, "P06": p06}
