"""Rules over what may change: inputs are left alone, runs leave the model as it was."""
from .interp import VIEW_METHODS
from .lib import *  # noqa: F401,F403
from .lib import callargs, callname, flat_phi, lits
from .rules_core import CORE, KERNELS, SAMPLERS, WORKERS, mem_effects, p04_core
from .rules_model import GROUP, MODEL, NODE, SELF, mfn
from .rules_run import SUB, SYMBOLS, cache_field, content, data_field, evaluations, out_array, scope_field

IN_PLACE = {'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.fill_diagonal': 0,
            'numpy.put_along_axis': 0, 'random.shuffle': 0, 'numpy.random.shuffle': 0}
ELEMS = {'values', 'items', 'keys', 'get', 'get_group', '_get', '__getitem__', '__iter__', 'itersimple', 'iterchained',
         'tolist'}
HOLDERS = {'builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.sorted', 'builtins.reversed', 'builtins.enumerate',
           'builtins.zip', 'builtins.dict', 'builtins.set', 'builtins.next', 'itertools.chain', 'builtins.filter',
           'builtins.map', 'builtins.vars', 'builtins.getattr'}
SAME_MEM = {'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.atleast_2d', 'numpy.atleast_1d',
            'numpy.ravel', 'numpy.reshape', 'numpy.transpose', 'numpy.squeeze', 'cheval.utils.to_numpy', 'numpy.asfarray',
            'numpy.broadcast_to', 'numpy.array'}


def effects(e):
    """(object, what) pairs an event changes in place."""
    for o, _ in mem_effects(e):
        yield o, e.kind if e.kind != 'mutate' else e.op
    if e.kind in ('setattr', 'delattr'):
        yield e.obj, e.key
    elif e.kind == 'propset':
        pass                                     # the setter is analysed in its place
    elif e.kind == 'aug' and e.obj is not None and arrayish(e.obj):
        yield e.obj, e.op + '='
    elif e.kind == 'call':
        n = callname(e.value)
        if n in IN_PLACE and e.args:
            yield e.args[IN_PLACE[n]], n
        if n == 'numpy.nan_to_num' and e.args:
            k = kwarg(e, 'copy')
            if k is not None and is_const(k, False):
                yield e.args[0], n
        if n is not None and n.startswith('numpy.') and n.endswith('.at') and e.args:
            yield e.args[0], n


def arrayish(x):
    """Whether an augmented assignment to this value is known to change memory."""
    x = strip_st(x)
    n = callname(x) or ''
    return n in SAME_MEM or n in ('.to_numpy', '.view', '.reshape', '.ravel') or x.op == 'attr' and x.args[1] in ('values', 'T') \
        or x.op == 'sub' and any(y.op == 'slice' for y in ([x.args[1]] + list(x.args[1].args if x.args[1].op == 'tup' else ())))


def keytag(k):
    ks = k.args if k.op == 'tup' else (k,)
    return '[:]' if any(y.op == 'slice' or is_const(y, Ellipsis) for y in ks) else '[]'


def is_box(x, interp):
    """A dict, list, deque or set, as far as is known."""
    x = strip_st(x)
    if interp is not None:
        ty = interp.typeof(x)
        if ty and ty[0] == 'G' and ty[1] in ('Dict', 'dict', 'List', 'list', 'Deque', 'deque', 'Set', 'set', 'Tuple'):
            return True
        if interp.is_dictlike(x):
            return True
    y = strip_alloc(x) if x.op == 'alloc' else x
    n = callname(y)
    if n == '.copy':
        return is_box(y.args[1], interp)
    return y.op in ('lit', 'dictlit') or n in ('builtins.list', 'builtins.dict', 'builtins.set', 'collections.deque') or \
        n in ('copy.copy',) and is_box(callargs(y)[0], interp)


def copying_key(x, interp=None):
    """Whether indexing an array or frame with this makes a copy."""
    k = x.args[1]
    if is_box(x.args[0], interp):
        return False
    if k.op in ('slice', 'iv', 'const', 'fstr') or keytag(k) == '[:]':
        return False
    if k.op == 'tup' and all(y.op in ('const', 'iv') for y in k.args):
        return False
    if k.op in ('sub', 'attr', 'phi', 'call', 'mcall', 'bin'):
        return True
    if k.op in ('cmp', 'and', 'or', 'not', 'inv', 'lit'):
        return True
    if k.op == 'alloc':
        return True
    if k.op == 'bin' and k.args[0] in ('&', '|'):
        return True
    b = strip_st(x.args[0])
    return b.op == 'attr' and b.args[1] in ('loc', 'iloc') and k.op not in ('const', 'slice', 'tup')


def bases(x, interp=None):
    """[(term, path)] of the objects a value may belong to: parameters, globals, or objects made on the way."""
    out, todo, seen = [], [(x, ())], set()
    while todo:
        y, path = todo.pop()
        y = strip_st(y)
        if (y, bool(path)) in seen:
            continue
        seen.add((y, bool(path)))
        if y.op == 'attr':
            todo.append((y.args[0], (y.args[1],) + path))
        elif y.op == 'sub':
            if copying_key(y, interp):
                continue
            todo.append((y.args[0], (keytag(y.args[1]),) + path))
        elif y.op == 'phi':
            todo += [(y.args[1], path), (y.args[2], path)]
        elif y.op in ('mu', 'eta') and y.args[0] in LOOPS:
            for d in (LOOPS[y.args[0]].init, LOOPS[y.args[0]].step):
                if y.args[1] in d:
                    todo.append((d[y.args[1]], path))
        elif y.op == 'mcall' and (y.args[0] in VIEW_METHODS or y.args[0] in ELEMS):
            todo.append((y.args[1], ('.' + y.args[0] + '()',) + path))
        elif y.op == 'call' and callname(y) in SAME_MEM and callargs(y):
            todo.append((callargs(y)[0], path))
        elif y.op == 'call' and callname(y) in HOLDERS and path:
            todo += [(a, ('elem',) + path) for a in callargs(y)]
        elif y.op == 'alloc':
            z = strip_alloc(y)
            n = callname(z)
            if path and path[0] != '[:]' and (n in HOLDERS or n in ('.copy', 'copy.copy') and is_box(y, interp)):
                src = callargs(z) if n[0] != '.' else (z.args[1],)
                todo += [(a, path) for a in src]
            elif path and z.op == 'lit':
                todo += [(a, path[1:]) for a in z.args[1:] if isinstance(a, T)]
            elif n == '.astype' and is_const(tkw(z, 'copy') or TRUE, False):
                todo.append((z.args[1], path))
            elif n == 'numpy.array' and is_const(tkw(z, 'copy') or TRUE, False):
                todo.append((callargs(z)[0], path))
            else:
                out.append((y, path))
        else:
            out.append((y, path))
    return out


def header_only(e, what):
    """Setting the shape of a view that was just made leaves the array viewed as it is."""
    if e.kind not in ('setattr', 'propset', 'mutate') or what not in ('shape', 'set.shape', 'dtype'):
        return None
    good = []
    for _, leaf in flat_phi(e.obj):
        x = strip_st(leaf)
        n = callname(x)
        good.append(x.op == 'sub' and keytag(x.args[1]) == '[:]' or x.op == 'alloc' or n in ('.view', '.reshape', '.ravel',
                                                                                          '.astype', 'numpy.array')
                    or n == '.to_numpy' and tkw(x, 'dtype') is not None and tkw(x, 'dtype').op == 'fstr')
    return all(good)


def changes(c, fi, noinline=(), bind=None, facts=()):
    """(result, [(event, base, path, what)]) for everything a function changes that it did not make."""
    r = c.run(fi, noinline=noinline, **({'bind': bind} if bind else {}), **({'facts': facts} if facts else {}))
    out = []
    for e in r.events:
        for o, w in effects(e):
            if o is None or header_only(e, w):
                continue
            for b, path in bases(o, r.interp):
                if b.op in ('param', 'glob', 'self') or b in r.params.values():
                    out.append((e, b, path, w))
    return r, out


LDF_C = 'cheval.ldf.api.LinkedDataFrame'
LAZY = {'flat_indexer', 'other_grouper', '_missing_indices'}        # indexers of links, computed when first needed
OUTS = {'out', 'out_array'}


def class_functions(c, cls, private=False):
    out = []
    for q, f in sorted(c.p.functions.items()):
        if q.startswith(cls + '.') and '.' not in q[len(cls) + 1:].replace('.setter', ''):
            n = f.name
            if private or not n.startswith('_') or n.startswith('__') and n.endswith('__'):
                out.append(f)
    return out


def data_fields(c):
    """Attributes that hold data of the user."""
    out = set()
    for cls in SYMBOLS:
        out.add(data_field(c, cls)[0])
    return out | {'other', '_decision_units', 'decision_units'}


# ---------------------------------------------------------------------------------------------- P04
def p04(c):
    p04_core(c)
    held = data_fields(c)
    fns = []
    for cls in (MODEL, NODE, GROUP, SUB, LDF_C) + tuple(f'cheval.api.{x}' if '.' not in x else x for x in SYMBOLS):
        fns += class_functions(c, cls)
        fns += [f for f in class_functions(c, cls, True) if f.name in ('_get', '_LeafAggregation')]
    for q, f in sorted(c.p.functions.items()):
        if q.startswith(LDF_C + '._') and q.count('.') > 4 and f.name in ('__getitem__', '__call__', '__getattr__'):
            fns.append(f)
        if q.startswith('cheval.utils.') or q.startswith('cheval.ldf.missing_data.') and '__init__' not in q:
            fns.append(f)
        if q in ('cheval.parsing.expressions.Expression.parse', 'cheval.parsing.expressions.Expression._prepare_dict_literals'):
            fns.append(f)
    seen = set()
    for f in fns:
        if f.qual in seen:
            continue
        seen.add(f.qual)
        r, ch = changes(c, f)
        me = next(iter(r.params.values()), None) if f.cls is not None and 'staticmethod' not in decorators(f) else None
        bad = None
        for e, b, path, w in ch:
            if b is not me:
                if b.op == 'glob' or b.op == 'param' and b.args[0] in OUTS | {'cls'}:
                    continue
                if f.name == '_prepare_dict_literals' and b.args[0] == 'local_dict' and not path:
                    continue
                if b.op != 'param':
                    continue
                if path and path[-1] in LAZY or w in LAZY:
                    continue
                if owned(c, e, b, r):
                    continue
                bad = (e, f'{show(b, 3)} is changed ({w})')
            else:
                i = next((i for i, x in enumerate(path) if x in held), None)
                if i is None:
                    continue
                if w in LAZY or any(x in LAZY for x in path):
                    continue
                if path[i] == cache_field(c):
                    continue
                bad = (e, f'data held in {"/".join(path[:i + 1])} is changed ({w})')
        c.ob('inputs-unchanged', bad[0] if bad else f, bad is None,
             f'{short(f)}: what it is given is left as it was', f'{short(f)}: {bad[1]}' if bad else None)


def owned(c, e, b, r):
    """A parameter that is a part of the object: its parent, its model."""
    ty = r.interp.typeof(b)
    return bool(ty) and ty[0] in ('C', 'cls') and ty[1] in (MODEL, NODE)


def decorators(f):
    import ast
    return {ast.unparse(d) for d in getattr(f.node, 'decorator_list', [])}


def short(f):
    return '.'.join(f.qual.split('.')[-2:]) if f.cls is not None else f.name


# ---------------------------------------------------------------------------------------------- P15
READERS = {
    MODEL: ('validate', 'choices', 'elemental_choices', 'depth', '_flatten', 'decision_units', 'precision', 'expressions',
            '__getitem__', 'copy', 'copy_subset', '_make_column_mask', '_convert_result'),
    NODE: ('name', 'parent', 'level', 'full_name', 'nested_id', 'max_level', 'is_parent', 'n_children', 'logsum_scale',
           'children', 'nested_ancestors'),
    GROUP: ('__iter__', 'itersimple', 'iterchained', 'copy', 'get_group', 'tolist', '__add__', '__len__'),
    SUB: ('__iter__', 'itersimple', 'iterchained', '__add__', '__len__', 'tolist'),
    'cheval.parsing.expressions.Expression': ('_prepare_dict_literals', 'raw', 'transformed', 'chains', 'symbols',
                                              'dict_literals', 'filter_'),
}


def p15(c):
    f = cache_field(c)
    sf = scope_field(c)
    for name in ('run_discrete', 'run_stochastic', 'preval'):
        r, ch = changes(c, mfn(c, name))
        me = SELF(r)
        evs = evaluations(r)
        U = out_array(evs[0]) if evs else None
        done = set()
        for e, b, path, w in ch:
            key = (e.seq, path, w)
            if key in done:
                continue
            done.add(key)
            if b.op == 'param' and b is not me:
                if b.args[0] in ('random_seed', 'logger'):
                    continue
                c.ob('run-leaves-model', e, False, f'{name} changes nothing it is given', f'{name} changes {show(b, 3)} ({w})')
                continue
            if b.op == 'glob':
                if b.args[0].startswith('cheval.'):
                    c.ob('run-leaves-model', e, False, f'{name} changes no state of the package', f'{name} changes {show(b, 3)}')
                continue
            allowed_change(c, r, name, e, path, w, f, sf, U)
        c.ob('run-leaves-model', r.fi, True, f'{name}: {len(done)} changes of the model examined')
    for cls, names in READERS.items():
        for n in names:
            g = c.p.functions.get(f'{cls}.{n}')
            if g is None:
                continue
            r, ch = changes(c, g)
            me = next(iter(r.params.values()), None)
            bad = None
            for e, b, path, w in ch:
                if b.op == 'glob' and not b.args[0].startswith('cheval.'):
                    continue
                if n == '_prepare_dict_literals' and b is not me:
                    continue
                if w in LAZY or memo(e, b, path, w, c):
                    continue
                bad = (e, f'{"/".join(path) or show(b, 3)} is changed ({w})')
            c.ob('reading-changes-nothing', bad[0] if bad else g, bad is None, f'{short(g)} changes nothing',
                 f'{short(g)}: {bad[1]}' if bad else None)
    for cls in SYMBOLS:
        for n in ('_get', 'filled', 'copy'):
            q = f'{cls}.{n}' if cls.startswith('cheval') else f'cheval.api.{cls}.{n}'
            g = c.p.functions.get(q)
            if g is None:
                continue
            r, ch = changes(c, g)
            me = next(iter(r.params.values()), None)
            bad = next(((e, f'{"/".join(path)} is changed ({w})') for e, b, path, w in ch if w not in LAZY
                        and not any(x in LAZY for x in path)), None)
            c.ob('reading-changes-nothing', bad[0] if bad else g, bad is None, f'{short(g)} changes nothing',
                 f'{short(g)}: {bad[1]}' if bad else None)


def memo(e, b, path, w, c=None):
    """An attribute set once, when it is None, to something that is made from the object itself."""
    if e.kind != 'setattr' or path:
        return False
    if c is not None and e.frames and e.frames[-1].cls is not None and len(e.frames) > 1:
        r = c.run(e.frames[-1])
        return any(x.kind == 'setattr' and x.key == w and x.node is e.node and memo(x, b, path, w) for x in r.events)
    for l, p in lits(e.facts()):
        if l.op == 'cmp' and l.args[0] == 'is' and p and any(is_const(x, None) for x in l.args[1:]) and any(
                strip_st(x).op == 'attr' and strip_st(x).args[1] == w for x in l.args[1:]):
            return True
    return False


def allowed_change(c, r, name, e, path, w, f, sf, U):
    me = SELF(r)
    if w in LAZY or any(x in LAZY for x in path):
        return
    if e.kind == 'setattr' and not path and w == 'debug_results':
        return
    if e.kind == 'setattr' and not path and w == f:
        if name == 'preval' and U is not None and contains(e.value, U):
            return
        ok = memo(e, me, path, w, c)
        c.ob('run-leaves-utilities', e, ok, f'{name}: partial utilities are only set if there are none',
             f'{name} replaces the partial utilities')
        if U is not None:
            c.ob('run-leaves-utilities', e, not any(contains(x, U) for x in [e.value]), f'{name}: the partial utilities kept '
                 'are not those the expressions are added to')
        return
    if path and path[0] == f:
        if name == 'preval' and False:
            return
        c.ob('run-leaves-utilities', e, False, f'{name}: the partial utilities are left as they are',
             f'{name} adds to the partial utilities in place ({w})')
        return
    if path and path[0] == sf:
        flag = r.params.get('clear_scope' if name != 'preval' else 'cleanup_scope')
        own = [l for l, p in lits(e.facts()) if p and l is flag]
        if path == (sf,) and (w in ('clear', 'delsub', 'pop')):
            c.ob('scope-kept', e, bool(own), f'{name}: the scope is cleared only when asked for',
                 f'{name} empties the scope in any case')
            return
    if name == 'preval' and '_subgroups' in path or name == 'preval' and path and path[0] == '_expressions':
        flag = r.params.get('drop_group')
        own = [l for l, p in lits(e.facts()) if p and l is flag]
        if w in ('delsub', 'pop', 'drop_group'):
            c.ob('group-kept', e, bool(own), f'{name}: the group is dropped only when asked for', f'{name} drops the group in any case')
            return
    if memo(e, me, path, w, c):
        stale_memo(c, r, name, e, w)
        return
    c.ob('run-leaves-model', e, False, f'{name} leaves the model as it is', f'{name} changes {"/".join(path + (str(w),))}')


def stale_memo(c, r, name, e, w):
    c.skip('run-leaves-model', e, f'{name} remembers {w}')


# ---------------------------------------------------------------------------------------------- P16
def tree_fields(c):
    from .rules_model import registry
    from .rules_run import top_field
    return {registry(c)[0], top_field(c)}


def model_base(b, path, me, cls):
    """Path within the model, or None if the change is not one of the model."""
    if b is not me:
        return None
    if cls == MODEL:
        return path
    return path[1:] if path and path[0] in ('_root', 'root') else None


def memo_fields(c):
    """{field: mentions the decision units}: fields of the model that remember something made from its tree or units."""
    from .rules_model import du_field
    out = {}
    du = du_field(c)
    for f in class_functions(c, MODEL, True):
        if f.name == '__init__':
            continue
        r = c.run(f)
        me = SELF(r) if r.params else None
        for e in r.events:
            if e.kind == 'setattr' and strip_st(e.obj) is me and e.frames[-1].qual == f.qual and not is_const(e.value) and (
                    memo(e, me, (), e.key) or e.key == cache_field(c)) and e.key != du and (e.key == cache_field(c) or not any(
                        p is not me and contains(e.value, p) for p in r.params.values())):
                out[e.key] = out.get(e.key, False) or any(y.op == 'attr' and y.args[1] in (du, 'decision_units')
                                                          for y in walk(e.value, True))
            if e.kind == 'setsub' and e.frames[-1].qual == f.qual:
                o = strip_st(e.obj)
                if o.op == 'attr' and strip_st(o.args[0]) is me and any(
                        l.op == 'cmp' and l.args[0] == 'in' and not p and strip_st(l.args[2]) is o for l, p in lits(e.facts())) \
                        and o.args[1] not in tree_fields(c) and any(y.op == 'attr' and y.args[1] in tree_fields(c) | {du, 'choices'}
                                                                    for y in walk(e.value, True)):
                    out[o.args[1]] = any(y.op == 'attr' and y.args[1] in (du, 'decision_units') for y in walk(e.value, True))
    return out


def p16(c):
    from .rules_model import du_field
    du = du_field(c)
    tree = tree_fields(c)
    memos = memo_fields(c)
    n = 0
    for cls in (MODEL, NODE):
        for f in class_functions(c, cls, True):
            if f.name == '__init__':
                continue
            r, ch = changes(c, f, noinline=('empty', 'validate', '_get'))
            me = SELF(r) if r.params else None
            hits = {}
            for e, b, path, w in ch:
                q = model_base(b, path, me, cls)
                if q is None:
                    continue
                field = q[0] if q else w
                if field in tree and (q or e.kind == 'setattr'):
                    hits.setdefault('tree', e)
                if field == du and not q and not is_const(e.value, None):
                    hits.setdefault('units', e)
            if not hits:
                continue
            helper = f.name.startswith('_') and not f.name.startswith('__')
            if helper and callers_ok(c, f):
                continue                              # analysed where it is called
            n += 1
            for kind, e in hits.items():
                for m, du_dep in sorted(memos.items()):
                    if kind == 'units' and not du_dep:
                        continue
                    resets = [x for x in r.events if x.kind == 'setattr' and x.key == m and is_const(x.value, None)
                              or x.kind == 'mutate' and x.op == 'clear' and strip_st(x.obj).op == 'attr'
                              and strip_st(x.obj).args[1] == m]
                    resets = [x for x in resets if not [g for g in own_conditions(x, e)]]
                    last = [x for x in r.events if x.kind == 'setattr' and x.key == m]
                    ok = bool(resets) and (not last or last[-1] in resets or not is_const(last[-1].value) and False)
                    c.ob('caches-reset', e, ok, f'{short(f)}: {m} is discarded',
                         f'{m} is kept although {"the choices" if kind == "tree" else "the decision units"} change')
                emptied(c, f, r, e, kind)
    if n == 0:
        raise Broken('no method changes the tree or the decision units')


def callers_ok(c, f):
    """Whether a helper is called by other functions of the tree classes."""
    import ast
    for q, g in c.p.functions.items():
        if g is not f and g.cls is not None and any(isinstance(x, ast.Attribute) and x.attr == f.name
                                                    for x in ast.walk(g.node)):
            return True
    return False


def own_conditions(x, e):
    """Conditions of an event that are not conditions of another one."""
    theirs = {(l, p) for l, p in lits(e.facts())}
    out = []
    for g, p, k in x.guards:
        if k in ('if', 'sc', 'except'):
            for l, q in literals(g, p):
                if (l, q) not in theirs:
                    out.append((l, q))
        if k == 'loop':
            out.append((g, p))
    return out


def symbol_kinds(kind):
    """Kinds of symbols whose data belongs to the choices or to the decision units."""
    if kind == 'tree':
        return [('VectorSymbol', 1), ('TableSymbol', 1), ('MatrixSymbol', 0), ('MatrixSymbol', 1)]
    return [('VectorSymbol', 0), ('TableSymbol', 0), ('MatrixSymbol', 0), ('MatrixSymbol', 1)]


def emptied(c, f, r, change, kind):
    sf = scope_field(c)
    evs = [e for e in r.events if (e.kind == 'call' and (callname(e.value) or '').endswith('.empty') or
                                   e.kind == 'enter' and e.fi is not None and e.fi.name == 'empty')]
    whole = [e for e in r.events if e.kind == 'mutate' and e.op == 'clear' and strip_st(e.obj).op == 'attr'
             and strip_st(e.obj).args[1] == sf]
    for cls, o in symbol_kinds(kind):
        verdict = False
        for e in evs:
            if not e.loops:
                continue
            obj = e.obj if e.obj is not None else (e.args[0] if e.args else None)
            d = LOOPS[e.loops[-1]].domain
            if d is None or not any(y.op == 'attr' and y.args[1] == sf for y in walk(d, False)):
                verdict = None if verdict is False else verdict
                continue
            cond = TRUE
            for g, p, k in own_guards_of(e):
                v = truth(kind_subst(c, g if p else nneg(g), cls, o))
                if v is False:
                    cond = FALSE
                    break
                if v is None:
                    cond = None
            if LOOPS[e.loops[-1]].has_break:
                cond = FALSE
            flt = domain_filter(c, d, cls, o)
            if flt is False:
                cond = FALSE
            elif flt is None and cond is TRUE:
                cond = None
            if cond is TRUE:
                verdict = True
                break
            if cond is None:
                verdict = None
        if whole:
            verdict = True
        what = 'choices' if kind == 'tree' else 'decision units'
        if verdict is None:
            c.skip('data-cleared', change, f'{short(f)}: {cls} {o}')
        else:
            c.ob('data-cleared', change, verdict, f'{short(f)}: data of a {cls} aligned with the {what} ({o}) is cleared',
                 f'{short(f)} keeps the data of a {cls} (orientation {o}) although the {what} change')


def domain_filter(c, d, cls, o):
    """Whether a symbol of this kind is in a collection made from the scope."""
    b = built(d)
    if b is None:
        return True
    out = True
    for g in b[2] or ():
        l, p = g[0], g[1]
        v = truth(kind_subst(c, l if p else nneg(l), cls, o))
        if v is False:
            return False
        if v is None:
            out = None
    return out


def own_guards_of(e):
    from .rules_run import own_guards
    return [(g, p, k) for g, p, k in own_guards(e, e.loops[-1]) if k not in ('loop', 'loopexit')]


def kind_subst(c, g, cls, o):
    """A condition on a symbol, for a symbol of a class and an orientation."""
    m = {}
    mro = [cls, 'AbstractSymbol', 'object']
    for y in walk(g, False):
        if y.op == 'isinst':
            names = [z.args[0].split('.')[-1] for a in y.args[1:] for z in walk(a, False) if z.op in ('glob', 'cls')] or \
                [str(a).split('.')[-1] for a in y.args[1:] if isinstance(a, str)]
            if names:
                m[y] = TRUE if any(x in mro for x in names) else FALSE
        elif y.op == 'attr' and 'orientation' in y.args[1]:
            m[y] = NONE if cls == 'NumberSymbol' else const(o)
        elif callname(y) == 'builtins.getattr' and len(callargs(y)) > 1 and is_const(callargs(y)[1]) and \
                'orientation' in str(cval(callargs(y)[1])):
            m[y] = const(o) if cls != 'NumberSymbol' else (callargs(y)[2] if len(callargs(y)) > 2 else NONE)
        elif callname(y) == 'builtins.type':
            m[y] = t('glob', f'cheval.api.{cls}')
        elif callname(y) == 'builtins.hasattr' and len(callargs(y)) > 1 and is_const(callargs(y)[1]) and \
                'orientation' in str(cval(callargs(y)[1])):
            m[y] = const(cls != 'NumberSymbol')
        elif y.op == 'attr' and y.args[1] == 'filled':
            m[y] = TRUE
    return subst(g, m) if m else g


# ---------------------------------------------------------------------------------------------- P17
SHALLOW = {'.copy', 'builtins.dict', 'builtins.set', 'copy.copy', 'builtins.list'}


def final(r, obj, field):
    return r.state.heap.get((obj, field)) if r.state is not None else None


def in_place_fields(c):
    """Fields of the model whose object is changed in place by some method."""
    out = set()
    for f in class_functions(c, MODEL, True):
        if f.name == '__init__':
            continue
        r, ch = changes(c, f)
        me = SELF(r) if r.params else None
        for e, b, path, w in ch:
            if b is me and path:
                out.add(path[0])
    return out


def init_fields(c, cls):
    r = c.run(c.p.fn(f'{cls}.__init__'))
    me = SELF(r)
    return r, {k[1]: v for k, v in r.state.heap.items() if k[0] is me and isinstance(k[1], str) and k[1] != '#'}


def p17(c):
    from .rules_model import du_field
    from .rules_run import merged
    merged(c, ('copy',))
    du, sf, uf = du_field(c), scope_field(c), cache_field(c)
    from .rules_run import expr_field
    xf = expr_field(c)
    tree = tree_fields(c)
    shared = in_place_fields(c)
    g = c.p.fn(f'{MODEL}.copy')
    names = ('decision_units', 'scope_declared', 'scope_assigned', 'expressions', 'utilities')
    for bits in range(32):
        fl = dict(zip(names, ((bits >> i) & 1 for i in range(5))))
        r = c.run(g, noinline=('copy', 'validate', '_get', 'append'), bind={k: (TRUE if v else FALSE) for k, v in fl.items()})
        want = {du: fl['decision_units'] or fl['scope_assigned'], xf: fl['expressions'], uf: fl['utilities'],
                sf: fl['scope_declared'] or fl['scope_assigned']}
        flags = ', '.join(k for k, v in fl.items() if v) or 'no options'
        copied(c, r, 'copy', flags, want, du, sf, uf, xf, tree, shared, fl['scope_assigned'], None)
    g = c.p.fn(f'{MODEL}.copy_subset')
    r = c.run(g, noinline=('copy', 'validate', '_get', 'append'))
    mask = r.params[g.node.args.args[1].arg]
    copied(c, r, 'copy_subset', '', {du: 1, xf: 1, uf: 1, sf: 1}, du, sf, uf, xf, tree, shared, True, mask)
    # the mask belongs to the decision units
    ev = next((e for e in r.events if e.kind == 'setattr' and e.key == uf and contains(e.value, mask)), None) or \
        next((e for e in r.events if e.kind == 'setattr' and contains(e.value, mask)), None) or r.fi
    if isinstance(ev, Event):
        good = any(p and callname(l) in ('.equals', '.identical') and (
            contains(l.args[1], mask) and du_in(c, callargs(l)[0], du) or
            contains(callargs(l)[0], mask) and du_in(c, l.args[1], du)) for l, p in lits(ev.facts()))
        same = [l for l, p in lits(ev.facts()) if contains(l, mask) and not weak_check(l, mask)]
        if not good and same:
            c.skip('mask-checked', ev, show(same[0], 5))
        else:
            c.ob('mask-checked', ev, good, 'copy_subset: the mask is checked to belong to the decision units',
                 'a mask with another index is accepted')
    for cls in SYMBOLS:
        symbol_copy(c, cls)


def du_in(c, x, du):
    return any(y.op == 'attr' and y.args[1] in (du, 'decision_units') for y in walk(x, False))


def mask_form(x, mask):
    """True: the mask itself; False: surely something else; None: not known."""
    x = strip_st(x)
    x = strip_alloc(x) if x.op == 'alloc' else x
    if x is mask:
        return True
    n = callname(x) or ''
    if x.op == 'attr' and x.args[1] in ('values', 'array'):
        return mask_form(x.args[0], mask)
    if n in ('.to_numpy', '.astype', '.copy', '.ravel'):
        return mask_form(x.args[1], mask)
    if n in ('numpy.asarray', 'numpy.array', 'numpy.flatnonzero', 'cheval.utils.to_numpy'):
        return mask_form(callargs(x)[0], mask)
    if x.op == 'sub' and callname(strip_st(x.args[0])) in ('numpy.where', 'numpy.nonzero', '.nonzero'):
        y = strip_st(x.args[0])
        return mask_form(callargs(y)[0] if y.op == 'call' else y.args[1], mask)
    if not contains(x, mask):
        return False
    if x.op in ('inv', 'not', 'neg'):
        return False
    if x.op == 'attr' and x.args[1] in ('index', 'name', 'dtype', 'shape', 'size'):
        return False
    return None


def weak_check(l, mask):
    """A condition that depends on nothing of a mask but its size, kind or type."""
    if l is mask:
        return False
    n = callname(l) or ''
    if l.op in ('len', 'isinst', 'isinstance', 'type') or n in (
            'len', 'isinstance', 'type', 'numpy.shape', 'numpy.size', 'hasattr') or l.op == 'attr' and l.args[1] in (
            'shape', 'size', 'dtype', 'ndim', 'name'):
        return True
    return all(weak_check(a, mask) for a in l.args if isinstance(a, T) and contains(a, mask))


def masked_rows(v, src_test, mask):
    """True: the rows of the mask of a source; False: something else; None: not known."""
    v = strip_st(v)
    v = strip_alloc(v) if v.op == 'alloc' else v
    n = callname(v) or ''
    if n in ('.copy', '.astype', '.to_numpy'):
        return masked_rows(v.args[1], src_test, mask)
    if n in ('pandas.Index', 'numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'pandas.DataFrame') and callargs(v):
        return masked_rows(callargs(v)[0], src_test, mask)
    if v.op == 'phi':
        vs = {masked_rows(a, src_test, mask) for a in v.args[1:]}
        return vs.pop() if len(vs) == 1 else (False if False in vs else None)
    if v.op == 'sub':
        k = v.args[1]
        base = strip_st(v.args[0])
        if base.op == 'attr' and base.args[1] in ('loc', 'iloc'):
            base = strip_st(base.args[0])
        if k.op == 'tup':
            if len(k.args) == 2 and all_slice_(k.args[1]):
                k = k.args[0]
            else:
                return False if mask_form(k.args[-1], mask) else None
        if not src_test(base):
            return None
        return mask_form(k, mask)
    if n in ('.compress', '.take') or n in ('numpy.compress', 'numpy.take'):
        return None
    if src_test(v):
        return False
    return None


def all_slice_(k):
    from .rules_model import all_slice
    return all_slice(k) or is_const(k, Ellipsis)


def copied(c, r, name, flags, want, du, sf, uf, xf, tree, shared, assigned, mask):
    me = SELF(r)
    where = r.fi
    for _, leaf in flat_phi(r.value):
        new = strip_st(leaf)
        if not (new.op == 'alloc' and strip_alloc(new).op == 'new' and strip_alloc(new).args[0] == MODEL):
            c.skip('copy-complete', where, f'{name} returns {show(new, 4)}')
            return
    tag = f'{name}({flags})' if flags else name
    for F, v0 in sorted(init_fields(c, MODEL)[1].items()):
        v = final(r, new, F)
        if F == sf or v is None or F == 'debug_results':
            continue
        src = t('attr', me, F)
        pub = t('attr', me, F.lstrip('_'))
        facts = ((cmp('Is', src, NONE), False),)
        for fs, x in flat_phi(v, facts):
            if infeasible(fs):
                continue
            fs_own = [l for l, p in lits(fs) if any(y is src for y in walk(l, False))]
            x = strip_st(x)
            has = any(y is src or y is pub for y in walk(x, False))
            expected = want.get(F, True)
            if F in (du, uf, xf) or F in tree or F in ('_precision', 'debug_id'):
                if not expected:
                    c.ob('copy-flags', where, not has, f'{tag}: {F} is not taken over', f'{tag} takes over {F}')
                    continue
                if F == xf and not has and x.op == 'alloc' and any(
                        contains(a, src) for e in r.events if e.kind in ('call', 'mutate', 'setsub', 'enter')
                        for a in list(e.args or ()) if isinstance(a, T)):
                    c.skip('copy-complete', where, f'{tag}: {F} is rebuilt')
                    continue
                c.ob('copy-complete', where, has, f'{tag}: {F} is taken over', f'{tag} leaves {F} as {show(x, 4)}')
                if not has:
                    continue
                if mask is not None and F in (du, uf):
                    ok = masked_rows(x, lambda b: b is src or b is pub, mask)
                    if ok is None:
                        c.skip('rows-of-mask', where, f'{F} = {show(x, 5)}')
                    else:
                        c.ob('rows-of-mask', where, ok, f'{name}: {F} has the rows of the mask', f'{F} is {show(x, 5)}')
            if F in shared and has:
                bs = bases(x, r.interp)
                alias = [b for b, path in bs if b is me]
                y = strip_alloc(x) if x.op == 'alloc' else x
                n = callname(y)
                if n == '.copy' and F == uf:
                    d = tkw(y, 'deep') or (callargs(y)[0] if callargs(y) else TRUE)
                    c.ob('copy-separate', where, not is_const(d, False), f'{tag}: {F} is not shared', f'{tag} shares {F}')
                elif x.op in ('call', 'mcall') and n in ('.copy', f'{GROUP}.copy') or n in SHALLOW:
                    c.ob('copy-separate', where, True, f'{tag}: {F} is not shared')
                else:
                    c.ob('copy-separate', where, not alias, f'{tag}: {F} is not shared', f'{tag} shares {F}: a change of the copy '
                         'changes the original')
    # symbols
    sc = strip_st(final(r, new, sf))
    puts = [e for e in r.events if e.kind == 'setsub' and sc in [strip_st(l) for _, l in flat_phi(e.obj)]]
    b = built(sc)
    items = [(e, e.key, e.value, [g for g in own_conditions(e, e) or ()]) for e in puts]
    if b is not None and isinstance(b[1], T) and b[1].op == 'tup':
        items.append((where, b[1].args[0], b[1].args[1], list(b[2] or ())))
    for e in r.events:
        if e.kind == 'mutate' and e.op == 'update' and e.args and sc in [strip_st(l) for _, l in flat_phi(e.obj)]:
            bb = built(e.args[0])
            if bb is not None and isinstance(bb[1], T) and bb[1].op == 'tup':
                items.append((e, bb[1].args[0], bb[1].args[1], list(bb[2] or ())))
    src = t('attr', me, sf)
    if sc is src or contains(sc, src) and b is None and not items:
        c.ob('copy-symbols', where, False, f'{tag}: symbols are copied', f'{tag} shares the symbols')
        return
    if not want[sf]:
        c.ob('copy-flags', where, not items, f'{tag}: symbols are not taken over', f'{tag} takes over symbols')
        return
    c.ob('copy-symbols', where, bool(items), f'{tag}: symbols are taken over', f'{tag} leaves the symbols out')
    for e, k, v, own in items:
        if isinstance(e, Event) and e.loops:
            from .rules_run import own_guards
            gs = [(g_, p) for g_, p, kk in own_guards(e, e.loops[-1]) if kk in ('if', 'sc', 'survive', 'except')]
            c.ob('copy-symbols', e, not gs and not LOOPS[e.loops[-1]].has_break, f'{tag}: every symbol is taken over',
                 f'a symbol is taken over only if {show(gs[0][0], 4)}' if gs else None)
        v = strip_st(v)
        if not (callname(v) or '').endswith('.copy'):
            c.ob('copy-symbols', e, not (v.op == 'sub' and contains(v, src)), f'{tag}: symbols are copied',
                 f'{tag} shares the symbols')
            c.skip('copy-symbols', e, show(v, 4))
            continue
        obj = v.args[1] if v.op == 'mcall' else None
        if obj is None or not contains(obj, src):
            c.skip('copy-symbols', e, show(v, 4))
            continue
        okk = obj is sub(src, k) or obj.op == 'sub' and strip_st(obj.args[0]) is src and obj.args[1] is k
        c.ob('copy-symbols', e, okk, f'{tag}: a symbol keeps its name', f'{show(k, 4)} is given a copy of {show(obj, 4)}')
        a = dict(zip(('new_parent', 'copy_data', 'row_mask'), callargs(v)))
        a.update({n: x for n, x in v.args[3]})
        c.ob('copy-symbols', e, a.get('new_parent') is not None and strip_st(a['new_parent']) is new,
             f'{tag}: copied symbols belong to the copy')
        cd = a.get('copy_data')
        if cd is not None:
            tv = truth(spec(cd, lits(e.facts())) if isinstance(e, Event) else cd)
            if tv is None:
                c.skip('copy-flags', e, show(cd, 4))
            else:
                c.ob('copy-flags', e, tv is bool(assigned), f'{tag}: data is {"" if assigned else "not "}taken over',
                     f'{tag}: data is {"not " if assigned else ""}taken over')
        rm = a.get('row_mask')
        if mask is None:
            c.ob('rows-of-mask', e, rm is None or is_const(rm, None), f'{tag}: all rows are taken over')
        else:
            ok = mask_form(rm, mask) if rm is not None else False
            if ok is None:
                c.skip('rows-of-mask', e, show(rm, 4))
            else:
                c.ob('rows-of-mask', e, ok, f'{tag}: symbols have the rows of the mask', f'the mask of symbols is '
                     f'{show(rm, 4) if rm is not None else "missing"}')
    # nothing empties the copies afterwards
    seqs = [x[0].seq for x in items if isinstance(x[0], Event)]
    for e in r.events:
        if seqs and e.seq > max(seqs) and (e.kind == 'call' and callname(e.value) == '.empty' or e.kind == 'enter' and e.fi is not None
                                           and e.fi.name in ('empty',)):
            obj = e.obj if e.obj is not None else (e.args[0] if e.args else None)
            if obj is not None and any(b_ is sc or b_ is new for b_, _ in bases(obj, r.interp)):
                c.ob('copy-symbols', e, False, f'{tag}: the data copied is kept', f'{tag} empties the symbols it has copied')
        if seqs and e.seq > max(seqs) and e.kind in ('mutate',) and e.op == 'clear' and strip_st(e.obj) is sc:
            c.ob('copy-symbols', e, False, f'{tag}: the data copied is kept', f'{tag} clears the symbols it has copied')


def symbol_copy(c, cls):
    q = f'cheval.api.{cls}'
    g = c.p.fn(f'{q}.copy')
    ri, fields = init_fields(c, q)
    D = data_field(c, cls)[0]
    config = [F for F, v in fields.items() if F != D and not F.endswith('parent')]
    r = c.run(g)
    me = SELF(r)
    ps = {n: p for n, p in r.params.items()}
    for cd in (True, False):
        for masked in ((False, True) if cd else (False,)):
            for o in ((0, 1) if any('orientation' in F for F in config) else (None,)):
                bind = {'copy_data': TRUE if cd else FALSE}
                facts = [(cmp('Is', t('attr', me, D), NONE), False)]
                if 'row_mask' in ps:
                    if masked:
                        facts.append((cmp('Is', ps['row_mask'], NONE), False))
                    else:
                        bind['row_mask'] = NONE
                of = next((F for F in config if 'orientation' in F), None)
                if o is not None:
                    facts.append((cmp('Eq', t('attr', me, of), const(o)), True))
                # a constructor that replaces None does not do so for a symbol that was constructed
                facts += [(cmp('Is', t('attr', me, F), NONE), False) for F in config
                          if fields[F].op == 'phi' and not any(is_const(x, None) for _, x in flat_phi(fields[F]))]
                r = c.run(g, bind=bind, facts=tuple(facts))
                for fs, leaf in flat_phi(r.value, tuple(facts)):
                    if infeasible(fs):
                        continue
                    new = strip_st(leaf)
                    if not (new.op == 'alloc' and strip_alloc(new).op == 'new'):
                        c.ob('symbol-copied', g, new is not me, f'{cls}: a copy is another symbol', 'the symbol itself is returned')
                        c.skip('symbol-copied', g, f'{cls}.copy returns {show(new, 4)}')
                        continue
                    c.ob('symbol-copied', g, strip_alloc(new).args[0] == q, f'{cls}: a copy is of the same kind',
                         f'a copy is a {strip_alloc(new).args[0]}')
                    for F in config:
                        v = final(r, new, F)
                        for fs2, x in flat_phi(v, fs) if v is not None else ():
                            if infeasible(fs2):
                                continue
                            ok = any(y.op == 'attr' and y.args[1] == F and strip_st(y.args[0]) is me for y in walk(x, False)) or (
                                F == of and is_const(x, o))
                            c.ob('symbol-settings', g, ok, f'{cls}: a copy has the same {F}', f'{cls}: {F} of a copy is {show(x, 4)}')
                    pv = [final(r, new, F) for F in fields if F.endswith('parent')]
                    c.ob('symbol-copied', g, any(v is not None and strip_st(v) is ps.get('new_parent') for v in pv),
                         f'{cls}: a copy belongs to the new model', f'{cls}: a copy belongs to {show(pv[0], 3) if pv else "?"}')
                    v = final(r, new, D)
                    src = t('attr', me, D)
                    for fs2, x in flat_phi(v, fs):
                        if infeasible(fs2):
                            continue
                        has = contains(x, src)
                        if not cd:
                            c.ob('symbol-data', g, not has, f'{cls}: data is not copied unless asked for',
                                 f'{cls}: data is copied in any case')
                            continue
                        c.ob('symbol-data', g, has, f'{cls}: data is copied when asked for', f'{cls}: data of a copy is {show(x, 4)}')
                        if not has or cls == 'NumberSymbol':
                            continue
                        rows = masked and (cls == 'MatrixSymbol' or o == 0)
                        if rows:
                            ok = masked_rows(x, lambda b: b is src, ps['row_mask'])
                            if ok is None:
                                c.skip('symbol-rows', g, show(x, 5))
                            else:
                                c.ob('symbol-rows', g, ok, f'{cls}: data of a subset has the rows of the mask',
                                     f'{cls} (orientation {o}): data of a subset is {show(x, 5)}')
                        else:
                            y = strip_st(x)
                            y = strip_alloc(y) if y.op == 'alloc' else y
                            whole = not any(z.op == 'sub' and not all_slice_(z.args[1]) and contains(z.args[0], src)
                                            for z in walk(y, False))
                            c.ob('symbol-rows', g, whole, f'{cls}: all of the data is copied',
                                 f'{cls} (orientation {o}): data of a copy is {show(x, 5)}')


RULES = {'P04': p04, 'P15': p15, 'P16': p16, 'P17': p17}
