"""Symbols of expressions: consistent use, names and paths of lookups, dict literals."""
from __future__ import annotations

import re

from .lib import *
from .rules_parse import *  # noqa
from .rules_parse import contradicts, fields_from, init_view, NO_EXTRA, TR, X, N, Shape, reachable_
from .rules_scope import str_parts
from .rules_state import *  # noqa
from .rules_run import *  # noqa
from .shapes import ShapeInterp

CS = 'cheval.parsing.expr_items.ChainedSymbol'
CT = 'cheval.parsing.expr_items.ChainTuple'
TN = t('param', 'the_symbol')
STEPS = ('a1', 'a2', 'a3', 'a4')


def path_node(*steps):
    """Syntax of  symbol.step.step..."""
    if not steps:
        return N('Name', id=TN, ctx=N('Load'))
    return N('Attribute', attr=steps[-1], value=path_node(*steps[:-1]), ctx=N('Load'))


def use(n, func):
    """(template, description) of a path of n attributes, followed by an aggregation if asked for."""
    steps = STEPS[:n]
    if func:
        return N('Call', func=path_node(*steps, func), args=[X], keywords=[]), f'symbol.{".".join(steps + (func,))}(...)'
    return path_node(*steps), f'symbol.{".".join(steps)}'


USES = [(n, None) for n in (1, 2, 3, 4)] + [(n, 'sum') for n in (1, 2, 3)]


def stores(S, base):
    """Every lookup that a visit records: (event, facts, key, container of lookups, the lookup)."""
    out = []
    for e in S.events:
        if e.kind != 'setsub' or not reachable_(e, base):
            continue
        fs = tuple(base) + tuple(e.facts())
        for fv, v in flat_phi(spec(e.value, fs), fs):
            v0 = strip_alloc(v) if v.op == 'alloc' else strip_st(v)
            if strip_st(v).op != 'alloc' or strip_alloc(strip_st(v)).op != 'new' or strip_alloc(strip_st(v)).args[0] != CT or infeasible(fv):
                continue
            for fk, k in flat_phi(spec(e.key, fv), fv):
                for fo, o in flat_phi(spec(e.obj, fk), fk):
                    if not infeasible(fo):
                        out.append((e, fo, k, strip_st(o), strip_st(v)))
    return out


def lookup_fields(S, tup, fs):
    """The fields of a recorded lookup."""
    out = {}
    for f in ('chain', 'func', 'args', 'withfunc'):
        v = S.r.state.heap.get((tup, f))
        if v is None:
            return None
        v = [y for fy, y in flat_phi(spec(v, fs), fs) if not infeasible(fy)]
        v = [y for y in v if not (strip_st(y).op == 'attr' and strip_st(y).args[0] is tup)] or v
        if len(v) != 1:
            return None
        out[f] = v[0]
    return out


def content(S, v, fs):
    o = strip_st(v)
    x = S.r.state.heap.get((o, '#'))
    if x is not None:
        xs = [y for fy, y in flat_phi(spec(x, fs), fs) if not infeasible(fy)]
        if len(xs) == 1 and xs[0].op == 'lit':
            return list(xs[0].args[1:])
        return None
    return S.elems(v) if o.op != 'alloc' else ShapeInterp.elems.__get__(_Bare(S))(v)


class _Bare:
    def __init__(self, S):
        self.s = S.r.state
        self.S = S

    def elems(self, v):
        return ShapeInterp.elems(self, v)


def parsed_lookup(c, n, func):
    """The lookup that the parser records for a use of a symbol: {chain: [terms], func, args, withfunc} or None."""
    tmpl, _ = use(n, func)
    S = Shape(c, tmpl, facts=NO_EXTRA(None))
    found = []
    for e, fs, k, o, tup in stores(S, NO_EXTRA(None)):
        L = lookup_fields(S, tup, fs)
        if L is None:
            return None
        L['chain'] = content(S, L['chain'], fs)
        if L['chain'] is None:
            return None
        if L not in found:
            found.append(L)
    return found[0] if len(found) == 1 else None


READERS = {
    'cheval.api.TableSymbol._get': 'the data of a table',
    'cheval.ldf.api.LinkedDataFrame.evaluate': 'a linked frame',
}
OPAQUE_READ = ('parse', '__getitem__', '__getattr__', '_has_link', 'convert_series', 'items', 'to_numpy')


def read_paths(c, qual, L):
    """Evaluates a reader on a lookup: [(steps from the start, (function, arguments) or None)] of everything it looks up."""
    bind = {'chain': t('lit', 'list', *L['chain']), 'withfunc': L['withfunc'], 'func': L['func'], 'args': L['args']}
    fi = c.p.fn(qual)
    heap, given = {}, {}
    if qual.endswith('_get'):
        info = t('param', fi.node.args.args[1].arg)
        heap = {(info, f): v for f, v in bind.items()}
    it = ShapeInterp(c.p, noinline=OPAQUE_READ, attrs=bind, heap=heap)
    r = it.run(fi)
    c.functions |= it.functions_seen
    c.n_events += len(r.events)
    outs = [y for _, y in flat_phi(r.value, ())] if qual.endswith('_get') else \
        [e.value for e in r.events if e.kind == 'setsub' and any(y.op == 'const' and cval(y) in STEPS or y.op == 'mcall' and y.args[0] == cval(L['func']) for y in walk(e.value, True))]
    res = []
    for v in outs:
        best = None
        for y in walk(v, True):
            z, f = strip_st(y), None
            if z.op == 'mcall' and z.args[1].op in ('sub', 'st') and z.args[0] not in ('copy', 'astype', 'to_numpy', 'reshape'):
                f, z = (z.args[0], z.args[2], z.args[3]), strip_st(z.args[1])
            elif z.op == 'call' and callname(z.args[0]) in ('getattr', 'builtins.getattr') and len(callargs(z.args[0])) == 2:
                g = callargs(z.args[0])
                f, z = (cval(g[1]) if is_const(g[1]) else g[1], z.args[1], z.args[2]), strip_st(g[0])
            steps = []
            while z.op == 'sub' and is_const(z.args[1]) and isinstance(cval(z.args[1]), str):
                steps.append(cval(z.args[1]))
                z = strip_st(z.args[0])
            if (steps or f is not None and f[0] == cval(L['func'])) and (best is None or (len(steps), f is not None) > (len(best[0]), best[1] is not None)):
                best = (tuple(steps[::-1]), f)
        if best is not None and best not in res:
            res.append(best)
    return res, r


def pairing(c, rule, quals=tuple(READERS)):
    """What is looked up for an expression is what the expression says: parser and reader agree on the path."""
    for n, func in USES + [(0, 'sum')]:
        tmpl, what = use(n, func)
        L = parsed_lookup(c, n, func)
        if L is None:
            c.skip(rule, c.p.fn(f'{TR}.visit'), f'the lookup recorded for {what}')
            continue
        for q in quals:
            if n == 0 and not q.endswith('evaluate'):
                continue
            fi = c.p.fn(q)
            try:
                got, r = read_paths(c, q, L)
            except RecursionError:
                got = []
            if not got:
                c.skip(rule, fi, f'what is looked up for {what}')
                continue
            for steps, f in got:
                c.ob(rule, fi, steps == STEPS[:n], f'{what} looks up {" then ".join(STEPS[:n])} in {READERS[q]}',
                     f'{what} looks up {" then ".join(steps) or "nothing"} in {READERS[q]}')
                if func is None:
                    c.ob(rule, fi, f is None, f'{what} is not aggregated', f'{what} calls {f[0] if f else ""}')
                else:
                    ok = f is not None and f[0] == func and len(f[1]) == 1 and not f[2] and strip_st(f[1][0]) is strip_st(L['args'])
                    c.ob(rule, fi, ok, f'{what} is the {func} of its argument',
                         f'{what} is {"not aggregated" if f is None else f"{f[0]}({chr(44).join(show(a, 4) for a in f[1])})"}')


def p34(c):
    fi = c.p.fn(f'{TR}.visit')
    pairing(c, 'path')
    prefixes = set()
    for n, func in USES:
        tmpl, what = use(n, func)
        base = tuple(NO_EXTRA(None))
        S = Shape(c, tmpl, facts=base)
        st = stores(S, base)
        if not st and not S.results(base) and S.raises():
            c.ob('accepted', S.raises()[0], False, '', f'{what} is refused')
            continue
        if not st:
            c.skip('recorded', fi, f'where the lookup of {what} is recorded')
            continue
        for e, fs, k, o, tup in st:
            L = lookup_fields(S, tup, fs)
            if L is not None:
                a = strip_st(L['args'])
                if func:
                    src = t('param', 'args.0')
                    good = a.op == 'call' and callname(a) in ('astor.to_source', 'ast.unparse', 'astor.code_gen.to_source') and \
                        strip_st(callargs(a)[0]) is src
                    stripped_ = stripped(a)
                    if not good and stripped_ is not a:
                        good = callname(stripped_) in ('astor.to_source', 'ast.unparse') and strip_st(callargs(stripped_)[0]) is src
                    seen = any(y.op == 'visited' for y in walk(a, True)) or a.op == 'const'
                    if good or seen:
                        c.ob('argument', e, good, f'{what}: the argument is kept as it was written', f'{what}: the argument is {show(a, 4)}')
                    else:
                        c.skip('argument', e, show(a, 4))
                else:
                    c.ob('argument', e, is_const(a, None), f'{what}: there is no argument', f'{what}: the argument is {show(a, 4)}')
            # the name that stands for the lookup
            for x in leaves(S.value, fs):
                fx = S.fields(x)
                if fx is None or fx[0] != 'Name':
                    c.skip('name', e, f'{what} becomes {show(x, 3)}')
                    continue
                i = spec(fx[1].get('id', NONE), fs)
                ks = [y for fy, y in flat_phi(k, fs) if not infeasible(fy)]
                iss = [y for fy, y in flat_phi(i, fs) if not infeasible(fy)]
                if len(ks) != 1 or len(iss) != 1:
                    c.skip('name', e, f'{what}: name of the lookup')
                    continue
                ok = strip_st(iss[0]) is strip_st(ks[0]) or str_parts(iss[0]) is not None and str_parts(iss[0]) == str_parts(ks[0])
                if not ok and not (str_parts(iss[0]) and str_parts(ks[0])):
                    c.skip('name', e, f'{what}: {show(i, 4)}')
                else:
                    c.ob('name', e, ok, f'{what}: the name in the expression is the name of its lookup',
                         f'{what}: the lookup is stored as {show(ks[0], 5)}, the expression refers to {show(iss[0], 5)}')
            unique(c, S, e, fs, k, o, what, prefixes)
            kept(c, S, e, fs, o, what)
    container_rules(c)
    dict_names(c, prefixes)


def name_fields(c):
    """Fields of a container that hold the name it was made with."""
    ri, fields = init_fields(c, CS)
    p = [x for x in ri.params.values()][1:]
    return {f for f, v in fields.items() if strip_st(v) in p}


def unique(c, S, e, fs, k, o, what, prefixes):
    """The name of a lookup is built injectively from the name of the symbol and the number of earlier lookups."""
    rule = 'unique'
    parts = str_parts(k)
    if (parts is None or strip_st(k).op in ('eta', 'phi')) and reused(c, e, k, fs, what):
        for y in names_made(k, fs):
            if str_parts(y) is not None:
                unique(c, S, e, fs, y, o, what, prefixes)
        return
    if parts is None:
        c.skip(rule, e, show(k, 5))
        return
    nf = name_fields(c)
    kinds = []
    for p in parts:
        p = strip_st(p)
        inner = p
        while callname(inner) in ('builtins.str', 'builtins.int', 'builtins.repr') and len(callargs(inner)) == 1:
            inner = strip_st(callargs(inner)[0])
        if is_const(p) and isinstance(cval(p), str):
            if kinds and kinds[-1][0] == 'c':
                kinds[-1] = ('c', kinds[-1][1] + cval(p))
            else:
                kinds.append(('c', cval(p)))
        elif inner is TN or inner.op == 'attr' and inner.args[1] in nf:
            kinds.append(('n', None))
        elif inner.op == 'len' and same_box(inner.args[0], o):
            kinds.append(('l', None))
        elif callname(inner) == 'next' or callname(inner) == 'builtins.next':
            kinds.append(('l', None))
        else:
            kinds.append(('?', p))
    ks = [x for x, _ in kinds]
    if '?' in ks:
        bad = [v for x, v in kinds if x == '?']
        if all(v.op == 'len' for v in bad) and 'l' not in ks:
            c.ob(rule, e, False, '', f'{what}: lookups are numbered by {show(bad[0], 5)}, which does not change with every lookup')
        else:
            c.skip(rule, e, show(k, 5))
        return
    c.ob(rule, e, 'n' in ks, f'{what}: lookups of different symbols have different names', f'{what}: the name {show(k, 5)} does not depend on the symbol')
    c.ob(rule, e, 'l' in ks, f'{what}: every lookup of a symbol has a name of its own', f'{what}: all lookups of a symbol have the name {show(k, 5)}')
    if 'n' in ks and 'l' in ks and ks.count('n') == 1 and ks.count('l') == 1:
        i, j = ks.index('n'), ks.index('l')
        if i < j:
            sep = kinds[j - 1][1] if kinds[j - 1][0] == 'c' else ''
            ok = bool(sep) and not sep[-1].isdigit()
            end = kinds[j + 1:]
            ok = ok and (not end or end[0][0] == 'c' and not end[0][1][0].isdigit() and len(end) == 1)
        else:
            sep = kinds[j + 1][1] if kinds[j + 1][0] == 'c' else ''
            ok = bool(sep) and not sep[0].isdigit()
        c.ob(rule, e, ok, f'{what}: the number of a lookup cannot be taken for a part of the name of the symbol',
             f'{what}: in {show(k, 5)}, lookup 0 of symbol "t1" and lookup 10 of symbol "t" have the same name')
    if kinds and kinds[0][0] == 'c':
        prefixes.add(kinds[0][1])
        c.ob(rule, e, kinds[0][1][:1].isalpha() or kinds[0][1][:1] == '_', f'{what}: the name of the lookup can stand in an expression',
             f'{what}: the name {show(k, 5)} cannot stand in an expression')
    else:
        prefixes.add('')


def ways(k, fs):
    """[(facts, value)] that a name can come from, through merges and loops."""
    out, seen = [], set()

    def go(y, f):
        for f1, v in flat_phi(y, f):
            v = strip_st(v)
            if infeasible(f1) or v.op == 'mu':
                continue
            if v.op == 'eta' and v.args[0] in LOOPS:
                if v in seen:
                    continue
                seen.add(v)
                for m in (LOOPS[v.args[0]].init, LOOPS[v.args[0]].step):
                    if isinstance(m.get(v.args[1]), T):
                        go(m[v.args[1]], f1)
            else:
                out.append((f1, v))
    go(k, tuple(fs))
    return out


def of_lookups(y):
    """Is this the name of a lookup that is there already (an element of an iteration over lookups)?"""
    y = strip_st(y)
    return y.op == 'sub' and any(z.op in ('ix', 'i', 'iv') for z in walk(y.args[1]))


def names_made(k, fs):
    return [v for _, v in ways(k, fs) if not of_lookups(v)]


def reused(c, e, k, fs, what):
    """A lookup may get the name of an earlier one only if it is the same lookup; False if nothing is known of the names."""
    ws = ways(k, fs)
    old = [(f, v) for f, v in ws if of_lookups(v)]
    if not old or len(old) == len(ws):
        return False
    for f, v in old:
        atoms = [(l, p) for l, p in lits(list(f)) if any(strip_st(z) is strip_st(v) or z.op == 'sub' and z.args[1] is v for z in walk(l, True))]
        whole = set()
        odd = False
        for l, p in atoms:
            if l.op != 'cmp' or l.args[0] not in ('==', 'is') or not p:
                odd = odd or p
                continue
            for side in l.args[1:]:
                side = strip_st(side)
                while callname(side) in ('builtins.list', 'builtins.tuple') and len(callargs(side)) == 1:
                    side = strip_st(callargs(side)[0])
                if side.op == 'sub' and strip_st(side.args[1]) is strip_st(v) or side is v:
                    whole |= {'chain', 'func', 'args'}
                elif side.op == 'attr' and side.args[1] in ('chain', 'func', 'args', 'withfunc'):
                    whole.add(side.args[1])
                elif side.op == 'sub' and is_const(side.args[1]) and strip_st(side.args[0]).op == 'sub' and cval(side.args[1]) in (0, 1, 2):
                    whole.add(('chain', 'func', 'args')[cval(side.args[1])])
        lost = [n for n in ('chain', 'func') if n not in whole]
        if odd:
            c.skip('unique', e, f'{what}: the name of another lookup')
        else:
            text = {'chain': 'other columns', 'func': 'another function'}
            c.ob('unique', e, not lost, f'{what}: only the same lookup gets the name of an earlier one',
                 f'{what}: a lookup of {" or ".join(text[n] for n in lost)} gets the name of an earlier one')
    return True


def same_box(x, o):
    x, o = strip_st(x), strip_st(o)
    if x is o:
        return True
    for a, b in ((x, o), (o, x)):
        if a.op == 'attr' and b.op == 'attr' and a.args[1] == b.args[1]:
            return True
    ys = [strip_st(y) for _, y in flat_phi(x, ())]
    return len(ys) > 1 and any(y is o for y in ys) or x.op == o.op == 'alloc' and strip_alloc(x) == strip_alloc(o)


def kept(c, S, e, fs, o, what):
    """The lookup is recorded where the chains of the parsed expression are taken from."""
    rule = 'kept'
    fields = chain_fields(c)
    if not fields:
        return
    rooted_ = [y for y in walk(o, True) if y.op == 'sub' and strip_st(y.args[0]).op == 'attr' and strip_st(y.args[0]).args[0] is S.me and
               strip_st(y.args[0]).args[1] in fields]
    got = [y for y in walk(o, True) if y.op == 'mcall' and y.args[0] in ('get', 'setdefault') and strip_st(y.args[1]).op == 'attr' and
           strip_st(y.args[1]).args[1] in fields]
    if rooted_ or got:
        ks = [strip_st(y.args[1]) for y in rooted_] + [strip_st(y.args[2][0]) for y in got if y.args[2]]
        if ks and all(k.op == 'const' or k is TN for k in ks):
            c.ob(rule, e, all(k is TN for k in ks), f'{what}: the lookup is recorded under its symbol', f'{what}: recorded under {show(ks[0])}')
        return
    put = [x for x in S.events if (x.kind == 'setsub' or x.kind == 'mutate' and x.op in ('setdefault', 'update', '__setitem__')) and x.obj is not None and
           strip_st(x.obj).op == 'attr' and strip_st(x.obj).args[1] in fields]
    put = [x for x in put if not infeasible(tuple(fs) + tuple(x.facts()))]
    good = [x for x in put if x.kind != 'setsub' or strip_st(x.key) is TN]
    if put and not good:
        c.ob(rule, put[0], False, '', f'{what}: a new container is recorded under {show(put[0].key, 4)}')
    else:
        c.ob(rule, e, bool(good), f'{what}: a new container is recorded under the symbol', f'{what}: the container of the lookup is not recorded')


def chain_fields(c):
    """Fields of the parser that become the chains of an expression."""
    fi = c.p.fn('cheval.parsing.expressions.Expression.parse')
    r = c.run(fi, noinline=('visit',))
    out = set()
    for v in leaves(r.value):
        for (o, k), x in r.state.heap.items():
            if o is v and k == 'chains':
                for y in leaves(x):
                    if y.op == 'attr':
                        out.add(y.args[1])
                    for (o2, k2), z in r.state.heap.items():
                        if strip_alloc(o2).op == 'new' and strip_alloc(o2).args[0] == TR and strip_st(z) is strip_st(y):
                            out.add(k2)
    return out


def container_rules(c):
    """Lookups are never dropped and all of them are given out."""
    cls = c.p.classes.get(CS)
    if cls is None:
        c.skip('all-lookups', c.p.fn(f'{TR}.visit'), 'ChainedSymbol')
        return
    ri, fields = init_fields(c, CS)
    boxes = {f for f, v in fields.items() if v.op in ('alloc', 'dictlit') or callname(v) in ('builtins.dict', 'collections.OrderedDict')}
    for f in class_functions(c, CS, private=True):
        if f.name == '__init__':
            continue
        r = c.run(f)
        for e in r.events:
            on = e.obj is not None and strip_st(e.obj).op == 'attr' and strip_st(e.obj).args[1] in boxes
            if on and (e.kind == 'delsub' or e.kind == 'mutate' and e.op in ('pop', 'popitem', 'clear', 'remove', 'discard')):
                c.ob('all-lookups', e, False, '', f'{f.name} drops lookups, after which their names are used again')
            if on and e.kind in ('setsub', 'mutate'):
                c.ob('all-lookups', e, True, f'{f.name} only adds lookups')
            if e.kind == 'setattr' and e.obj is SELF(r) and e.key is not None and key_name(e) in boxes:
                c.ob('all-lookups', e, False, '', f'{f.name} replaces the lookups')
    it = c.p.fn(f'{CS}.items')
    r = c.run(it)
    me = SELF(r)
    ys = [e for e in r.events if e.kind == 'yield']
    vals = [(e, e.value) for e in ys] or [(it, v) for v in leaves(r.value)]
    if not vals:
        c.ob('all-lookups', it, False, '', 'items() gives nothing')
    for w, v in vals:
        src = [y for y in walk(v, True) if y.op == 'attr' and y.args[0] is me and y.args[1] in boxes]
        cut = [y for y in walk(v, True) if y.op == 'slice' or callname(y) in ('itertools.islice', 'builtins.next')]
        own = [g for g, p, k in w.guards if k in ('if', 'survive', 'sc')] if not isinstance(w, type(it)) else []
        if not src:
            c.skip('all-lookups', w, show(v, 4))
        else:
            c.ob('all-lookups', w, not cut and not own, 'items() gives every lookup', f'items() leaves out lookups ({show((own or cut or [v])[0], 4)})')


def dict_names(c, prefixes):
    fi = c.p.fn(f'{TR}.visit')
    S = Shape(c, N('Dict', keys=[N('Name', id='A', ctx=N('Load'))], values=[N('Constant:int', value=3)]))
    puts = [e for e in S.events if e.kind == 'setsub' and strip_st(e.obj).op == 'attr' and strip_st(e.obj).args[0] is S.me]
    if not puts:
        c.skip('dict-names', fi, 'where dict literals are recorded')
    for e in puts:
        parts = str_parts(e.key)
        if parts is None:
            c.skip('dict-names', e, show(e.key, 4))
            continue
        ls = [p for p in parts if not is_const(p)]
        cnt = [p for p in ls if strip_st(p).op == 'len' and same_box(strip_st(p).args[0], e.obj)]
        if ls and not cnt:
            c.skip('dict-names', e, show(e.key, 4))
        else:
            c.ob('dict-names', e, bool(cnt), 'every dict literal has a name of its own', f'all dict literals have the name {show(e.key)}')
        for x in leaves(S.value, e.facts()):
            fx = S.fields(x)
            if fx is None:
                continue
            i = strip_st(spec(fx[1].get('id', NONE), e.facts()))
            k = strip_st(spec(e.key, e.facts()))
            ok = i is k or str_parts(i) == parts
            c.ob('dict-names', e, ok, 'a dict literal is referred to by its name', f'the literal is stored as {show(k, 4)}, the expression has {show(i, 4)}')
        pre = cval(parts[0]) if is_const(parts[0]) else ''
        for p in prefixes:
            clash = p.startswith(pre) or pre.startswith(p)
            c.ob('dict-names', e, not clash, 'names of dict literals and of lookups differ', f'a dict literal may have the name of a lookup ("{pre}", "{p}")')


# ------------------------------------------------------------------------------------------------ consistent use
def member_atoms(S, fields):
    """Conditions that the symbol is in one of the containers held by these fields of the parser."""
    out = set()
    for e in S.events:
        for g, p, k in e.guards:
            for y in walk(g, True):
                if y.op == 'cmp' and y.args[0] == 'in' and strip_st(y.args[1]) is TN:
                    b = strip_st(y.args[2])
                    if b.op == 'attr' and b.args[0] is S.me and b.args[1] in fields:
                        out.add(y)
    for f in fields:
        out.add(cmp('In', TN, t('attr', S.me, f)))
    return {y for y in out if y.op == 'cmp'}


NOT_NAN = tuple((cmp('Eq', t('mcall', 'lower', TN, (), ()), const(x)), False) for x in ('nan', 'none', 'None', 'NaN', 'null'))


def p33(c):
    fi = c.p.fn(f'{TR}.visit')
    simple, chained = fields_from(c, 'prior_simple'), fields_from(c, 'prior_chained')
    name = N('Name', id=TN, ctx=N('Load'))
    uses = [(path_node('a1'), 'symbol.a1'), (use(2, None)[0], 'symbol.a1.a2'), use(1, 'sum'), use(2, 'sum'), use(0, 'sum')]
    base = tuple(NO_EXTRA(None))
    kinds = (('a plain symbol', [(name, 'symbol')], 'prior_simple', 'prior_chained'), ('a table', uses, 'prior_chained', 'prior_simple'))
    added = {}
    for what, shapes, own, other in kinds:
        for tmpl, text in shapes:
            S = Shape(c, tmpl, facts=base)
            new = set()
            for e, field, what_ in S.records():
                if any(contains(a, TN) or strip_st(a) is TN for a in what_):
                    sure = not [g for g, p, k in e.guards if k in ('if', 'sc') and not own_test(S, g)
                                and not nan_test(g)]
                    if sure:
                        new.add(field)
            if not S.results(base):
                c.ob('accepted', S.raises()[0] if S.raises() else fi, False, '', f'{text} is refused')
            added.setdefault(own, []).append((text, new))
    for what, shapes, own, other in kinds:
        hold = fields_from(c, other)
        for tmpl, text in shapes:
            if not hold:
                c.ob('refused', c.p.fn(f'{TR}.__init__'), False, '', f'the symbols that were used as {"tables" if "chained" in other else "plain symbols"} before are not kept')
                continue
            S = Shape(c, tmpl, facts=base)
            verdict(c, fi, S, hold, base, f'{text}, where the symbol was used as {"a table" if "chained" in other else "a plain symbol"} in another expression')
            for text2, new in added[other]:
                if not new:
                    c.ob('recorded', fi, False, '', f'{text2} does not record how the symbol is used')
                    continue
                verdict(c, fi, S, new, base, f'{text}, where {text2} was used before in the same expression')
    append_rule(c, simple, chained)
    cleanup_rule(c)


def own_test(S, g):
    """A test of how the symbol was used before."""
    ys = [y for y in walk(g, True) if y.op == 'cmp']
    return bool(ys) and all(y.args[0] in ('in', 'is') and (strip_st(y.args[1]) is TN or is_const(y.args[2], None)) and
                            any(z.op == 'attr' and z.args[0] is S.me for z in walk(y, True)) for y in ys)


def nan_test(g):
    return any(is_const(y) and isinstance(cval(y), str) and cval(y).lower() in ('nan', 'none', 'null') for y in walk(g, True)) or \
        any(y.op == 'glob' and 'NAN' in y.args[0] for y in walk(g, True))


def verdict(c, fi, S, fields, base, what):
    """The use is refused if the symbol is in all of these containers."""
    atoms = tuple((y, True) for y in member_atoms(S, fields))
    fs = base + atoms + NOT_NAN
    rets = [e for e in S.events if e.kind == 'return' and len(e.frames) == 1]
    live = [e for e in rets if reachable_(e, fs) and not contradicts(e.facts(), fs)] if rets else []
    if not S.raises():
        c.ob('refused', fi, False, '', f'{what} is accepted')
        return
    if not rets:
        c.ob('refused', fi, not S.results(fs), f'{what} is refused', f'{what} is accepted')
        return
    tests = [g for e in rets for g, p, k in e.guards if k in ('survive', 'if') and contains(g, TN)]
    odd = live and any(y.op in ('call', 'mcall') and y.args[0] not in ('lower', 'upper', 'strip', 'casefold') for g in tests for y in walk(g, True)
                       if y.op in ('call', 'mcall') and contains(y, TN))
    if odd:
        c.skip('refused', fi, what)
    else:
        c.ob('refused', live[0] if live else fi, not live, f'{what} is refused', f'{what} is accepted')


EG, SG = 'cheval.api.ExpressionGroup', 'cheval.api.ExpressionSubGroup'


def append_rule(c, simple, chained):
    """A group parses with copies of all symbols in use, and changes nothing before it was parsed."""
    fi = c.p.fn(f'{EG}.append')
    r = c.run(fi, noinline=('parse',))
    me = SELF(r)
    parsed = [e for e in r.events if e.kind == 'call' and (callname(e.value) or '').split('.')[-1] == 'parse']
    if not parsed:
        c.skip('atomic', fi, 'expressions are parsed in another way')
        return
    first = min(r.events.index(e) for e in parsed)
    early = [e for e in r.events[:first] if e.kind in ('setattr', 'setsub', 'mutate', 'delsub', 'aug', 'delattr') and e.obj is not None and
             any(y is me for y in walk(e.obj, True)) and strip_st(e.obj).op != 'alloc']
    c.ob('atomic', early[0] if early else fi, not early, 'a refused expression leaves the group as it was',
         'the group is changed before the expression is accepted')
    # roles of fields: what is recorded of an expression where
    roles = {}
    for e in r.events:
        if e.kind not in ('mutate', 'setattr') or e.obj is None:
            continue
        vals = list(e.args or ()) + ([e.value] if e.value is not None else [])
        kinds = {y.args[1] for v in vals for y in walk(v, True) if y.op == 'attr' and y.args[1] in ('symbols', 'chains')}
        o = strip_st(e.obj)
        if e.kind == 'setattr':
            f = key_name(e)
        elif o.op == 'attr':
            o, f = o.args[0], o.args[1]
        else:
            continue
        if len(kinds) == 1 and isinstance(f, str):
            roles[('own' if o is me else 'sub', f)] = kinds.pop()
    pf = c.p.fn('cheval.parsing.expressions.Expression.parse')
    pn = [a.arg for a in pf.node.args.args]
    recorded_rule(c, fi, roles)
    views = [(r, parsed, '')]
    gp = next((a.arg for a in fi.node.args.args if a.arg == 'group'), None)
    if gp:
        views = []
        for v, text in ((NONE, 'ungrouped'), (t('nonnull', 'group'), 'grouped')):
            r1 = c.run(fi, noinline=('parse',), bind={gp: v})
            es = [e for e in r1.events if e.kind == 'call' and (callname(e.value) or '').split('.')[-1] == 'parse' and not infeasible(e.facts())]
            views.append((r1, es, f'{text} '))
    for r1, es, whose in views:
        for e in es:
            prior_rule(c, e, SELF(r1), pn, roles, whose)


KEEPING = ('add', 'update', 'append', 'extend', 'iop|', 'iop+', '|=', '+=', 'setdefault', 'union_update')
LOSING = ('clear', 'remove', 'discard', 'pop', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'iop&', 'iop-', 'iop^')


def recorded_rule(c, fi, roles):
    """Symbols of accepted expressions stay recorded: what is recorded is added to what is there."""
    gp = next((a.arg for a in fi.node.args.args if a.arg == 'group'), None)
    for v, w in ((NONE, 'own'), (t('nonnull', 'group'), 'sub')) if gp else ((None, 'own'),):
        r = c.run(fi, noinline=('parse',), bind={gp: v} if gp else {})
        me = SELF(r)
        got = []
        for e in r.events:
            if e.kind not in ('mutate', 'setattr') or e.obj is None or infeasible(e.facts()):
                continue
            o = strip_st(e.obj)
            if e.kind == 'setattr':
                f = key_name(e)
            elif o.op == 'attr':
                o, f = o.args[0], o.args[1]
            elif o.op == 'phi':
                fs = [(y.args[0], y.args[1]) for y in leaves(o) if y.op == 'attr']
                if not fs or len({y for _, y in fs}) != 1:
                    continue
                o, f = fs[0]
            else:
                continue
            role = roles.get((w, f))
            if role is None or (strip_st(o) is me) != (w == 'own'):
                continue
            text = 'plain symbols' if role == 'symbols' else 'tables'
            if e.kind == 'mutate':
                if e.op in LOSING:
                    c.ob('recorded', e, False, '', f'{text} recorded before are lost ({e.op})')
                elif e.op in KEEPING:
                    got.append((e, role))
                    c.ob('recorded', e, True, f'{text} are added to those recorded before')
                else:
                    c.skip('recorded', e, f'{text}: {e.op}')
                continue
            val = e.value
            if val is None:
                continue
            old = any(y.op == 'attr' and y.args[1] == f for y in walk(val, True))
            fresh = all(y.op == 'alloc' and strip_alloc(y).op == 'new' for y in leaves(o))
            got.append((e, role))
            c.ob('recorded', e, old or fresh, f'{text} recorded before are kept', f'{text} recorded before are lost: {f} is set to {show(val, 4)}')
        for role in ('symbols', 'chains'):
            if not any(x == role for (y, _), x in roles.items() if y == w):
                continue
            text = 'plain symbols' if role == 'symbols' else 'tables'
            es = [e for e, x in got if x == role]
            atoms = {l for e in es for l, p in lits(e.facts()) if gp and l.op == 'cmp' and l.args[0] == 'in' and strip_st(l.args[1]) is v}
            for l in atoms or {None}:
                for pol in (True, False) if l is not None else (True,):
                    fs = ((l, pol),) if l is not None else ()
                    some = [e for e in es if not contradicts(e.facts(), fs)]
                    c.form('recorded', some[0] if some else fi, bool(some), f'the {text} of {"un" if w == "own" else ""}grouped expressions are recorded',
                         f'the {text} of {"un" if w == "own" else ""}grouped expressions are not always recorded')


def prior_rule(c, e, me, pn, roles, whose):
    args = dict(zip(pn, callargs(e.value)))
    args.update({k: v for k, v in (e.value.args[2] if e.value.op == 'call' else e.value.args[3])})
    for p, role in (('prior_simple', 'symbols'), ('prior_chained', 'chains')):
        text = 'plain symbols' if role == 'symbols' else 'tables'
        if p not in args or is_const(args[p], None):
            c.ob('prior', e, False, '', f'{whose}expressions are parsed without the {text} of the other expressions')
            continue
        a = strip_st(args[p])
        if a.op == 'attr' and a.args[0] is me and aliased(c, p):
            c.ob('atomic', e, False, '', f'parsing changes the {text} of the group, also if the expression is refused')
        elif a.op == 'alloc' or a.op in ('bin', 'lit', 'collect'):
            c.ob('atomic', e, True, f'{whose}expressions are parsed with a copy of the {text}')
        got, whole_ = sources(c, EG, args[p], me, {})
        if not got or not whole_:
            c.skip('prior', e, f'{text}: {show(a, 4)}')
            continue
        have = {(w, roles.get((w, f))) for w, f in got}
        for w in ('own', 'sub'):
            known = any(x == w for x, _ in roles)
            if not known:
                c.skip('prior', e, f'{text} of groups')
                continue
            those = 'ungrouped' if w == 'own' else 'grouped'
            c.ob('prior', e, (w, role) in have, f'{whose}expressions are parsed with the {text} of {those} expressions',
                 f'{whose}expressions are parsed without the {text} of {those} expressions')


def aliased(c, p):
    fi, r, fs = init_view(c)
    x = r.params.get(p)
    given = ((cmp('Is', x, NONE), False),)
    return any(any(strip_st(y) is x for y in leaves(v, given)) for v in fs.values())


def sources(c, cls, x, me, binds, depth=0):
    """({(own|sub, field)} that the elements of x come from, all understood?)."""
    out, ok = set(), True
    if depth > 4:
        return out, False
    seen = set()

    def go(y):
        nonlocal ok
        if y.op == 'st':
            go(y.args[1])
        if y.op == 'eta' and y.args[0] in LOOPS and y not in seen:
            seen.add(y)
            for m in (LOOPS[y.args[0]].init, LOOPS[y.args[0]].step):
                if isinstance(m.get(y.args[1]), T):
                    go(m[y.args[1]])
            return
        y0 = strip_st(y)
        if y0 in seen:
            return
        seen.add(y0)
        y = strip_alloc(y0) if y0.op == 'alloc' else y0
        if y.op == 'mcall' and c.p.functions.get(f'{cls if y.args[1] is me else SG}.{y.args[0]}') is not None and \
                y.args[0] not in ('copy', 'append'):
            k = cls if y.args[1] is me else SG
            f = c.p.fn(f'{k}.{y.args[0]}')
            sub_b = {a: v for a, v in y.args[3]}
            for a, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults):
                if a.arg not in sub_b and d is not None and hasattr(d, 'value'):
                    sub_b[a.arg] = const(d.value)
            r = c.run(f, bind=sub_b)
            m = SELF(r)
            es = [e for e in r.events if e.kind == 'yield' and not infeasible(e.facts())]
            vals = [(e, e.value) for e in es] or ([(None, v) for v in leaves(r.value)] if r.value is not None else [])
            for e, v in vals:
                own = [g for g, p, k2 in e.guards if k2 in ('if', 'survive', 'sc') and truth(g) is None] if e is not None else []
                if own:
                    ok = False
                got, good = sources(c, k, v, m, {}, depth + 1)
                ok = ok and good
                out.update({('own' if y.args[1] is me and w == 'own' else 'sub', f2) for w, f2 in got})
            return
        if y.op == 'attr':
            if strip_st(y.args[0]) is me:
                out.add(('own', y.args[1]))
                return
            if any(z is me for z in walk(y, True)):
                out.add(('sub', y.args[1]))
                return
        if y.op == 'slice' or y.op == 'phi':
            ok = False
        if y.op == 'sub':
            go(y.args[0])
            return
        for a in y.args:
            if isinstance(a, T):
                go(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        go(b)
                    elif isinstance(b, tuple) and len(b) == 2 and isinstance(b[1], T):
                        go(b[1])
    go(x)
    for e in ():
        pass
    return out, ok


def cleanup_rule(c):
    """Pre-evaluating a group discards only the symbols that nothing else uses."""
    fi = c.p.functions.get('cheval.model.ChoiceModel.preval')
    if fi is None:
        return
    r = c.run(fi, noinline=('_evaluate_utilities', 'validate', 'copy', 'itersimple', 'iterchained', 'drop_group', 'get_group'))
    me = SELF(r)
    dels = [e for e in r.events if e.kind == 'delsub' or e.kind == 'mutate' and e.op == 'pop']
    sf = scope_field(c)
    dels = [e for e in dels if e.obj is not None and strip_st(e.obj).op == 'attr' and strip_st(e.obj).args[1] == sf and strip_st(e.obj).args[0] is me]
    cleared = [e for e in r.events if e.kind in ('mutate', 'setattr') and e.obj is not None and (
        e.kind == 'mutate' and e.op in ('clear', 'popitem') and strip_st(e.obj).op == 'attr' and strip_st(e.obj).args[1] == sf or
        e.kind == 'setattr' and strip_st(e.obj) is me and key_name(e) == sf)]
    for e in cleared:
        if e.kind == 'mutate':
            c.ob('cleanup', e, False, '', 'all symbols are discarded')
        else:
            c.skip('cleanup', e, 'the symbols are replaced')
    for e in dels:
        key = e.key if e.kind == 'delsub' else e.args[0]
        inc, exc, ok = membership(key, e)
        if not ok:
            c.skip('cleanup', e, show(key, 6))
            continue
        reserved = any(y.op == 'glob' and y.args[0].endswith('RESERVED_WORDS') or y.op == 'lit' and {'NAN', 'NEG_INF'} <= {
            cval(z) for z in y.args[1:] if isinstance(z, T) and is_const(z)} for x in exc for y in walk(x, True))
        grp = r.params[fi.node.args.args[1].arg]
        none = {cval(y.args[i]) for g, p, kk in e.guards for y, lp in lits([(g, p)]) if y.op == 'cmp' and y.args[0] == '==' and not lp
                for i in (1, 2) if is_const(y.args[i]) and strip_st(y.args[3 - i]) is strip_st(key)}
        reserved = reserved or {'NAN', 'NEG_INF'} <= none
        of_group = [x for x in inc if any(contains(y, grp) or callname(y) == '.get_group' for y in walk(x, True))]
        others = {}
        for x in exc:
            for y in walk(x, True):
                if y.op == 'mcall' and y.args[0] in ('itersimple', 'iterchained'):
                    b = strip_st(y.args[1])
                    if callname(b) == '.get_group' or contains(b, grp):
                        continue
                    if y.args[3] and any(k == 'groups' and truth(v) is False for k, v in y.args[3]):
                        c.ob('cleanup', e, False, '', 'symbols of other groups are discarded')
                        continue
                    others.setdefault(y.args[0], set()).add(b)
        if not others and any(y.op == 'attr' and y.args[1] not in (sf,) for x in exc for y in walk(x, True)):
            c.skip('cleanup', e, 'which symbols are kept')
            continue
        both = set(others) == {'itersimple', 'iterchained'}
        c.ob('cleanup', e, both, 'symbols that other expressions use are kept',
             'symbols that other expressions use are discarded' + (f' (only those of {sorted(others)[0]} are kept)' if others else ''))
        c.ob('cleanup', e, reserved, 'reserved names are kept', 'reserved names are discarded')
        c.ob('cleanup', e, bool(of_group), 'only symbols of the group are discarded', 'symbols that are not of the group are discarded')
        # the group itself must not be among the others (nothing would be discarded): not a matter of this property


def membership(key, e):
    """(containers the key is in, containers it is not in, understood?)."""
    inc, exc, ok = [], [], True
    k = strip_st(key)
    src = None
    if k.op == 'sub':
        src = k.args[0]
    if src is None:
        return inc, exc, False

    def go(x, pos):
        nonlocal ok
        x = strip_st(x)
        y = strip_alloc(x) if x.op == 'alloc' else x
        if y.op == 'bin' and y.args[0] == '-':
            go(y.args[1], pos)
            (exc if pos else inc).append(y.args[2])
        elif y.op == 'bin' and y.args[0] == '&':
            go(y.args[1], pos)
            go(y.args[2], pos)
        elif y.op == 'mcall' and y.args[0] in ('difference', 'difference_update'):
            go(y.args[1], pos)
            exc.extend(y.args[2])
        elif y.op == 'mcall' and y.args[0] == 'intersection':
            go(y.args[1], pos)
            for z in y.args[2]:
                go(z, pos)
        elif y.op == 'call' and callname(y) in ('builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.set', 'builtins.frozenset') and len(callargs(y)) == 1 and \
                strip_st(callargs(y)[0]).op in ('bin', 'alloc') and callname(strip_st(callargs(y)[0])) is None:
            go(callargs(y)[0], pos)
        else:
            inc.append(x)
    go(src, True)
    for g, p, kk in e.guards:
        for l, lp in lits([(g, p)]):
            if l.op == 'cmp' and l.args[0] == 'in' and strip_st(l.args[1]) is k:
                (inc if lp else exc).append(l.args[2])
    return inc, exc, ok


EXPRESSION = 'cheval.parsing.expressions.Expression'


def p35(c):
    literal_parsed(c)
    literal_inserted(c)
    literal_prepared(c)


def nm(x):
    return N('Name', id=x, ctx=N('Load'))


def dotted(*xs):
    return nm(xs[0]) if len(xs) == 1 else N('Attribute', attr=xs[-1], value=dotted(*xs[:-1]), ctx=N('Load'))


def number(v):
    k = N('Constant:int' if isinstance(v, int) else 'Constant:float', value=abs(v))
    return N('UnaryOp', op=N('USub'), operand=k) if v < 0 else k


def dict_entries(S, v):
    """[(key, value)] of a dict made while parsing, or None."""
    o = strip_st(v)
    x = S.r.state.heap.get((o, '#'))
    if x is None and v.op == 'st':
        x = v.args[1]
    base = strip_alloc(o) if o.op == 'alloc' else o
    out = []
    while x is not None and x.op == 'upd' and x.args[1] == 'set':
        out.append((x.args[2], x.args[3]))
        x = x.args[0]
    if x is not None and x.op != 'init':
        return None
    out.reverse()
    if base.op == 'dictlit':
        pairs = [a for a in base.args]
        if not all(isinstance(a, tuple) and len(a) == 2 for a in pairs):
            return None
        return [tuple(a) for a in pairs] + out
    if callname(base) in ('builtins.dict', 'collections.OrderedDict'):
        if not callargs(base):
            return out
        xs = _Bare(S).elems(callargs(base)[0])
        xs = [_Bare(S).elems(y) for y in xs] if xs is not None else None
        if xs is None or any(y is None or len(y) != 2 for y in xs):
            return None
        return [tuple(y) for y in xs] + out
    return None


def text_of(S, x):
    x = strip_st(x)
    while callname(x) in ('builtins.str',) and len(callargs(x)) == 1:
        x = strip_st(callargs(x)[0])
    return cval(x) if is_const(x) else None


def number_of(x):
    """(number, exact?) of a constant that went through conversions."""
    x = strip_st(x)
    exact = True
    sign = 1
    while True:
        if x.op == 'neg':
            sign = -sign
            x = strip_st(x.args[0])
        elif x.op == 'call' and len(callargs(x)) == 1 and callname(x):
            n = callname(x).split('.')[-1]
            if n in ('int', 'round') or n.startswith('int') or n.startswith('uint') or n in ('abs', 'bool', 'bool_'):
                exact = False
            elif not n.startswith('float') and n not in ('double', 'single', 'float_'):
                return None
            x = strip_st(callargs(x)[0])
        elif is_const(x) and isinstance(cval(x), (int, float)):
            return sign * cval(x), exact
        else:
            return None


def literal_parsed(c):
    """A dict literal keeps all of its keys and numbers."""
    rule = 'parsed'
    fi = c.p.fn(f'{TR}.visit')
    shapes = [
        ([nm('A')], [3], [('A',)]),
        ([N('Constant:str', value='A b')], [0.5], [('A b',)]),
        ([dotted('A', 'B')], [-3], [('A', 'B')]),
        ([dotted('A', 'B', 'C'), nm('D')], [-0.5, 1.5], [('A', 'B', 'C'), ('D',)]),
        ([dotted('A', '_'), dotted('A', 'B'), nm('A')], [2, -1, 0.25], [('A', '_'), ('A', 'B'), ('A',)]),
        ([N('Constant:str', value='x.y'), nm('_')], [7, 8], [('x.y',), ('_',)]),
    ]
    for keys, values, want in shapes:
        S = Shape(c, N('Dict', keys=keys, values=[number(v) for v in values]))
        what = 'the literal {' + ', '.join(f'{".".join(k)}: {v}' for k, v in zip(want, values)) + '}'
        puts = [e for e in S.events if e.kind == 'setsub' and strip_st(e.obj).op == 'attr' and strip_st(e.obj).args[0] is S.me]
        if not S.results(()) and not puts:
            c.ob(rule, S.raises()[0] if S.raises() else fi, False, '', f'{what} is refused')
            continue
        if not puts:
            c.skip(rule, fi, f'where {what} is kept')
        for e in puts:
            got = None
            for fv, v in flat_phi(e.value, ()):
                got = dict_entries(S, v)
            if got is None:
                c.skip(rule, e, f'{what} becomes {show(e.value, 5)}')
                continue
            ks = []
            for k, v in got:
                xs = _Bare(S).elems(k)
                ks.append(tuple(text_of(S, y) for y in xs) if xs is not None else None)
            if any(k is None or None in k for k in ks):
                c.skip(rule, e, f'{what}: keys {[show(k, 4) for k, v in got]}')
            else:
                c.ob(rule, e, sorted(ks) == sorted(want), f'{what} keeps its keys', f'{what} has the keys {ks}')
                vs = [number_of(v) for k, v in got]
                if None in vs:
                    c.skip(rule, e, f'{what}: values {[show(v, 4) for k, v in got]}')
                else:
                    ok = sorted(zip(ks, [v for v, x in vs])) == sorted(zip(want, values)) and all(x for _, x in vs)
                    c.ob(rule, e, ok, f'{what} keeps its numbers', f'{what} has the numbers {[show(v, 4) for k, v in got]}')


def literal_inserted(c):
    """A value goes to the choice that its key names, to all children of it if it ends in "_", and nowhere else."""
    fi = c.p.functions.get(f'{EXPRESSION}._insert_dict_val')
    if fi is None:
        c.skip('inserted', c.p.fn(f'{EXPRESSION}.parse'), 'where values of dict literals are placed')
        return
    names = [a.arg for a in fi.node.args.args if a.arg not in ('self', 'cls')]
    if len(names) != 4:
        c.skip('inserted', fi, 'arguments')
        return
    K, CI, V, ARR = names
    ci = t('param', CI)
    val, arr = t('param', V), t('param', ARR)

    def placed(n, key):
        it = ShapeInterp(c.p, heap={(ci, 'nlevels'): const(n)})
        r = it.run(fi, bind={K: t('tup', *map(const, key))})
        c.functions |= it.functions_seen
        c.n_events += len(r.events)
        return r, [e for e in r.events if e.kind in ('setsub', 'mutate', 'aug') and e.obj is not None and strip_st(e.obj) is arr and not infeasible(e.facts())]

    def cell(k):
        """The labels whose cell an index is: a tuple of texts or one text; None if unknown."""
        k = strip_st(k)
        if k.op == 'tup' and len(k.args) == 2:
            if not (is_const(k.args[0], 0) or k.args[0].op == 'slice'):
                return None
            k = strip_st(k.args[1])
        if is_const(k) and isinstance(cval(k), int):
            return f'number {cval(k)}'
        if k.op == 'mcall' and k.args[0] == 'get_loc' and strip_st(k.args[1]) is ci and len(k.args[2]) == 1:
            x = k.args[2][0]
            xs = it0.elems(x)
            if xs is not None:
                ys = tuple(text_of(None, y) for y in xs)
                return ys if None not in ys else None
            return text_of(None, x)
        return None
    it0 = _Elems()
    for n in (1, 2, 3):
        for key in [('k1',), ('k1', 'k2'), ('k1', 'k2', 'k3')]:
            if len(key) > n > 1:
                continue
            what = f'a value for {".".join(key)} in a model of {n} level{"s" * (n > 1)}'
            r, sets = placed(n, key)
            if n == 1 and len(key) > 1:
                c.ob('inserted', sets[0] if sets else fi, not sets, f'{what} is refused', f'{what} is placed')
                continue
            if not sets:
                c.ob('inserted', fi, False, '', f'{what} is placed nowhere')
            want = key[0] if n == 1 else key + ('.',) * (n - len(key))
            cells = [cell(e.key) if e.kind == 'setsub' else None for e in sets]
            if any(x is None for x in cells):
                c.skip('inserted', sets[0], f'{what}: {show(sets[0].key, 5)}' if isinstance(sets[0].key, T) else what)
                continue
            for e, x in zip(sets, cells):
                c.ob('inserted', e, x == want, f'{what} is placed in the column of {want}', f'{what} is placed in the column of {x}')
                v = strip_st(e.value)
                c.ob('value', e, v is val, f'{what} is placed as it is', f'{what}: {show(v, 4)} is placed')
    for n in (2, 3):
        for key in [('k1', '_'), ('k1', 'k2', '_'), ('k1', '_', 'k3')]:
            p = key.index('_')
            if p >= n:
                continue
            what = f'a value for {".".join(key)} in a model of {n} levels'
            r, sets = placed(n, key)
            parent = key[:p] + ('.',) * (n - p)
            cells = [cell(e.key) if e.kind == 'setsub' else None for e in sets]
            if not sets or any(x is None for x in cells):
                if not sets:
                    c.ob('children', fi, False, '', f'{what} is placed nowhere')
                else:
                    c.skip('children', sets[0], what)
                continue
            wide = [i for i, x in enumerate(cells) if x == key[:p]]
            odd = [i for i, x in enumerate(cells) if x not in (key[:p], parent)]
            if odd:
                c.ob('children', sets[odd[0]], False, '', f'{what} is placed in the column of {cells[odd[0]]}')
                continue
            c.ob('children', sets[wide[0]] if wide else fi, bool(wide) and all(strip_st(sets[i].value) is val for i in wide),
                 f'{what} is placed in the columns of all children', f'{what} is not placed in the columns of the children')
            if not wide:
                continue
            after = [sets[i] for i, x in enumerate(cells) if x == parent and i > wide[-1]]
            if not after:
                c.ob('parent', sets[wide[-1]], False, '', f'{what} also changes the column of {".".join(key[:p])} itself')
                continue
            v = after[-1].value
            kept_ = v.op == 'sub' and v.args[0] is arr and cell(v.args[1]) == parent or \
                strip_st(v).op == 'mcall' and strip_st(v).args[0] in ('copy', 'item') and strip_st(strip_st(v).args[1]).op == 'sub' and \
                strip_st(v).args[1].args[0] is arr and cell(strip_st(v).args[1].args[1]) == parent
            late = v.op == 'sub' and strip_st(v.args[0]) is arr and v.args[0] is not arr
            if not kept_ and not late and not is_const(v) and v is not val:
                c.skip('parent', after[-1], show(v, 5))
            else:
                c.ob('parent', after[-1], kept_, f'{what} leaves the column of {".".join(key[:p])} itself as it was',
                     f'{what} sets the column of {".".join(key[:p])} itself to {show(v, 4)}')


class _Elems:
    s = None

    def elems(self, v):
        if v.op == 'alloc':
            return ShapeInterp.elems(self, strip_alloc(v))
        return ShapeInterp.elems(self, v)


def literal_prepared(c):
    """Every literal becomes a row of its own over all choices, that is zero but for the values of the literal."""
    fi = c.p.functions.get(f'{EXPRESSION}._prepare_dict_literals')
    if fi is None:
        c.skip('row', c.p.fn(f'{EXPRESSION}.parse'), 'where dict literals are prepared')
        return
    names = [a.arg for a in fi.node.args.args[1:]]
    r = c.run(fi, noinline=('_insert_dict_val',))
    me = SELF(r)
    lits_ = t('attr', me, 'dict_literals')
    ci = r.params[names[0]]
    puts = [e for e in r.events if e.kind == 'setsub' and strip_st(e.obj) is r.params[names[1]]]
    ins = [e for e in r.events if e.kind == 'call' and (callname(e.value) or '').split('.')[-1] == '_insert_dict_val']
    if not puts or not ins:
        c.skip('row', fi, 'values are placed in another way')
        return
    for e in puts:
        k = strip_st(e.key)
        v = strip_st(e.value)
        a = strip_alloc(v) if v.op == 'alloc' else v
        ok_key = k.op == 'sub' and strip_st(k.args[0]) is lits_
        if not ok_key:
            c.skip('row', e, f'stored as {show(k, 4)}')
        mk = (callname(a) or '').split('.')[-1]
        if mk in ('zeros', 'full', 'ones', 'empty', 'zeros_like'):
            zero = mk == 'zeros' or mk == 'full' and len(callargs(a)) > 1 and cval(callargs(a)[1]) == 0
            c.ob('row', e, zero, 'choices that a dict literal does not name have the value 0', f'they have the values of {show(a, 4)}')
            shp = strip_st(callargs(a)[0]) if callargs(a) else None
            shp = strip_alloc(shp) if shp is not None and shp.op == 'alloc' else shp
            if shp is not None and shp.op in ('tup', 'lit'):
                xs = [x for x in shp.args if isinstance(x, T)]
                size = lambda y: strip_st(y) is t('len', ci) or strip_st(y).op == 'attr' and strip_st(y).args[1] == 'size' and strip_st(strip_st(y).args[0]) is ci
                good = len(xs) == 2 and is_const(xs[0], 1) and size(xs[1])
                if good or all(is_const(x) or size(x) for x in xs):
                    c.ob('row', e, good, 'a dict literal is a row over all choices', f'a dict literal has the shape {show(shp, 4)}')
                else:
                    c.skip('row', e, show(shp, 4))
            dt = tkw(a, 'dtype') if tkw(a, 'dtype') is not None else callargs(a)[1] if mk == 'zeros' and len(callargs(a)) > 1 else None
            if dt is not None:
                d = cval(dt) if is_const(dt) else show(dt)
                c.ob('row', e, not re.search(r'int|^i\d|bool|^u\d|^b1', str(d)), 'values of dict literals are not cut', f'values are stored as {d}')
            # one array per literal
            made = [x for x in r.events if x.kind == 'call' and x.value is v]
            if made and e.loops:
                c.ob('row', made[0], len(made[0].loops) >= len(e.loops), 'every dict literal has a row of its own',
                     'all dict literals of an expression share one row')
        else:
            c.skip('row', e, show(a, 4))
        mine = []
        for x in ins:
            args = list(callargs(x.value)) + [z for _, z in (x.value.args[2] if x.value.op == 'call' else x.value.args[3])]
            if not any(strip_st(z) is v for z in args):
                continue
            mine.append(x)
            own = [g for g, p, kk in x.guards if kk in ('if', 'survive', 'sc')]
            c.ob('entries', x, not own, 'every value of a dict literal is placed', f'values are placed only if {show(own[0], 5) if own else ""}')
            keyed = [z for z in args if strip_st(z).op == 'sub']
            vals = [strip_st(z) for z in keyed]
            inner = [z for z in vals if strip_st(z.args[1]).op == 'iv']
            outer = [z for z in vals if strip_st(z.args[1]).op != 'iv']
            if len(inner) == 1 and len(outer) == 1:
                box, k2 = inner[0].args[0], inner[0]
                ok = strip_st(outer[0].args[0]) is strip_st(box) and strip_st(outer[0].args[1]) is k2
                c.ob('entries', x, ok, 'a value is placed for its own key', f'{show(outer[0], 5)} is placed for {show(k2, 5)}')
                b = strip_st(box)
                if b.op == 'sub' and strip_st(b.args[0]) is lits_:
                    c.ob('entries', x, strip_st(b.args[1]) is k, 'the row of a literal holds its own values',
                         'the row of a literal holds the values of another')
            else:
                c.skip('entries', x, show(x.value, 5))
            c.ob('entries', x, any(strip_st(z) is ci for z in args), 'values are placed by the labels of the choices', show(x.value, 5))
        c.ob('entries', e, bool(mine), 'the row of a literal is given its values', 'nothing is placed in the row of a literal')


RULES = {'P33': p33, 'P34': p34}


def key_name(e):
    """Name of the attribute that is set."""
    return e.key if isinstance(e.key, str) else cval(e.key) if e.key is not None and is_const(e.key) else None
