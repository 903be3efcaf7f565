"""Parsing of expressions: meaning of the translation, refusals, consistent use of symbols, names, dict literals."""
from __future__ import annotations

import ast
import re

from .lib import *
from .shapes import ShapeInterp, node_fields
from .rules_state import *  # noqa

TR = 'cheval.parsing.ast_transformer.ExpressionParser'
OPS2 = ('Add', 'Sub', 'Mult', 'Div', 'Mod', 'Pow', 'BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift', 'FloorDiv')
CMPS = ('Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq')
ODD = ('Is', 'IsNot', 'In', 'NotIn')
X = '?'


class N:
    """Template of a syntax node: its class, the known fields; '?' is an arbitrary expression or name."""

    def __init__(self, kind, **fields):
        self.kind, self.fields = kind, fields


class Shape:
    """The summary of visiting a template: what is returned, raised, recorded."""

    def __init__(self, c, tmpl, facts=(), method='visit', bind=None, cls=TR, noinline=()):
        self.kinds, self.heap, self.named = {}, {}, {}
        self.node = self.build(tmpl, 'node')
        fam = family(c)
        hooks = {'visit': self.visit, 'generic_visit': self.generic}
        for h in fam:
            hooks.setdefault(h, self.visitor)
        it = ShapeInterp(c.p, hooks=hooks, kinds=self.kinds, heap=self.heap, noinline=noinline)
        fi = c.p.fn(f'{cls}.{method}')
        names = [a.arg for a in fi.node.args.args]
        self.me = t('param', names[0])
        self.r = it.run(fi, bind={names[1]: self.node, **(bind or {})}, facts=facts)
        c.functions |= it.functions_seen
        c.n_events += len(self.r.events)
        self.events = self.r.events
        self.value = self.r.value if self.r.state is not None else None

    def build(self, v, path):
        if isinstance(v, T):
            return v
        if isinstance(v, (list, tuple)):
            return t('lit', 'list', *[self.build(x, f'{path}.{i}') for i, x in enumerate(v)])
        if isinstance(v, N):
            x = t('param', path)
            self.kinds[x] = 'ast.' + v.kind
            fields = dict(v.fields)
            if v.kind.startswith('Constant'):
                fields.setdefault('n', fields['value'])
                fields.setdefault('s', fields['value'])
            for f, y in fields.items():
                self.heap[(x, f)] = self.build(y, f'{path}.{"value" if f in ("n", "s") else f}' if path != 'node' else f)
            return x
        if v == X:
            return t('param', path)
        return const(v)

    def records(self):
        """[(event, field of the visitor, what is added to the container it holds)]"""
        out = []
        for e in self.events:
            if e.obj is None:
                continue
            b = strip_st(e.obj)
            if e.kind == 'mutate' and e.op in ('add', 'update', 'append', 'iop|', 'setdefault') or e.kind == 'setsub':
                if b.op == 'attr' and b.args[0] is self.me:
                    out.append((e, b.args[1], list(e.args or ()) + ([e.key] if e.key is not None else [])))
            elif e.kind == 'setattr' and b is self.me and e.value is not None:
                # self.x |= {name}, self.x = self.x | {name}, self.x = self.x.union([name])
                f = cval(e.key) if isinstance(e.key, T) and is_const(e.key) else e.key
                v = e.value
                xs = v.args[1:] if v.op == 'bin' and v.args[0] == '|' else (v.args[1], *v.args[2]) if v.op == 'mcall' and v.args[0] == 'union' else ()
                old = [x for x in xs if strip_st(x).op == 'attr' and strip_st(x).args == (self.me, f)]
                if old:
                    out.append((e, f, [x for x in xs if x not in old]))
        return out

    def visit(self, interp, args):
        return None if len(args) != 1 or strip_st(args[0]) is self.node else t('visited', args[0])

    def visitor(self, interp, args):
        if len(args) != 1 or strip_st(args[0]) is self.node:
            return None
        return t('visitor', args[0])

    def generic(self, interp, args):
        if len(args) != 1:
            return None
        x = strip_st(args[0])
        k = self.kinds.get(x)
        if x is not self.node:
            return t('visited', x)
        for f in getattr(ast, k[4:].split(':')[0])._fields:
            v = interp.s.heap.get((x, f))
            if v is None or f in ('op', 'ops', 'ctx'):
                continue
            xs = interp.elems(v)
            if xs is not None:
                interp.s.heap[(x, f)] = t('lit', 'list', *[self.seen(y) for y in xs])
            else:
                interp.s.heap[(x, f)] = self.seen(v)
        return x

    def seen(self, v):
        if v.op == 'const' or self.kinds.get(v, '')[4:] in OPS2 + CMPS + ODD + ('And', 'Or', 'Not', 'USub', 'UAdd', 'Invert', 'Load'):
            return v
        if v.op == 'param' and re.search(r'(^|\.)(id|attr|name|n|s|arg)$', v.args[0]):
            return v
        return t('visited', v)

    # what comes out
    def raises(self):
        return [e for e in self.events if e.kind == 'raise']

    def results(self, facts=()):
        """[(value, facts)]: the values returned."""
        return [] if self.value is None else leaves(self.value, facts)

    def fields(self, x):
        """Class and fields of a resulting node, or None."""
        x = strip_st(x)
        if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].startswith('ast.'):
            f = dict(node_fields(x))
            k = x.args[0].args[0][4:]
        elif x in self.kinds:
            k, f = self.kinds[x][4:].split(':')[0], {}
        else:
            return None
        for (o, name), v in self.r.state.heap.items():
            if o is x:
                f[name] = v
        return k, f

    def elems(self, v):
        v = strip_alloc(strip_st(v)) if v.op == 'alloc' else v
        if v.op == 'st':
            v = v.args[1]
        if v.op == 'lit' and v.args[0] == 'list':
            return list(v.args[1:])
        if v.op == 'tup':
            return list(v.args)
        return None

    def op_name(self, v):
        v = strip_st(v)
        if v in self.kinds:
            return self.kinds[v][4:]
        if v.op == 'call' and v.args[0].op == 'glob' and v.args[0].args[0].startswith('ast.'):
            return v.args[0].args[0][4:]
        if v.op == 'glob' and v.args[0].startswith('ast.'):
            return v.args[0][4:]
        return None

    def norm(self, x):
        """The resulting tree: ('v', child) for a visited child, (class, {field: ...}) for nodes."""
        x = strip_st(x)
        if x.op == 'visited':
            return ('v', strip_st(x.args[0]))
        if x.op == 'call' and x.args[0].op == 'visitor':
            return ('v', strip_st(x.args[0].args[0]))
        f = self.fields(x)
        if f is None or x in self.kinds and x is not self.node:
            return ('raw', x)
        out = {}
        for k, v in f[1].items():
            o = self.op_name(v)
            xs = self.elems(v)
            if xs is not None:
                out[k] = [self.op_name(y) or self.norm(y) for y in xs]
            elif k in ('op', 'ctx') and o:
                out[k] = o
            elif v.op == 'const':
                out[k] = ('const', cval(v))
            else:
                out[k] = self.norm(v)
        return (f[0], out)


def leaves(x, facts=()):
    return [strip_st(y) for fs, y in flat_phi(spec(x, facts) if facts else x, tuple(facts)) if not infeasible(fs)]


_FAM = {}


def family(c):
    """Names of the methods through which nodes are dispatched."""
    key = id(c.p)
    if key not in _FAM:
        it = ShapeInterp(c.p, hooks={'generic_visit': lambda i, a: t('visited', a[0])}, kinds={t('param', 'node'): 'ast.Tuple'},
                         heap={(t('param', 'node'), 'elts'): t('lit', 'list')})
        fi = c.p.fn(f'{TR}.visit')
        r = it.run(fi, bind={fi.node.args.args[1].arg: t('param', 'node')})
        _FAM[key] = {'visit'} | {e.fi.name for e in r.events if e.kind == 'enter' and e.fi is not None and e.args
                                 and not e.fi.name.startswith('visit_') and t('param', 'node') in e.args}
    return _FAM[key]



def same(c, rule, fi, S, what, want, ok):
    """Every result of a shape is as wanted. `ok(norm)` gives True, False or None."""
    res = S.results()
    if not res:
        c.ob(rule, S.raises()[0] if S.raises() else fi, False, f'{what} is accepted', f'{what} is refused')
        return
    for x in res:
        n = S.norm(x)
        v = ok(n)
        if v is None:
            c.skip(rule, fi, f'{what} becomes {shown(n)}')
        else:
            c.ob(rule, fi, v, f'{what} means {want}', f'{what} becomes {shown(n)}')


def shown(n):
    """Readable form of a resulting tree."""
    if isinstance(n, str):
        return n
    k, v = n
    if k == 'v':
        return v.args[0] if v.op == 'param' else show(v, 3)
    if k == 'raw':
        return f'<{show(v, 3)}>'
    if k == 'const':
        return repr(v)
    return k + '(' + ', '.join(f'{f}=' + ('[' + ', '.join(shown(y) for y in x) + ']' if isinstance(x, list) else shown(x))
                               for f, x in sorted(v.items())) + ')'


SIMPLE = ('BinOp', 'UnaryOp', 'Compare', 'BoolOp', 'Name', 'v', 'raw', 'const', 'Call')


def simple(n):
    """The tree holds nothing but plain operations."""
    if isinstance(n, str):
        return True
    if n[0] not in SIMPLE:
        return False
    if n[0] == 'raw':
        return n[1].op in ('param', 'const', 'attr')
    if isinstance(n[1], dict):
        return all(simple(y) for x in n[1].values() for y in (x if isinstance(x, list) else [x]))
    return True


def flatten(n, op):
    if n[0] == 'BinOp' and n[1].get('op') == op and 'left' in n[1] and 'right' in n[1]:
        return flatten(n[1]['left'], op) + flatten(n[1]['right'], op)
    return [n]


def child(S, path):
    return ('v', t('param', path))


def p30(c):
    translation(c)
    names(c)
    whole(c)


def translation(c):
    rule = 'translation'
    fi = c.p.fn(f'{TR}.visit')

    def decide_(ok, n):
        return True if ok else False if simple(n) else None
    for op, new in (('And', 'BitAnd'), ('Or', 'BitOr')):
        for k in (2, 3, 4):
            S = Shape(c, N('BoolOp', op=N(op), values=[X] * k))
            want = [child(S, f'values.{i}') for i in range(k)]
            same(c, rule, fi, S, f'"{op.lower()}" of {k} operands', f'{"&" if op == "And" else "|"} of all of them',
                 lambda n: decide_(sorted(map(repr, flatten(n, new))) == sorted(map(repr, want)), n))
    for op in ('Not', 'USub', 'UAdd', 'Invert'):
        S = Shape(c, N('UnaryOp', op=N(op), operand=X))
        if op in ('UAdd', 'Invert') and not S.results():
            continue
        new = {'Not': 'Invert'}.get(op, op)
        same(c, rule, fi, S, f'unary {op}', f'{new} of the operand',
             lambda n: decide_(n == ('UnaryOp', {'op': new, 'operand': child(S, 'operand')}) or
                               op == 'UAdd' and n == child(S, 'operand'), n))
    for op in OPS2:
        S = Shape(c, N('BinOp', op=N(op), left=X, right=X))
        if not S.results() and op in ('FloorDiv', 'BitXor', 'LShift', 'RShift'):
            continue
        same(c, rule, fi, S, f'binary {op}', 'the same of both operands',
             lambda n: decide_(n == ('BinOp', {'op': op, 'left': child(S, 'left'), 'right': child(S, 'right')}), n))
    for k in (1, 2, 3, 4):
        for j in range(len(CMPS) if k == 1 else 2):
            ops = [CMPS[(j * 3 + i) % len(CMPS)] if k > 1 else CMPS[j] for i in range(k)]
            S = Shape(c, N('Compare', left=X, ops=[N(o) for o in ops], comparators=[X] * k))
            cs = [child(S, 'left')] + [child(S, f'comparators.{i}') for i in range(k)]
            want = [('Compare', {'left': cs[i], 'ops': [ops[i]], 'comparators': [cs[i + 1]]}) for i in range(k)]
            same(c, rule, fi, S, f'the comparison a {" b ".join(ops)} z', 'every comparison of neighbours',
                 lambda n: decide_(sorted(map(key_of, flatten(n, 'BitAnd'))) == sorted(map(key_of, want)), n))
    for k in (0, 1, 2, 3):
        S = Shape(c, N('Call', func=N('Name', id=X), args=[X] * k, keywords=[]))

        def ok(n):
            if n[0] != 'Call':
                return False if simple(n) else None
            f = n[1].get('func')
            if f != ('raw', t('param', 'func')):
                return False if f is not None and f[0] == 'v' else None
            return n[1].get('args') == [child(S, f'args.{i}') for i in range(k)] and n[1].get('keywords') == []
        same(c, rule, fi, S, f'a function of {k} arguments', 'the same function of all arguments', ok)
    for kind in ('Tuple', 'List'):
        S = Shape(c, N(kind, elts=[X, X, X], ctx=N('Load')))
        if S.results():
            same(c, rule, fi, S, f'a {kind.lower()}', 'all of its elements',
                 lambda n: n[1].get('elts') == [child(S, f'elts.{i}') for i in range(3)] if n[0] == kind else None)


def key_of(n):
    """Mirrored comparisons are the same."""
    if n[0] == 'Compare':
        d = n[1]
        if isinstance(d.get('ops'), list) and len(d['ops']) == 1 and len(d.get('comparators') or ()) == 1:
            o, a, b = d['ops'][0], repr(d.get('left')), repr(d['comparators'][0])
            if o in ('Gt', 'GtE'):
                o, a, b = {'Gt': 'Lt', 'GtE': 'LtE'}[o], b, a
            if o in ('Eq', 'NotEq'):
                a, b = sorted((a, b))
            return repr((o, a, b))
    return repr(n)


def names(c):
    """Names are kept and recorded, names for missing values and None become NAN, other constants stay."""
    fi = c.p.fn(f'{TR}.visit')
    rule = 'names'
    nan = None
    for name in ('nan', 'NaN', 'NAN', 'None', 'none'):
        S = Shape(c, N('Name', id=name, ctx=N('Load')))
        same(c, rule, fi, S, f'the name {name}', 'the missing value',
             lambda n: n[0] == 'Name' and n[1].get('id') == ('const', 'NAN'))
        rec = [e for e, f, _ in S.records()]
        c.ob(rule, rec[0] if rec else fi, not rec, f'the name {name} is no symbol', f'{name} is recorded as a symbol')
    S = Shape(c, N('Constant:NoneType', value=None))
    same(c, rule, fi, S, 'None', 'the missing value', lambda n: n[0] == 'Name' and n[1].get('id') == ('const', 'NAN'))
    for kind, v in (('int', 3), ('float', 0.5), ('bool', True), ('int', 0), ('bool', False)):
        S = Shape(c, N('Constant:' + kind, value=v))
        same(c, rule, fi, S, f'the constant {v}', 'itself', lambda n: n[0] in ('Constant', 'Num', 'NameConstant') and (
            n[1].get('value', n[1].get('n')) == ('const', v)))
    S = Shape(c, N('Constant:str', value='abc'))
    same(c, rule, fi, S, "the text 'abc'", 'itself', lambda n: n[0] == 'Constant' and n[1].get('value') == ('const', 'abc')
         or (None if n[0] in ('Bytes', 'Constant') else False))
    for name in ('x', 'nanny', 'Cost_1', 'OUT', 'nones'):
        S = Shape(c, N('Name', id=name, ctx=N('Load')))
        same(c, rule, fi, S, f'the name {name}', 'the symbol of that name',
             lambda n: n[0] == 'Name' and n[1].get('id') == ('const', name))


def init_view(c):
    """Fields of a new parser: the field that holds each argument (or something made from it), fresh containers."""
    fi = c.p.fn(f'{TR}.__init__')
    r = c.run(fi)
    me = SELF(r)
    out = {}
    for (o, f), v in r.state.heap.items():
        if o is me:
            out[f] = v
    return fi, r, out


def fields_from(c, pname):
    fi, r, fs = init_view(c)
    x = r.params[pname]
    given = ((cmp('Is', x, NONE), False),)
    return [f for f, v in fs.items() if all(contains(y, x) for y in leaves(v, given)) and leaves(v, given)]


def adds(e, f):
    """The event adds to the container in field f of the parser."""
    return e.kind in ('mutate', 'aug', 'setsub') and e.obj is not None and any(
        y.op == 'attr' and y.args[1] == f and y.args[0].op == 'param' for y in [strip_st(e.obj)])


def whole(c):
    """What parse() makes of an expression."""
    rule = 'parse'
    fi = c.p.fn('cheval.parsing.expressions.Expression.parse')
    r = c.run(fi, noinline=('visit', '_split_filter'))
    src = r.params[fi.node.args.args[0].arg]
    vals = leaves(r.value)
    sets = {}
    S = Shape(c, N('Name', id='x', ctx=N('Load')))
    sets['simple'] = {f for _, f, _ in S.records()}
    S = Shape(c, N('Attribute', attr='a', value=N('Name', id='t')))
    sets['chains'] = {f for e, f, _ in S.records() if e.kind == 'setsub' or e.op == 'setdefault'}
    S = Shape(c, N('Dict', keys=[N('Name', id='A')], values=[N('Constant:int', value=1)]))
    sets['dicts'] = {f for e, f, _ in S.records() if e.kind == 'setsub' or e.op in ('setdefault', 'update')}
    priors = set(fields_from(c, 'prior_simple')) | set(fields_from(c, 'prior_chained'))
    for v in vals:
        if not (v.op == 'alloc' and strip_alloc(v).op == 'new' and strip_alloc(v).args[0].endswith('.Expression')):
            c.skip(rule, fi, show(v, 4))
            continue
        f = {k: x for (o, k), x in r.state.heap.items() if o is v}

        def one(name, test, text):
            for y in leaves(f[name]) if name in f else ():
                ok = test(y)
                if ok is None:
                    c.skip(rule, fi, f'{name}: {show(y, 5)}')
                else:
                    c.ob(rule, fi, ok, f'{text}', f'{name} of a parsed expression is {show(y, 5)}')
            if name not in f:
                c.skip(rule, fi, f'{name} is not set')
        split = [y for e in r.events for y in [e.value] if y is not None and y.op == 'call' and callname(y) and callname(y).endswith('_split_filter')]
        trs = [y for e in r.events for y in [e.value] if y is not None and y.op == 'mcall' and y.args[0] == 'visit']
        one('raw', lambda y: y is src, 'the text given is kept')
        if split:
            sp = split[0]
            one('filter_', lambda y: y is sub(sp, const(1)) or (None if contains(y, sp) else False), 'the filter is kept')
            parsed = [y for e in r.events for y in [e.value] if y is not None and callname(y) == 'ast.parse']
            for y in parsed:
                a = callargs(y)[0] if callargs(y) else None
                c.ob(rule, fi, a is not None and (a is sub(sp, const(0)) or callname(a) is None and contains(a, sub(sp, const(0)))),
                     'the part before the filter is parsed', f'{show(a, 4) if a is not None else "nothing"} is parsed')
        else:
            c.skip(rule, fi, 'filters are split off in another way')
        one('transformed', lambda y: any(contains(y, x) for x in trs) or (None if not trs else False), 'the translated expression is kept')
        for y in trs:
            a = y.args[2][0] if y.args[2] else None
            ok = a is not None and any(z.op == 'attr' and z.args[1] == 'body' or callname(z) == 'ast.parse' for z in walk(a, True))
            c.ob(rule, fi, ok, 'the whole expression is translated', f'{show(a, 4) if a is not None else "nothing"} is translated')
        one('symbols', lambda y: source_field(r, y, sets['simple'] - priors, priors, sets), 'all symbols visited are recorded')
        one('chains', lambda y: source_field(r, y, sets['chains'], priors, sets), 'all lookups are recorded')
        one('dict_literals', lambda y: source_field(r, y, sets['dicts'], priors, sets), 'all dict literals are recorded')
    # symbols visited are only those of this expression
    fi, r, fs = init_view(c)
    for f in (sets['simple'] - priors) | sets['chains'] | sets['dicts']:
        for y in leaves(fs[f]) if f in fs else ():
            fresh = y.op == 'alloc' and (len(strip_alloc(y).args) == 1 and strip_alloc(y).op == 'lit' or strip_alloc(y).op == 'dictlit' and not
                                         strip_alloc(y).args or callname(strip_alloc(y)) is not None and not callargs(strip_alloc(y)))
            c.ob(rule, fi, fresh, f'{f} of a parser starts empty', f'{f} of a parser starts with {show(y, 4)}')
    all_ = c.run(c.p.prop('cheval.parsing.expressions.Expression.all_symbols')) if hasattr(c.p, 'prop') else None


def source_field(r, y, good, priors, sets):
    """The value of a field of an expression: is it what the transformer recorded?"""
    fs = {z.args[1] for z in walk(y, True) if z.op == 'attr'}
    if y.op == 'attr':
        if y.args[1] in good:
            return True
        return False if y.args[1] in priors or any(y.args[1] in s for s in sets.values()) else None
    if y.op == 'param' and y.args[0].startswith('prior_'):
        return False
    obj = strip_st(y)
    for (o, k), v in r.state.heap.items():
        if k in good and strip_st(v) is obj:
            return True
    for (o, k), v in r.state.heap.items():
        if strip_st(v) is obj and o.op == 'alloc' and strip_alloc(o).op == 'new' and strip_alloc(o).args[0] == TR:
            return False       # another container of the parser, or one that nothing is recorded in
    if fs & good:
        return True if callname(obj) in ('builtins.set', 'builtins.dict', 'builtins.frozenset', 'copy.copy') else None
    return None



# ------------------------------------------------------------------------------------------------ refusals
def NO_EXTRA(me):
    """Attributes that syntax nodes do not have in the Python versions supported."""
    return [(t('hasattr', t('param', 'node'), const(a)), False) for a in ('starargs', 'kwargs')] + \
        [(cmp('Is', t('attr', t('param', 'node'), a), NONE), True) for a in ('starargs', 'kwargs')]


def refused(c, fi, what, tmpl, facts=(), rule='refused'):
    S = Shape(c, tmpl, facts=facts)
    got = [x for x in S.results(facts)]
    if S.value is not None:
        # conditions under which a result is returned
        for e in S.events:
            if e.kind == 'return' and not infeasible(e.facts()) and not contradicts(e.facts(), facts):
                pass
    c.ob(rule, fi, not got, f'{what} is refused', f'{what} becomes {shown(S.norm(got[0])) if got else ""}')
    return S


def contradicts(fs, facts):
    have = set(lits(list(fs)))
    return any((l, not p) in have for l, p in facts)


def p31(c):
    fi = c.p.fn(f'{TR}.visit')
    name = N('Name', id='x', ctx=N('Load'))
    gen = N('comprehension', target=name, iter=X, ifs=[], is_async=0)
    forms = {
        'a conditional expression': N('IfExp', test=X, body=X, orelse=X),
        'a subscript': N('Subscript', value=X, slice=X, ctx=N('Load')),
        'a lambda': N('Lambda', args=X, body=X),
        'a set': N('Set', elts=[X]),
        'a list comprehension': N('ListComp', elt=X, generators=[gen]),
        'a set comprehension': N('SetComp', elt=X, generators=[gen]),
        'a dict comprehension': N('DictComp', key=X, value=X, generators=[gen]),
        'a generator': N('GeneratorExp', elt=X, generators=[gen]),
        'a starred expression': N('Starred', value=X, ctx=N('Load')),
        'a formatted text': N('JoinedStr', values=[X]),
        'await': N('Await', value=X),
        'yield': N('Yield', value=X),
        'yield from': N('YieldFrom', value=X),
        'an assignment': N('NamedExpr', target=name, value=X),
    }
    for what, tm in forms.items():
        refused(c, fi, what, tm)
    known = {x.kind for x in forms.values()} | {'BoolOp', 'BinOp', 'UnaryOp', 'Compare', 'Call', 'Constant', 'Name', 'Attribute',
                                                'Dict', 'List', 'Tuple', 'FormattedValue', 'Slice'}
    for k in ast.expr.__subclasses__():
        if k.__name__ not in known and k.__module__ in ('ast', '_ast') and not issubclass(k, ast.Constant):
            refused(c, fi, f'an expression of class {k.__name__}', N(k.__name__, **{f: X for f in k._fields}))
    for op in ODD:
        for n in (1, 2, 3):
            for pos in range(n):
                ops = ['Lt'] * n
                ops[pos] = op
                refused(c, fi, f'"{op}" (place {pos + 1} of {n})', N('Compare', left=X, ops=[N(o) for o in ops], comparators=[X] * n))
    # functions
    S = Shape(c, N('Call', func=N('Name', id=X, ctx=N('Load')), args=[X], keywords=[]))
    calls = [e for e in S.events if e.kind == 'return' and e.frames[-1].qual == fi.qual]
    fn = t('param', 'func.id')
    base = [g for g in lits(sum([list(e.facts()) for e in calls], []))] if calls else []
    known_fn = [(l, p) for e in calls for l, p in lits(e.facts()) if contains(l, fn)]
    ok = all(any(p and l.op == 'cmp' and l.args[0] in ('in', '==') and contains(l, fn) or not p and l.op == 'cmp' and l.args[0] == 'in' and False
                 for l, p in lits(e.facts())) for e in calls)
    # conditions that hold for all names but some (or for all that look a certain way) admit unknown functions
    endless = all(not p and (l.op == 'cmp' and l.args[0] in ('in', '==') or l.op == 'mcall') for l, p in known_fn)
    if ok or endless:
        c.ob('functions', fi, bool(calls) and ok, 'only known functions are accepted', 'functions of any name are accepted')
    else:
        c.skip('functions', fi, show(known_fn[0][0], 5))
    for l, p in known_fn:
        if l.op == 'cmp' and l.args[0] == 'in' and p:
            coll = names_in(c, l.args[2])
            if coll is None:
                c.skip('functions', fi, show(l.args[2], 4))
            else:
                c.ob('functions', fi, coll == 'numexpr', 'the functions accepted are those of numexpr', f'the functions accepted are {coll}')
    kw = N('keyword', arg='k', value=X)
    refused(c, fi, 'a function with keywords', N('Call', func=N('Name', id=X, ctx=N('Load')), args=[X], keywords=[kw]))
    # aggregations
    link = N('Attribute', attr='a', value=N('Name', id='t', ctx=N('Load')), ctx=N('Load'))

    def agg(f, base=link, **k):
        return N('Call', func=N('Attribute', attr=f, value=base, ctx=N('Load')), **{'args': [X], 'keywords': [], **k})
    extra = tuple(NO_EXTRA(None))
    free = extra + tuple((t('cmp', 'in', const('t'), t('attr', t('param', 'self'), f)), False) for f in ('simple_symbols',))
    for f in ('apply', 'values', 'mode', 'size', 'rolling', 'nunique', 'sort_values', '__class__', 'quantile'):
        refused(c, fi, f'the aggregation {f}()', agg(f), extra, 'aggregations')
    for n in (0, 2):
        refused(c, fi, f'an aggregation of {n} expressions', agg('sum', args=[X] * n), extra, 'aggregations')
    refused(c, fi, 'an aggregation with keywords', agg('sum', keywords=[kw]), extra, 'aggregations')
    for f in ('count', 'first', 'last', 'max', 'min', 'mean', 'median', 'prod', 'std', 'sum', 'var'):
        S = Shape(c, agg(f), facts=extra)
        c.ob('aggregations', fi, bool(S.results(extra)), f'{f}() is an aggregation', f'the aggregation {f}() is refused')
    # attributes of anything but a name
    for what, base in (('a function', N('Call', func=N('Name', id='exp', ctx=N('Load')), args=[X], keywords=[])),
                       ('an operation', N('BinOp', op=N('Add'), left=X, right=X)), ('a text', N('Constant:str', value='abc'))):
        refused(c, fi, f'an attribute of {what}', N('Attribute', attr='a', value=base, ctx=N('Load')))
        refused(c, fi, f'an aggregation of {what}', agg('sum', base), extra)
        refused(c, fi, f'an attribute of an attribute of {what}', N('Attribute', attr='b', ctx=N('Load'), value=N(
            'Attribute', attr='a', value=base, ctx=N('Load'))))
    # dict literals
    md = modes(c)
    one = N('Constant:int', value=1)

    def dict_(k=None, v=None):
        k, v = k or N('Name', id='A', ctx=N('Load')), v or one
        return N('Dict', keys=[N('Name', id='B', ctx=N('Load')), k], values=[one, v])
    for what, v in (('a text', N('Constant:str', value='abc')), ('a name', N('Name', id='x', ctx=N('Load'))),
                    ('an operation', N('BinOp', op=N('Add'), left=one, right=one)), ('None', N('Constant:NoneType', value=None)),
                    ('minus a name', N('UnaryOp', op=N('USub'), operand=N('Name', id='x', ctx=N('Load')))),
                    ('"not" of a number', N('UnaryOp', op=N('Not'), operand=one)), ('"~" of a number', N('UnaryOp', op=N('Invert'), operand=one)),
                    ('another dict', N('Dict', keys=[N('Name', id='C', ctx=N('Load'))], values=[one]))):
        refused(c, fi, f'a dict literal with {what} as a value', dict_(v=v))
    for what, k in (('a number', one), ('an operation', N('BinOp', op=N('Add'), left=X, right=X)),
                    ('a function', N('Call', func=N('Name', id='exp', ctx=N('Load')), args=[X], keywords=[]))):
        refused(c, fi, f'a dict literal with {what} as a key', dict_(k=k))
    if md is None:
        c.skip('contexts', fi, 'modes of evaluation')
    else:
        for m in md:
            S = Shape(c, dict_(), facts=mode_facts(md, m))
            got = [x for x in S.results(mode_facts(md, m))]
            rets = [e for e in S.events if e.kind == 'return' and e.frames[-1].qual == fi.qual and not contradicts(e.facts(), mode_facts(md, m))]
            ok = bool(got) and bool(rets)
            c.ob('contexts', fi, ok == (m == 'UTILITIES'), f'dict literals are {"accepted" if m == "UTILITIES" else "refused"} for {m}',
                 f'dict literals are {"accepted" if ok else "refused"} for {m}')
    filters(c, md)
    frame_mode(c, md)


def names_in(c, coll):
    """'numexpr' if the collection holds the functions of numexpr."""
    q = coll.args[0] if coll.op == 'glob' else None
    if q is not None:
        m, _, n = q.rpartition('.')
        if q.startswith('numexpr.expressions.functions'):
            return 'numexpr'
        mod = c.p.modules.get(m)
        if mod is None:
            return None
        found = None
        for st in mod.tree.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and any(isinstance(x, ast.Name) and x.id == n for x in (
                    st.targets if isinstance(st, ast.Assign) else [st.target])):
                found = st.value if found is None else False
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == n:
                return 'something else'
        if not found:
            return None
        qs = {c.p.resolve_expr(mod, x) for x in ast.walk(found) if isinstance(x, (ast.Attribute, ast.Name))}
        if 'numexpr.expressions.functions' in qs:
            if any(isinstance(x, (ast.BinOp, ast.BitOr, ast.Set)) for x in ast.walk(found)):
                return None
            return 'numexpr'
        return None
    if any(x.op == 'glob' and x.args[0].startswith('numexpr.expressions.functions') for x in walk(coll, True)):
        return 'numexpr'
    if coll.op == 'lit':
        return 'listed'
    return None


def modes(c):
    q = 'cheval.parsing.expr_items.EvaluationMode'
    cls = c.p.classes.get(q)
    if cls is None:
        return None
    out = [k for k in cls.attrs if not k.startswith('_')]
    return out if 'UTILITIES' in out and len(out) > 1 else None


def mode_facts(md, m, x=None):
    x = x if x is not None else t('attr', t('param', 'self'), 'mode')
    out = []
    for k in md:
        g = t('glob', f'cheval.parsing.expr_items.EvaluationMode.{k}')
        for op in ('Eq', 'Is'):
            f = cmp(op, x, g)
            if f.op != 'const':
                out.append((f, k == m))
    return tuple(out)


def filters(c, md):
    """Filters: one at most, only for utilities, split off at the '@'."""
    fi = c.p.fn('cheval.parsing.expressions.Expression.parse')
    r = c.run(fi)
    src = r.params[fi.node.args.args[0].arg]
    mode = r.params.get('mode')
    parts = {y for e in r.events for x in [e.value] if isinstance(x, T) for y in walk(x, True)
             if y.op == 'mcall' and y.args[0] == 'split' and y.args[1] is src}
    if len(parts) != 1 or mode is None:
        c.skip('filters', fi, 'filters are split off in another way')
        return
    p = parts.pop()
    c.ob('filters', fi, len(p.args[2]) == 1 and is_const(p.args[2][0], '@') and not p.args[3], "filters follow a '@'", f'split by {show(p, 3)}')
    parsed = [e for e in r.events if e.kind == 'call' and callname(e.value) == 'ast.parse']
    n = t('len', p)
    for k in (1, 2, 3, 4):
        facts = tuple((cmp('Eq', n, const(j)), j == k) for j in (1, 2, 3, 4)) + tuple((cmp('Lt', n, const(j)), k < j) for j in (1, 2, 3, 4)) + \
            tuple((cmp('Lt', const(j), n), j < k) for j in (1, 2, 3)) + tuple((cmp('LtE', n, const(j)), k <= j) for j in (1, 2, 3)) + \
            tuple((cmp('LtE', const(j), n), j <= k) for j in (1, 2, 3))
        for m in md or ('UTILITIES',):
            fs = facts + (mode_facts(md, m, mode) if md else ())
            through = [e for e in parsed if reachable_(e, fs)]
            want = k == 1 or k == 2 and m == 'UTILITIES'
            c.ob('filters', fi, bool(through) == want, f'{k - 1} filters in an expression for {m} are {"accepted" if want else "refused"}',
                 f'{k - 1} filters in an expression for {m} are {"accepted" if through else "refused"}')
            for e in through if want else ():
                a = spec(callargs(e.value)[0], fs)
                a = stripped(a)
                good = a is sub(p, const(0)) or k == 1 and a is src
                c.ob('filters', e, good, 'the part before the filter is the expression', f'the expression is {show(a, 4)}')
    for v in leaves(r.value):
        f = {k: x for (o, k), x in r.state.heap.items() if o is v}
        if 'filter_' not in f:
            continue
        for k in (1, 2):
            fs = tuple((cmp('Eq', n, const(j)), j == k) for j in (1, 2)) + tuple((cmp('Lt', const(j), n), j < k) for j in (1, 2))
            for y in leaves(f['filter_'], fs):
                y = stripped(y)
                ok = is_const(y, None) if k == 1 else y is sub(p, const(1))
                c.ob('filters', fi, ok, 'the filter is the part after the "@"' if k == 2 else 'no filter without "@"', f'the filter is {show(y, 4)}')


def frame_mode(c, md):
    """Expressions over linked frames are parsed as such."""
    from .frames import LDF
    from .rules_ldf import Parsed, Witness, as_array, plain_array
    if not md or c.p.lookup(LDF, 'evaluate') is None:
        return
    fi = c.p.fn(f'{LDF}.evaluate')
    parsed = Parsed(c, {'E': (('v',), {})})
    Witness(c, 'mode', 'def mode(d):\n    f = LinkedDataFrame(d)\n    return f.evaluate("E")\n', 'expressions of a frame',
            calls={'parse': parsed, 'convert_series': as_array, 'to_numpy': plain_array})
    ms = [strip_st(m) for m in parsed.modes]
    if not ms or any(m.op != 'glob' and not is_const(m) for m in ms):
        c.skip('frame-mode', fi, 'how the expressions of a frame are parsed')
    for m in ms:
        if m.op == 'glob' or is_const(m):
            c.ob('frame-mode', fi, m.op == 'glob' and not m.args[0].endswith('.UTILITIES'), 'expressions of a frame: dict literals and filters are refused',
                 f'expressions of a frame are parsed with {show(m, 3)}: dict literals and filters are accepted')


def stripped(x):
    x = strip_st(x)
    while x.op == 'mcall' and x.args[0] in ('strip', 'lstrip', 'rstrip') and not x.args[2]:
        x = strip_st(x.args[1])
    return x


def reachable_(e, facts):
    have = list(facts)
    for g, p, k in e.guards:
        d = decide(spec(g, facts), have)
        if d is not None and d is not p:
            return False
    return not infeasible(tuple(facts) + tuple(e.facts()))


RULES = {'P30': p30, 'P31': p31}
