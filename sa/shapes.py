"""The value-flow interpreter, exact about the shape of small sequences and of syntax nodes.

Used for code whose behaviour depends on the number of elements it is given (folds over operands, paths of attributes,
keys of dict literals).  Sequences of known length keep their elements through append/pop/slice/zip/..., loops over them
and loops whose condition is decided by them are unrolled, and `isinstance`, `type` and dispatch by class name are
decided for nodes of known class.  Everything else (names, values, children of nodes) stays symbolic.
"""
from __future__ import annotations

import ast

from .interp import (FALSE, NONE, TRUE, UNDEF, Domain, Interp, LoopCtx, Loop, LOOPS, T, conj, const, cval, decide, fstr,
                     glob, is_const, nneg, strip_alloc, strip_st, sub, t, truth)

LIMIT = 60


class ShapeInterp(Interp):
    def __init__(self, project, **kw):
        self.hooks = kw.pop('hooks', {})
        self.kinds = kw.pop('kinds', {})
        self.heap0 = kw.pop('heap', {})
        self.attrs = kw.pop('attrs', {})
        self.turn = ()
        super().__init__(project, **kw)

    def exec_function(self, fr, params, node):
        if not self.stack:
            for (o, f), v in self.heap0.items():
                self.s.heap[(o, f)] = v
        return super().exec_function(fr, params, node)

    def site(self, node):
        return super().site(node) + ((self.turn,) if self.turn else ())

    def blocked(self, f):
        if f.name in self.noinline or f.qual in self.noinline or self.pred is not None and not self.pred(f):
            return True
        return len(self.stack) >= self.max_depth * 2 or sum(fr.fi.qual == f.qual for fr in self.stack) > 6

    # ---------------------------------------------------------------------------------------- sequences
    def elems(self, v):
        """The elements of a sequence of known length, or None."""
        if v.op == 'tup':
            return None if any(x.op == 'star' for x in v.args) else list(v.args)
        if v.op == 'lit':
            return list(v.args[1:]) if v.args[0] in ('list', 'tuple') and not any(x.op == 'star' for x in v.args[1:]) else None
        if v.op == 'st' or v.op == 'alloc':
            o = strip_st(v)
            c = self.s.heap.get((o, '#')) if self.s is not None else None
            if c is not None:
                return self.elems(c) if c.op == 'lit' else None
            if v.op == 'st':
                return self.elems(v.args[1]) if v.args[1].op == 'lit' else None
            return self.elems(o.args[0])
        if v.op == 'call' and v.args[0].op == 'glob' and v.args[0].args[0] in (
                'builtins.list', 'builtins.tuple', 'collections.deque', 'builtins.iter') and not v.args[2]:
            if not v.args[1]:
                return []
            return self.elems(v.args[1][0]) if len(v.args[1]) == 1 else None
        return None

    def known_len(self, v):
        return self.elems(v)

    def seq(self, xs, e):
        return self.alloc(t('lit', 'list', *xs), e)

    def mutating(self, o, name, args, kwargs, e):
        xs = self.elems(o) if strip_st(o).op != 'tup' else None
        ys = self.elems(args[0]) if args and name in ('extend', 'extendleft') else None
        r = super().mutating(o, name, args, kwargs, e)
        if xs is None or kwargs:
            return r
        new, out = None, NONE
        k = cval(args[0]) if args and is_const(args[0]) and isinstance(cval(args[0]), int) else None
        if name == 'append':
            new = xs + [self.val(args[0])]
        elif name == 'appendleft':
            new = [self.val(args[0])] + xs
        elif name == 'extend' and ys is not None:
            new = xs + ys
        elif name == 'extendleft' and ys is not None:
            new = ys[::-1] + xs
        elif name == 'insert' and k is not None:
            new = list(xs)
            new.insert(k, self.val(args[1]))
        elif name in ('pop', 'popleft') and xs and (not args or k is not None):
            new = list(xs)
            try:
                out = new.pop(0 if name == 'popleft' else -1 if not args else k)
            except IndexError:
                return r
        elif name == 'reverse':
            new = xs[::-1]
        elif name == 'clear':
            new = []
        elif name == 'rotate' and (k is not None or not args) and xs:
            n = (k if args else 1) % len(xs)
            new = xs[-n:] + xs[:-n] if n else xs
        if new is None:
            return r
        self.s.heap[(strip_st(o), '#')] = t('lit', 'list', *new)
        return out

    def setsub(self, o, k, v, node, aug=None, operand=None):
        xs = self.elems(o) if strip_st(o).op in ('alloc',) else None
        super().setsub(o, k, v, node, aug, operand)
        if xs is not None and is_const(k) and isinstance(cval(k), int) and -len(xs) <= cval(k) < len(xs):
            xs[cval(k)] = self.val(v)
            self.s.heap[(strip_st(o), '#')] = t('lit', 'list', *xs)

    def read_sub(self, o, k):
        xs = self.elems(o)
        if xs is not None:
            if is_const(k) and isinstance(cval(k), int) and -len(xs) <= cval(k) < len(xs):
                return xs[cval(k)]
            if k.op == 'slice' and all(is_const(a) for a in k.args):
                ys = xs[slice(*[cval(a) for a in k.args])]
                return t('tup', *ys) if strip_alloc(strip_st(o)).op == 'tup' else t('lit', 'list', *ys)
        return super().read_sub(o, k)

    def unpack(self, v, i):
        xs = self.elems(v)
        if xs is not None and i < len(xs):
            return xs[i]
        return super().unpack(v, i)

    def assign(self, tg, v, node):
        if isinstance(tg, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Starred) for x in tg.elts):
            xs = self.elems(v)
            if xs is not None and len(xs) >= len(tg.elts) - 1:
                i = next(j for j, x in enumerate(tg.elts) if isinstance(x, ast.Starred))
                m = len(tg.elts) - 1 - i
                for x, y in zip(tg.elts[:i], xs[:i]):
                    self.assign(x, y, node)
                self.assign(tg.elts[i].value, self.seq(xs[i:len(xs) - m], node), node)
                for x, y in zip(tg.elts[i + 1:], xs[len(xs) - m:]):
                    self.assign(x, y, node)
                return
        elif isinstance(tg, (ast.Tuple, ast.List)):
            xs = self.elems(v)
            if xs is not None and len(xs) != len(tg.elts):
                self.do_raise(node, t('call', glob('builtins.ValueError'), (), ()))
                return
        super().assign(tg, v, node)

    def length(self, x):
        xs = self.elems(x)
        return const(len(xs)) if xs is not None else super().length(x)

    def truthy(self, v):
        xs = self.elems(v)
        return const(len(xs) > 0) if xs is not None else super().truthy(v)

    def term_domain(self, v):
        xs = self.elems(v)
        if xs is not None and len(xs) <= LIMIT:
            return Domain(v, lambda iv: sub(v, iv), unroll=xs)
        return super().term_domain(v)

    def e_BinOp(self, e):
        if isinstance(e.op, (ast.Add, ast.Mult)):
            a, b = self.ev(e.left), self.ev(e.right)
            if self.s is None:
                return UNDEF
            xs, ys = self.elems(a), self.elems(b)
            if isinstance(e.op, ast.Add) and xs is not None and ys is not None:
                return t('tup', *xs, *ys) if strip_alloc(a).op == 'tup' else self.seq(xs + ys, e)
            for p, q in ((xs, b), (ys, a)):
                if isinstance(e.op, ast.Mult) and p is not None and is_const(q) and isinstance(cval(q), int):
                    zs = p * cval(q)
                    return t('tup', *zs) if strip_alloc(a if p is xs else b).op == 'tup' else self.seq(zs, e)
        return super().e_BinOp(e)

    def e_Tuple(self, e):
        xs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                ys = self.elems(v) if self.s is not None else None
                xs.extend(ys) if ys is not None else xs.append(t('star', v))
            else:
                xs.append(self.ev(x))
            if self.s is None:
                return UNDEF
        return t('tup', *xs)

    def comp(self, e, kind):
        s0, n0, q0 = self.s.copy(), len(self.events), self.nseq
        r = self.exact_comp(e, kind)
        if r is not None:
            return r
        self.s = s0
        del self.events[n0:]
        self.nseq = q0
        return super().comp(e, kind)

    def failed_comp(self):
        return False

    def exact_comp(self, e, kind):
        if kind not in ('list', 'gen', 'dict'):
            return None
        fr = self.stack[-1]
        saved = dict(self.s.envs[fr.fid])
        g0 = self.s.guards
        out = []

        def go(i):
            if i == len(e.generators):
                out.append((self.ev(e.key), self.ev(e.value)) if kind == 'dict' else self.ev(e.elt))
                return self.s is not None
            g = e.generators[i]
            dom = self.domain(g.iter)
            if self.s is None or dom.unroll is None:
                return False
            for j, x in enumerate(dom.unroll):
                old, self.turn = self.turn, self.turn + (j,)
                self.assign(g.target, x, e)
                ok = True
                for c in g.ifs:
                    v = decide(self.cond(c), self.s.facts())
                    if v is None:
                        self.turn = old
                        return False
                    ok = ok and v
                    if not v:
                        break
                if ok and not go(i + 1):
                    self.turn = old
                    return False
                self.turn = old
            return True
        done = go(0)
        if self.s is None and self.failed_comp():
            return UNDEF
        if not done or self.s is None or self.s.guards != g0:
            return None
        self.s.envs[fr.fid] = {**saved, **{k: v for k, v in self.s.envs[fr.fid].items() if k in saved and False}}
        if kind == 'dict':
            return self.alloc(t('dictlit', *[(a, b) for a, b in out]), e)
        return self.seq(out, e) if kind == 'list' else t('lit', 'list', *out)

    # ---------------------------------------------------------------------------------------- loops
    def x_While(self, n):
        for i in range(LIMIT):
            s0, n0 = self.s.copy(), len(self.events)
            c = self.cond(n.test)
            if self.s is None:
                return
            v = decide(c, self.s.facts())
            if v is None:
                self.s = s0
                del self.events[n0:]
                return super().x_While(n)
            if v is False:
                if n.orelse:
                    self.block(n.orelse)
                return
            done = self.one_turn(n, i, None)
            if done is not None:      # left by break
                brk, base = done
                if self.s is None:
                    self.s = brk
                    return
                raise_undecided = brk
                s_end = self.s
                self.s = s_end
                self.x_While(n)
                c = conj(*[g if p else nneg(g) for g, p, _ in raise_undecided.guards[base:]])
                self.s = self.merge(c, raise_undecided, self.s, base) if self.s is not None else raise_undecided
                return
            if self.s is None:
                return
        return super().x_While(n)

    def one_turn(self, n, i, elem):
        base = len(self.s.guards)
        ctx = LoopCtx()
        ctx.base, ctx.fid = self.s.guards, self.stack[-1].fid
        self.loops.append((None, ctx))
        old, self.turn = self.turn, self.turn + (i,)
        if elem is not None:
            self.assign(n.target, elem, n)
        self.block(n.body)
        self.turn = old
        self.loops.pop()
        end = self.s
        for cs, _ in reversed(ctx.continues):
            end = self.merge(conj(*[g if p else nneg(g) for g, p, _ in cs.guards[base:]]), cs, end, base) \
                if end is not None else cs
        brk = None
        for b, _ in reversed(ctx.breaks):
            brk = self.merge(conj(*[g if p else nneg(g) for g, p, _ in b.guards[base:]]), b, brk, base) if brk is not None else b
        self.s = end
        return (brk, base) if brk is not None else None

    def unrolled(self, n, elems):
        def go(i):
            if i == len(elems):
                if n.orelse:
                    self.block(n.orelse)
                return
            done = self.one_turn(n, i, elems[i])
            if self.s is not None:
                go(i + 1)
            if done is not None:
                b, base = done
                c = conj(*[g if p else nneg(g) for g, p, _ in b.guards[base:]])
                self.s = self.merge(c, b, self.s, base) if self.s is not None else b
        go(0)

    def domain(self, e):
        if isinstance(e, ast.Call) and not e.keywords and not any(isinstance(a, ast.Starred) for a in e.args):
            q = self.p.resolve_expr(self.stack[-1].module, e.func)
            if q in ('builtins.reversed', 'itertools.pairwise', 'builtins.map', 'itertools.islice'):
                return self.term_domain(self.ev(e))
        return super().domain(e)

    # ---------------------------------------------------------------------------------------- calls
    def call(self, f, args, kwargs, e):
        if f.op == 'visitor':
            return self.hooks['visit'](self, args)
        return super().call(f, args, kwargs, e)

    def call_method(self, o, name, args, kwargs, e):
        if name in self.hooks and not kwargs:
            r = self.hooks[name](self, args)
            if r is not None:
                return r
        o2 = strip_st(o)
        if o2.op == 'const' and isinstance(cval(o2), str) and not kwargs and all(is_const(a) for a in args) and \
                name in ('lower', 'upper', 'strip', 'capitalize', 'startswith', 'endswith', 'title'):
            return const(getattr(cval(o2), name)(*[cval(a) for a in args]))
        if o2.op == 'const' and isinstance(cval(o2), str) and not kwargs and all(is_const(a) for a in args) and \
                name in ('split', 'rsplit', 'partition'):
            return self.seq([const(x) for x in getattr(cval(o2), name)(*[cval(a) for a in args])], e)
        if name in ('copy', '__copy__') and not args and not kwargs:
            xs = self.elems(o)
            if xs is not None:
                return self.seq(xs, e)
        if name == 'index' and len(args) == 1:
            xs = self.elems(o)
            if xs is not None and args[0] in xs:
                return const(xs.index(args[0]))
        return super().call_method(o, name, args, kwargs, e)

    def call_global(self, f, args, kwargs, e):
        q = f.args[0]
        n = q.split('.')[-1]
        ks = [self.kinds.get(strip_st(a)) for a in args]
        if q == 'builtins.type' and len(args) == 1 and ks[0]:
            return glob(ks[0].split(':')[0])
        if q == 'builtins.hasattr' and len(args) == 2 and is_const(args[1]):
            o = strip_st(args[0])
            c = self.class_of(o)
            if c is not None:
                if (o, cval(args[1])) in self.s.heap or self.p.lookup(c, cval(args[1])) is not None:
                    return TRUE
                bases = {b for k in self.p.mro(c) for b in k.bases}
                for b in bases or {'ast.NodeTransformer'}:
                    if b.startswith('ast.') and hasattr(getattr(ast, b[4:], None), cval(args[1])):
                        return TRUE
                return FALSE
        if q == 'builtins.getattr' and len(args) == 3 and is_const(args[1]):
            o = strip_st(args[0])
            c = self.class_of(o)
            if c is not None:
                if self.p.lookup(c, cval(args[1])) is not None:
                    return self.getattr_(o, cval(args[1]), e)
                if not hasattr(ast.NodeTransformer, cval(args[1])):
                    return args[2]
        if q in ('builtins.max', 'builtins.min', 'builtins.abs', 'builtins.sum') and args and not kwargs:
            xs = self.elems(args[0]) if len(args) == 1 and q != 'builtins.abs' else args
            if xs and all(is_const(a) and isinstance(cval(a), (int, float)) for a in xs):
                vs = [cval(a) for a in xs]
                return const(abs(vs[0]) if q.endswith('abs') else {'max': max, 'min': min, 'sum': sum}[n](vs))
        if q == 'builtins.sorted' and len(args) == 1 and list(kwargs) == ['reverse'] and is_const(kwargs['reverse']):
            xs = self.elems(args[0])
            if xs is not None and all(is_const(a) for a in xs):
                try:
                    return self.seq(sorted(xs, key=cval, reverse=bool(cval(kwargs['reverse']))), e)
                except TypeError:
                    pass
        if not kwargs and not any(a.op == 'star' for a in args):
            if q == 'functools.reduce' and len(args) in (2, 3):
                xs = self.elems(args[1])
                if xs is not None and (xs or len(args) == 3):
                    acc = args[2] if len(args) == 3 else xs.pop(0)
                    for x in xs:
                        acc = self.call(args[0], [acc, x], {}, e)
                        if self.s is None:
                            return UNDEF
                    return acc
            xss = [self.elems(a) for a in args]
            if q == 'builtins.map' and len(args) > 1 and all(x is not None for x in xss[1:]):
                out = []
                for i, ys in enumerate(zip(*xss[1:])):
                    old, self.turn = self.turn, self.turn + (i,)
                    out.append(self.call(args[0], list(ys), {}, e))
                    self.turn = old
                    if self.s is None:
                        return UNDEF
                return t('lit', 'list', *out)
            if args and all(x is not None for x in xss):
                if q == 'builtins.zip':
                    return t('lit', 'list', *[t('tup', *y) for y in zip(*xss)])
                if len(args) == 1:
                    xs = xss[0]
                    if q == 'builtins.sorted' and all(is_const(a) for a in xs):
                        try:
                            return self.seq(sorted(xs, key=cval), e)
                        except TypeError:
                            pass
                    if q == 'builtins.reversed':
                        return t('lit', 'list', *xs[::-1])
                    if q in ('builtins.list', 'collections.deque'):
                        return self.seq(xs, e)
                    if q == 'builtins.tuple':
                        return t('tup', *xs)
                    if q == 'builtins.iter':
                        return args[0]
                    if q == 'builtins.enumerate':
                        return t('lit', 'list', *[t('tup', const(i), x) for i, x in enumerate(xs)])
                    if q == 'itertools.pairwise':
                        return t('lit', 'list', *[t('tup', *y) for y in zip(xs, xs[1:])])
                    if q in ('builtins.any', 'builtins.all'):
                        from .terms import disj
                        return (disj if q.endswith('any') else conj)(*[self.truthy(x) for x in xs])
            if q == 'itertools.islice' and xss and xss[0] is not None and all(is_const(a) for a in args[1:]):
                return t('lit', 'list', *xss[0][slice(*[cval(a) for a in args[1:]])])
        if q in ('ast.copy_location', 'ast.fix_missing_locations', 'ast.increment_lineno') and args:
            return args[0]
        return super().call_global(f, args, kwargs, e)

    def star_items(self, v):
        return self.elems(v)

    # ---------------------------------------------------------------------------------------- nodes
    def isinstance_(self, x, c):
        k = self.kinds.get(strip_st(x))
        cs = self.elems(c)
        cs = cs if cs is not None else list(c.args[1:]) if c.op == 'lit' else [c]
        if k is not None and all(z.op == 'glob' and z.args[0].startswith('ast.') for z in cs):
            for z in cs:
                if node_is(k, z.args[0][4:]):
                    return TRUE
            return FALSE
        if k is None and strip_st(x).op == 'call' and strip_st(x).args[0].op == 'glob' and strip_st(x).args[0].args[0].startswith('ast.'):
            if all(z.op == 'glob' and z.args[0].startswith('ast.') for z in cs):
                return const(any(node_is(strip_st(x).args[0].args[0], z.args[0][4:]) for z in cs))
        return super().isinstance_(x, c)

    def getattr_(self, o, name, node):
        x = strip_st(o)
        k = self.kinds.get(x)
        if k is not None and name == '__class__':
            return glob(k.split(':')[0])
        if x.op == 'glob' and x.args[0].startswith('ast.') and name in ('__name__', '__qualname__'):
            return const(x.args[0][4:])
        if (x, name) not in self.s.heap and x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].startswith('ast.'):
            f = node_fields(x)
            if name in f:
                return f[name]
        if name in self.attrs and (x, name) not in self.s.heap and x.op not in ('param', 'alloc', 'glob') and \
                self.class_of(x) is None:
            return self.attrs[name]
        return super().getattr_(o, name, node)


def node_is(kind, name):
    """Is a node of this kind ('ast.BoolOp', 'ast.Constant:str') an instance of ast.<name>?"""
    k, _, v = kind.partition(':')
    if name in ('Num', 'Str', 'Bytes', 'NameConstant', 'Ellipsis'):
        return k == 'ast.Constant' and {'Num': ('int', 'float', 'complex'), 'Str': ('str',), 'Bytes': ('bytes',),
                                        'NameConstant': ('bool', 'NoneType'), 'Ellipsis': ('ellipsis',)}[name].count(v) > 0
    a, b = getattr(ast, k[4:], None), getattr(ast, name, None)
    return isinstance(a, type) and isinstance(b, type) and issubclass(a, b)


def node_fields(x):
    """The fields of a node that is built by a call."""
    x = strip_st(x)
    cls = x.args[0].args[0][4:]
    names = getattr(getattr(ast, cls, None), '_fields', ())
    out = dict(zip(names, x.args[1]))
    out.update(dict(x.args[2]))
    return out
