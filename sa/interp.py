"""Interprocedural gated value-flow interpreter over the syntax tree.

`Interp.run(fn, ...)` abstractly executes a function once, symbolically naming every value by a term (terms.py).
Branches are merged into gated terms, loops are summarised by their carried values (`mu` at the head of an iteration,
`eta` after the loop), calls to functions of the project are expanded, and every effect (call, store, mutation, raise,
return, yield ...) is recorded as an event together with the conditions and loops under which it happens.  No path is
enumerated, nothing is executed and no solver is used: conditions are compared by propositional simplification only.
"""
from __future__ import annotations

import ast

from .project import Broken, FuncInfo, own_nodes
from .terms import (FALSE, LOOPS, NONE, TRUE, Loop, T, _strparts, binop, boolish, cmp, conj, const, cval, decide, disj,
                    fstr, glob, is_const, literals, neg, nneg, phi, sub, subst, t, truth, walk)

UNDEF = t('undef')
_BIN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'BitAnd': '&',
        'BitOr': '|', 'BitXor': '^', 'MatMult': '@', 'LShift': '<<', 'RShift': '>>'}

MUTATORS = {'append', 'appendleft', 'extend', 'extendleft', 'insert', 'pop', 'popleft', 'popitem', 'remove', 'clear',
            'sort', 'reverse', 'update', 'setdefault', 'add', 'discard', 'difference_update', 'intersection_update',
            'symmetric_difference_update', 'fill', 'put', 'itemset', 'resize', 'partition', 'rotate'}
FRESH_CALLS = {'builtins.list', 'builtins.dict', 'builtins.set', 'collections.deque', 'numpy.zeros', 'numpy.ones',
               'numpy.full', 'numpy.empty', 'numpy.zeros_like', 'numpy.empty_like', 'numpy.ones_like',
               'numpy.full_like', 'numpy.array', 'numpy.copy', 'pandas.DataFrame', 'copy.copy', 'copy.deepcopy',
               'collections.OrderedDict', 'collections.defaultdict', 'pandas.Series', 'numpy.fromiter'}
FRESH_METHODS = {'copy', 'astype', 'tolist', 'flatten'}
VIEW_METHODS = {'view', 'reshape', 'ravel', 'transpose', 'to_numpy', 'squeeze', '__getitem__', 'swapaxes'}
VIEW_ATTRS = {'values', 'T', 'flat', 'loc', 'iloc', 'at', 'iat', 'array'}
VIEW_CALLS = {'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.atleast_2d', 'numpy.ravel',
              'numpy.reshape', 'numpy.transpose', 'numpy.squeeze'}
MAX_DEPTH = 16


class Event:
    __slots__ = ('kind', 'obj', 'key', 'value', 'op', 'func', 'args', 'kwargs', 'guards', 'loops', 'frames', 'node',
                 'file', 'seq', 'tries', 'fin', 'res', 'cands', 'fi', 'handler')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, None)
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)

    @property
    def loc(self):
        return f'{self.file}:{self.line}'

    @property
    def fn(self):
        return self.frames[-1] if self.frames else None

    def cond(self):
        return conj(*[g if p else nneg(g) for g, p, _ in self.guards])

    def facts(self):
        return [(g, p) for g, p, _ in self.guards]

    def __repr__(self):
        out = f'{self.loc} {self.kind}'
        for k in ('func', 'obj', 'key', 'op', 'value', 'args', 'kwargs'):
            v = getattr(self, k)
            if v not in (None, (), []):
                out += f' {k}={v!r}'
        if self.guards:
            out += '  IF ' + ' & '.join((('' if p else '!') + repr(g)) for g, p, _ in self.guards)
        if self.loops:
            out += f'  LOOPS {[LOOPS[k] for k in self.loops]}'
        return out


class State:
    __slots__ = ('envs', 'heap', 'guards', 'live')

    def __init__(self):
        self.envs, self.heap, self.guards, self.live = {}, {}, (), frozenset()

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.guards, s.live = self.guards, self.live
        return s

    def facts(self):
        return [(g, p) for g, p, _ in self.guards]


class Frame:
    def __init__(self, fid, fi, module, cls, parent=None):
        self.fid, self.fi, self.module, self.cls, self.parent = fid, fi, module, cls, parent
        self.returns = []
        self.base = ()
        self.locals = set()
        self.nonlocals = set()


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues, self.exits = [], [], []
        self.base = ()


class Domain:
    def __init__(self, dom, elem, parallel=False, unroll=None, conds=None, zero_based=True):
        self.dom, self.elem, self.parallel, self.unroll = dom, elem, parallel, unroll
        self.conds = conds or (lambda iv: [])
        self.zero_based = zero_based


class Result:
    def __init__(self, interp, fi, params):
        self.interp, self.fi, self.params = interp, fi, params
        self.events, self.returns, self.state, self.value = [], [], None, None

    def select(self, kind=None, pred=None):
        return [e for e in self.events if (kind is None or e.kind == kind) and (pred is None or pred(e))]


class Interp:
    def __init__(self, project, noinline=(), opaque_props=(), max_depth=MAX_DEPTH, pred=None, inline_njit=True):
        self.p = project
        self.noinline = set(noinline)
        self.opaque_props = set(opaque_props)
        self.pred = pred
        self.inline_njit = inline_njit
        self.max_depth = max_depth
        self.types = {}
        self.clos = {}
        self.alloc_info = {}
        self.alloc_loops = {}
        self.functions_seen = set()
        self.nseq = 0

    # ------------------------------------------------------------------------------------------ entry
    def run(self, fi: FuncInfo, bind=None, facts=(), self_cls=None, types=None) -> Result:
        self.s = State()
        self.silent = 0
        self.events = []
        self.stack = []
        self.loops = []
        self.tries = []
        self.fin = 0
        self.uses = 0
        bind = dict(bind or {})
        params = {}
        node = fi.node
        a = node.args
        plain = [x.arg for x in a.posonlyargs + a.args]
        for i, name in enumerate(plain + [x.arg for x in a.kwonlyargs]):
            if name in bind:
                v = bind[name]
            else:
                v = t('param', name)
            params[name] = v
        if a.vararg:
            params[a.vararg.arg] = bind.get(a.vararg.arg, t('param', '*' + a.vararg.arg))
        if a.kwarg:
            params[a.kwarg.arg] = bind.get(a.kwarg.arg, t('param', '**' + a.kwarg.arg))
        cls = self_cls or (fi.cls.qual if fi.cls is not None else None)
        if cls is not None and not fi.is_static and plain:
            if not fi.is_classmethod:
                self.types[params[plain[0]]] = ('C', cls)
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None and params[x.arg].op in ('param', 'nonnull') and params[x.arg] not in self.types:
                ty = self.parse_type(x.annotation, fi.module, fi.cls)
                if ty is not None:
                    self.types[params[x.arg]] = ty
        for k, v in (types or {}).items():
            self.types[k] = v
        for c, pol in facts:
            self.s.guards += ((c, pol, 'assume'),)
        res = Result(self, fi, params)
        fr = Frame((fi.qual,), fi, fi.module, fi.cls)
        res.value = self.exec_function(fr, params, node)
        res.state = self.s
        res.events = self.events
        res.returns = fr.returns
        res.frame = fr
        return res

    # ------------------------------------------------------------------------------------------ events
    def emit(self, kind, node, **kw):
        if self.silent:
            return None
        self.nseq += 1
        fr = self.stack[-1]
        e = Event(kind=kind, node=node, file=fr.module.relpath, seq=self.nseq, guards=self.s.guards,
                  loops=tuple(l for l, _ in self.loops), frames=tuple(f.fi for f in self.stack),
                  tries=tuple(self.tries), fin=self.fin, **kw)
        self.events.append(e)
        return e

    def site(self, node):
        fr = self.stack[-1]
        return (fr.fid, fr.module.relpath, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
                getattr(node, 'end_col_offset', 0))

    def guard(self, c, pol, kind):
        while c.op in ('not', 'bool'):
            pol = pol if c.op == 'bool' else not pol
            c = c.args[0]
        self.s.guards += ((c, pol, kind),)

    # ------------------------------------------------------------------------------------------ functions
    def exec_function(self, fr: Frame, params, node):
        self.functions_seen.add(fr.fi.qual)
        fr.base = self.s.guards
        self.s.envs[fr.fid] = dict(params)
        fr.locals = set(params) | assigned_names(node)
        for n in own_nodes(node):
            if isinstance(n, ast.Nonlocal):
                fr.nonlocals.update(n.names)
        fr.locals -= fr.nonlocals
        self.stack.append(fr)
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body)
            fr.returns.append((self.s, v))
        else:
            self.block(node.body)
            if self.s is not None:
                fr.returns.append((self.s, NONE))
        self.stack.pop()
        return self.join_returns(fr)

    def join_returns(self, fr):
        if not fr.returns:
            self.s = None
            return UNDEF
        n = len(fr.base)
        st, val = fr.returns[-1]
        for s2, v2 in reversed(fr.returns[:-1]):
            c = conj(*[g if p else nneg(g) for g, p, _ in s2.guards[n:]])
            merged = self.merge(c, s2, st, n)
            val = phi(c, v2, val)
            st = merged
        st.envs.pop(fr.fid, None) if len(self.stack) else None
        # what holds whenever the function returns: otherwise it has raised
        st.guards = st.guards[:n] + tuple((g, p, 'survive' if k == 'if' else k) for g, p, k in st.guards[n:])
        self.s = st
        return val

    def merge(self, c, a, b, n):
        """State after a branch on `c`; `n` is the length of the common prefix of the guards."""
        if a is None:
            return b
        if b is None:
            return a
        out = State()
        for fid in set(a.envs) | set(b.envs):
            ea, eb = a.envs.get(fid), b.envs.get(fid)
            if ea is None or eb is None:
                out.envs[fid] = dict(ea or eb)
                continue
            d = {}
            for k in set(ea) | set(eb):
                d[k] = phi(c, ea.get(k, UNDEF), eb.get(k, UNDEF))
            out.envs[fid] = d
        for k in set(a.heap) | set(b.heap):
            x = a.heap.get(k) or self.heap_default(k)
            y = b.heap.get(k) or self.heap_default(k)
            out.heap[k] = phi(c, x, y)
        out.live = a.live | b.live
        base = a.guards[:n]
        ca = set(literals(c, True))
        cb = set(literals(c, False))
        ga = tuple(g for g in a.guards[n:] if not set(literals(g[0], g[1])) <= ca)
        gb = tuple(g for g in b.guards[n:] if not set(literals(g[0], g[1])) <= cb)
        keep = tuple(g for g in ga if g in gb)
        extra = []
        for g, p, _ in gb:
            if any(g is x and p == q for x, q, _ in keep):
                continue
            d = disj(c, g if p else nneg(g))
            if d is not TRUE:
                extra.append((d, True, 'implied'))
        for g, p, _ in ga:
            if any(g is x and p == q for x, q, _ in keep):
                continue
            d = disj(nneg(c), g if p else nneg(g))
            if d is not TRUE and truth(d) is None:
                extra.append((d, True, 'implied'))
        extra = [e for e in dict.fromkeys(extra) if e not in base][:12]
        out.guards = base + keep + tuple(extra)
        return out

    def heap_default(self, key):
        o, f = key
        return t('init', o) if f == '#' else t('attr', o, f)

    # ------------------------------------------------------------------------------------------ statements
    def block(self, stmts):
        for st in stmts:
            if self.s is None:
                return
            self.stmt(st)

    def stmt(self, n):
        m = getattr(self, 'x_' + n.__class__.__name__, None)
        if m is None:
            return self.x_other(n)
        m(n)

    def x_other(self, n):
        """Any other statement: its expressions are evaluated and each nested block may or may not run."""
        blocks = []
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        for b in ast.walk(n):
            if b is not n and isinstance(getattr(b, 'body', None), list) and b.__class__.__name__ == 'match_case':
                blocks.append(b.body)
        for i, b in enumerate(blocks):
            if self.s is None:
                return
            self.branch(t('opaque', self.site(n), i), lambda: self.block(b), lambda: None)

    def x_Pass(self, n): pass
    def x_Global(self, n): pass
    def x_Nonlocal(self, n): pass

    def x_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value)

    def x_Import(self, n):
        for a in n.names:
            self.set_var((a.asname or a.name.split('.')[0]), glob(a.name if a.asname else a.name.split('.')[0]))

    def x_ImportFrom(self, n):
        m = self.stack[-1].module
        base = n.module or ''
        if n.level:
            parts = m.name.split('.')
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            base = '.'.join(parts + ([n.module] if n.module else []))
        for a in n.names:
            self.set_var(a.asname or a.name, self.global_value(self.p.canonical(f'{base}.{a.name}')))

    def x_FunctionDef(self, n):
        fr = self.stack[-1]
        fi = FuncInfo(f'{fr.fi.qual}.<locals>.{n.name}', fr.module, n, None)
        fi.decorators = [self.p.deco_name(fr.module, d) for d in n.decorator_list]
        c = t('clo', self.site(n))
        self.clos[c] = (fi, fr)
        self.set_var(n.name, c)

    def x_ClassDef(self, n):
        self.set_var(n.name, t('opaque', self.site(n), n.name))

    def x_Return(self, n):
        fr = self.stack[-1]
        v = self.ev(n.value) if n.value is not None else NONE
        if self.s is None:
            return
        self.emit('return', n, value=v)
        self.exit_loops(fr)
        fr.returns.append((self.s, v))
        self.s = None

    def exit_loops(self, fr):
        for key, ctx in self.loops:
            if ctx.fid == fr.fid:
                c = conj(*[g if p else nneg(g) for g, p, _ in self.s.guards[len(ctx.base):]])
                ctx.exits.append(c)

    def x_Raise(self, n):
        v = self.ev(n.exc) if n.exc is not None else t('reraise')
        if n.cause is not None:
            self.ev(n.cause)
        if self.s is None:
            return
        self.do_raise(n, v)

    def do_raise(self, n, v):
        self.emit('raise', n, value=v)
        for key, ctx in self.loops:
            c = conj(*[g if p else nneg(g) for g, p, _ in self.s.guards[len(ctx.base):]])
            ctx.exits.append(c)
        for tr in self.tries:
            tr['raises'].append((self.s, v))
        self.s = None

    def x_Assert(self, n):
        c = self.cond(n.test)
        if self.s is None:
            return
        v = decide(c, self.s.facts())
        if v is True:
            return
        s1 = self.s.copy()
        self.guard(c, False, 'assert')
        self.do_raise(n, t('call', glob('builtins.AssertionError'), (), ()))
        self.s = s1
        self.guard(c, True, 'assert')
        if v is False:
            self.s = None

    def x_If(self, n):
        c = self.cond(n.test)
        if self.s is None:
            return
        self.branch(c, lambda: self.block(n.body), lambda: self.block(n.orelse))

    def branch(self, c, f1, f2):
        v = decide(c, self.s.facts())
        if v is True:
            f1()
            return
        if v is False:
            f2()
            return
        s0 = self.s
        k = len(s0.guards)
        self.s = s0.copy()
        self.guard(c, True, 'if')
        f1()
        s1 = self.s
        self.s = s0.copy()
        self.guard(c, False, 'if')
        f2()
        s2 = self.s
        if s1 is not None and s2 is not None:
            # drop the branch literal itself before merging
            pass
        if s1 is None and s2 is not None:
            s2.guards = s2.guards[:k] + tuple((g, p, 'survive' if i == 0 and kd == 'if' else kd)
                                              for i, (g, p, kd) in enumerate(s2.guards[k:]))
        if s2 is None and s1 is not None:
            s1.guards = s1.guards[:k] + tuple((g, p, 'survive' if i == 0 and kd == 'if' else kd)
                                              for i, (g, p, kd) in enumerate(s1.guards[k:]))
        self.s = self.merge(c, s1, s2, k)

    def x_Assign(self, n):
        v = self.ev(n.value)
        if self.s is None:
            return
        for tg in n.targets:
            if self.s is not None:
                self.assign(tg, v, n)

    def x_AnnAssign(self, n):
        if n.value is None:
            return
        v = self.ev(n.value)
        if self.s is None:
            return
        ty = self.parse_type(n.annotation, self.stack[-1].module, self.stack[-1].cls)
        if ty is not None and v.op not in ('const', 'phi') and v not in self.types:
            self.types[v] = ty
        self.assign(n.target, v, n)

    def x_AugAssign(self, n):
        op = _BIN[n.op.__class__.__name__]
        tg = n.target
        if isinstance(tg, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(tg.id, ast.Load()), tg))
            v = self.ev(n.value)
            if self.s is None:
                return
            if self.is_container(old):
                self.emit('mutate', n, obj=old, op='iop' + op, args=(v,), kwargs=())
                self.touch(old, t('upd', self.content(old), 'iop' + op, self.val(v)))
                return
            new = binop(op, old, v)
            self.emit('aug', n, obj=old, key=tg.id, op=op, value=v, res=new)
            self.set_var(tg.id, new)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value)
            old = self.getattr_(o, tg.attr, tg)
            v = self.ev(n.value)
            if self.s is None:
                return
            if self.is_container(old):
                self.emit('mutate', n, obj=old, op='iop' + op, args=(v,), kwargs=())
                self.touch(old, t('upd', self.content(old), 'iop' + op, self.val(v)))
                self.emit('setattr', n, obj=o, key=tg.attr, value=old, op='iop' + op)
                return
            new = binop(op, old, v)
            self.setattr_(o, tg.attr, new, n, aug=op)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value)
            k = self.ev(tg.slice)
            old = self.getsub(o, k, tg)
            v = self.ev(n.value)
            if self.s is None:
                return
            self.setsub(o, k, binop(op, old, v), n, aug=op, operand=v)
        else:
            raise Broken('unsupported augmented assignment')

    def x_Delete(self, n):
        for tg in n.targets:
            if isinstance(tg, ast.Name):
                self.s.envs[self.stack[-1].fid].pop(tg.id, None)
            elif isinstance(tg, ast.Subscript):
                o, k = self.ev(tg.value), self.ev(tg.slice)
                if self.s is None:
                    return
                self.emit('delsub', n, obj=o, key=k)
                self.touch(o, t('upd', self.content(o), 'del', k))
            elif isinstance(tg, ast.Attribute):
                o = self.ev(tg.value)
                self.emit('delattr', n, obj=o, key=tg.attr)
                self.s.heap[(o, tg.attr)] = UNDEF

    def x_With(self, n):
        for it in n.items:
            v = self.ev(it.context_expr)
            if self.s is None:
                return
            self.emit('with', n, obj=v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, t('enter', v), n)
        self.tries.append({'kind': 'with', 'node': n, 'handlers': [], 'raises': []})
        self.block(n.body)
        self.tries.pop()
        if self.s is not None:
            self.emit('withexit', n)

    def x_Try(self, n):
        s0 = self.s.copy()
        k = len(s0.guards)
        tr = {'kind': 'try', 'node': n, 'handlers': n.handlers, 'raises': [], 'final': bool(n.finalbody)}
        self.tries.append(tr)
        self.block(n.body)
        self.tries.pop()
        if self.s is not None:
            self.block(n.orelse)
        s1 = self.s
        for h in n.handlers:
            exc = t('exc', self.site(n), ast.unparse(h.type) if h.type is not None else '*')
            self.s = s0.copy()
            # stores made by the body before it failed are uncertain
            if s1 is not None:
                for key in s1.heap:
                    if s1.heap[key] is not s0.heap.get(key):
                        pre = s0.heap.get(key) or self.heap_default(key)
                        self.s.heap[key] = phi(t('partial', self.site(n)), s1.heap[key], pre)
                self.s.live = s1.live
            self.guard(exc, True, 'except')
            if h.name:
                self.set_var(h.name, t('excval', self.site(n)))
            self.block(h.body)
            s2 = self.s
            if s1 is None:
                s1 = s2
            elif s2 is None:
                s1.guards += ((exc, False, 'survive'),)
            else:
                s1 = self.merge(exc, s2, s1, k)
        self.s = s1
        if n.finalbody:
            if self.s is None:
                self.s = s0.copy()
                dead = True
            else:
                dead = False
            self.fin += 1
            self.block(n.finalbody)
            self.fin -= 1
            if dead:
                self.s = None
    x_TryStar = x_Try

    # ------------------------------------------------------------------------------------------ loops
    def carried_cells(self, s0, s1):
        out = []
        for fid, env in s1.envs.items():
            e0 = s0.envs.get(fid)
            if e0 is None:
                continue
            for k, v in env.items():
                if v is not e0.get(k, UNDEF):
                    out.append(('v', fid, k))
        for k, v in s1.heap.items():
            if v is not (s0.heap.get(k) or self.heap_default(k)):
                o = k[0]
                if o.op == 'alloc' and o not in s0.live:
                    continue
                if any(x.op == 'alloc' and x not in s0.live for x in walk(o, False)):
                    continue
                out.append(('h',) + k)
        return out

    def get_cell(self, s, cell):
        if cell[0] == 'v':
            return s.envs[cell[1]].get(cell[2], UNDEF)
        return s.heap.get(cell[1:]) or self.heap_default(cell[1:])

    def set_cell(self, s, cell, v):
        if cell[0] == 'v':
            s.envs[cell[1]][cell[2]] = v
        else:
            s.heap[cell[1:]] = v

    def cell_name(self, cell):
        if cell[0] == 'v':
            return cell[2] if cell[1] == self.stack[-1].fid else f'{len(cell[1])}:{cell[2]}'
        return cell[1:]

    def run_loop(self, n, key, loop, body, cond=None, orelse=()):
        """`body(iv)` executes one iteration in self.s; `cond()` evaluates the test of a while loop."""
        s0 = self.s
        base = s0.guards
        iv = t('iv', key)
        carried, ind = [], {}
        ok = False

        def one_pass():
            st = s0.copy()
            for c in carried:
                if c in ind:
                    init, step = ind[c]
                    self.set_cell(st, c, induct(init, step, iv, loop))
                else:
                    m = t('mu', key, self.cell_name(c))
                    old = self.get_cell(s0, c)
                    ty = self.typeof(old) if old is not UNDEF else None
                    if ty is not None:
                        self.types[m] = ty
                    self.set_cell(st, c, m)
            self.s = st
            ctx = LoopCtx()
            ctx.base, ctx.fid = base, self.stack[-1].fid
            self.loops.append((key, ctx))
            start = self.s.copy()
            ctx.cond = None
            if cond is not None:
                c = cond()
                ctx.cond = c
                ctx.head = self.s.copy()
                if truth(c) is not True:
                    self.guard(c, True, 'loop')
            body(iv)
            end = self.s
            for cs, cc in reversed(ctx.continues):
                end = self.merge(conj(*[g if p else nneg(g) for g, p, _ in cs.guards[len(base):]]), cs, end, len(base)) \
                    if end is not None else cs
            self.loops.pop()
            return start, end, ctx

        self.silent += 1
        for _ in range(10):
            fr = self.stack[-1]
            marks = [(fr.returns, len(fr.returns))] + [(c.exits, len(c.exits)) for _, c in self.loops] + \
                [(tr['raises'], len(tr['raises'])) for tr in self.tries]
            start, end, ctx = one_pass()
            for lst, n0 in marks:
                del lst[n0:]
            ends = ([end] if end is not None else []) + [b for b, _ in ctx.breaks]
            new = []
            for e in ends:
                for c in self.carried_cells(start, e):
                    if c not in carried and c not in new:
                        new.append(c)
            if new:
                carried.extend(new)
                continue
            # induction variables
            newind = {}
            if end is not None:
                for c in carried:
                    if c in ind or c[0] != 'v':
                        continue
                    m = t('mu', key, self.cell_name(c))
                    st = self.get_cell(end, c)
                    k = step_of(st, m)
                    if k is not None and self.get_cell(s0, c) is not UNDEF:
                        newind[c] = (self.get_cell(s0, c), k)
            if newind and loop.kind == 'while' and loop.domain is None:
                # the first counter compared with a bound gives the loop a domain
                for c, (init, k) in newind.items():
                    m = t('mu', key, self.cell_name(c))
                    if k == 1 and ctx.cond is not None:
                        for l, p in literals(ctx.cond):
                            if l.op == 'cmp' and l.args[0] == '<' and p and l.args[1] is m:
                                loop.domain = mkrange(init, l.args[2])
                            elif l.op == 'cmp' and l.args[0] == '<=' and p and l.args[1] is m:
                                loop.domain = mkrange(init, binop('+', l.args[2], const(1)))
                            elif l.op == 'not' or (l.op == 'cmp' and l.args[0] == '==' and not p and l.args[1] is m):
                                if l.op == 'cmp':
                                    loop.domain = mkrange(init, l.args[2])
                        if loop.domain is not None:
                            ind[c] = (const(0), 1) if True else None
                            ind[c] = ('self', 1)
                            break
            elif newind and loop.kind == 'for':
                ind.update(newind)
            elif newind and loop.kind == 'while' and loop.domain is not None:
                for c, v in newind.items():
                    ind.setdefault(c, v)
            else:
                newind = {}
            if loop.kind == 'while' and loop.domain is None:
                newind = {}
            if not newind:
                ok = True
                break
        self.silent -= 1
        if not ok:
            raise Broken(f'loop at {loop.file}:{loop.lineno} did not converge')
        start, end, ctx = one_pass()
        loop.has_break = bool(ctx.breaks)
        loop.cond = ctx.cond
        loop.entry_guards = base
        loop.outer = tuple(l for l, _ in self.loops)
        # state after the loop
        after = (ctx.head if cond is not None else s0).copy()
        after.guards = base
        after.live = s0.live
        last = end or (ctx.breaks[-1][0] if ctx.breaks else None)
        for c in carried:
            name = self.cell_name(c)
            loop.init[name] = self.get_cell(s0, c)
            if end is not None:
                loop.step[name] = self.get_cell(end, c)
            e = t('eta', key, name)
            loop.final[name] = e
            ty = self.typeof(loop.init[name]) if loop.init[name] is not UNDEF else None
            if ty is not None:
                self.types[e] = ty
            self.set_cell(after, c, e)
            if end is not None and not ctx.breaks:
                # objects newly stored by every iteration keep their identity after the loop
                pass
        if last is not None:
            after.live = after.live | last.live
            for k, v in last.heap.items():   # fields of objects created in the loop
                if k not in after.heap:
                    after.heap[k] = v
        if cond is not None and truth(ctx.cond) is not True and not ctx.breaks:
            after.guards += ((nneg(rename_mu(ctx.cond, key)), True, 'loopexit'),)
        for c in ctx.exits:
            after.guards += ((t('exists', key, c), False, 'survive'),)
        self.s = after
        if orelse:
            self.block(orelse)
        s1 = self.s
        for b, _ in ctx.breaks:
            c = conj(*[g if p else nneg(g) for g, p, _ in b.guards[len(base):]])
            bs = b.copy()
            bs.guards = base
            s1 = self.merge(t('exists', key, c), bs, s1, len(base))
        self.s = s1
        if self.s is not None:
            self.s.guards = self.s.guards[:len(base) + 24]

    def x_For(self, n):
        dom = self.domain(n.iter)
        if self.s is None:
            return
        if dom.unroll is not None:
            self.unrolled(n, dom.unroll)
            return
        key = self.site(n) + tuple(k for k, _ in self.loops)[-1:]
        loop = LOOPS[key] = Loop(key, n, self.stack[-1].module.relpath, dom.dom, 'for')
        loop.parallel = dom.parallel
        loop.zero_based = dom.zero_based

        def body(iv):
            for c in dom.conds(iv):
                self.guard(c, True, 'if')
            self.assign(n.target, dom.elem(iv), n)
            self.block(n.body)
        self.run_loop(n, key, loop, body, None, n.orelse)

    def unrolled(self, n, elems):
        base = self.s.guards
        key = self.site(n) + ('unroll',)
        ctx = LoopCtx()
        ctx.base, ctx.fid = base, self.stack[-1].fid
        brk = None
        for e in elems:
            if self.s is None:
                break
            ctx.continues = []
            ctx.breaks = []
            self.loops.append((None, ctx))
            k = len(self.s.guards)
            self.assign(n.target, e, n)
            self.block(n.body)
            self.loops.pop()
            end = self.s
            for cs, _ in reversed(ctx.continues):
                end = self.merge(conj(*[g if p else nneg(g) for g, p, _ in cs.guards[k:]]), cs, end, k) \
                    if end is not None else cs
            for b, _ in ctx.breaks:
                brk = b
            self.s = end
        if self.s is not None and n.orelse:
            self.block(n.orelse)
        if brk is not None:
            c = conj(*[g if p else nneg(g) for g, p, _ in brk.guards[len(base):]])
            self.s = self.merge(c, brk, self.s, len(base)) if self.s is not None else brk

    def x_While(self, n):
        key = self.site(n) + tuple(k for k, _ in self.loops)[-1:]
        loop = LOOPS[key] = Loop(key, n, self.stack[-1].module.relpath, None, 'while')
        loop.zero_based = True
        self.run_loop(n, key, loop, lambda iv: self.block(n.body), lambda: self.cond(n.test), n.orelse)

    def x_Break(self, n):
        self.loops[-1][1].breaks.append((self.s, None))
        self.s = None

    def x_Continue(self, n):
        self.loops[-1][1].continues.append((self.s, None))
        self.s = None

    def domain(self, e) -> Domain:
        """Canonical iteration domain of the iterable expression `e`."""
        if isinstance(e, ast.Call):
            f = self.ev(e.func) if isinstance(e.func, ast.Name) else None
            q = f.args[0] if f is not None and f.op == 'glob' else None
            if q is None and isinstance(e.func, ast.Attribute):
                rq = self.p.resolve_expr(self.stack[-1].module, e.func)
                if rq in ('numba.prange', 'builtins.enumerate', 'itertools.chain'):
                    q = rq
            if q in ('builtins.range', 'numba.prange') and not e.keywords:
                a = [self.ev(x) for x in e.args]
                if self.s is None:
                    return Domain(UNDEF, lambda iv: UNDEF)
                return range_domain(a, q.endswith('prange'))
            if q == 'builtins.enumerate':
                inner = self.domain(e.args[0])
                start = self.ev(e.args[1]) if len(e.args) > 1 else const(0)
                for k in e.keywords:
                    start = self.ev(k.value)
                if inner.unroll is not None:
                    inner.unroll = [t('tup', binop('+', const(i), start), x) for i, x in enumerate(inner.unroll)]
                el = inner.elem
                return Domain(inner.dom, lambda iv: t('tup', binop('+', iv, start), el(iv)), inner.parallel,
                              inner.unroll, inner.conds)
            if q == 'builtins.zip' and e.args and not any(isinstance(x, ast.Starred) for x in e.args):
                inners = [self.domain(x) for x in e.args]
                unroll = None
                if all(i.unroll is not None for i in inners):
                    unroll = [t('tup', *x) for x in zip(*[i.unroll for i in inners])]
                elif any(i.unroll is not None for i in inners):
                    inners = [i if i.unroll is None else self.term_domain(self.ev(x)) for i, x in zip(inners, e.args)]
                dom = t('zip', *[i.dom for i in inners])
                if len({i.dom for i in inners}) == 1:
                    dom = inners[0].dom
                return Domain(dom, lambda iv: t('tup', *[i.elem(iv) for i in inners]), False, unroll,
                              lambda iv: [c for i in inners for c in i.conds(iv)])
            if q in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(e.args) == 1 and not e.keywords:
                return self.domain(e.args[0])
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'keys', 'values') and not e.args:
                o = self.ev(e.func.value)
                if self.s is None:
                    return Domain(UNDEF, lambda iv: UNDEF)
                if self.class_of(o) is None:
                    return self.dict_domain(o, e.func.attr)
                return self.term_domain(self.ev(e))
        if isinstance(e, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in e.elts):
            xs = [self.ev(x) for x in e.elts]
            return Domain(t('tup', *xs), lambda iv: t('sub', t('tup', *xs), iv), unroll=xs)
        v = self.ev(e)
        if self.s is None:
            return Domain(UNDEF, lambda iv: UNDEF)
        self.emit('iter', e, obj=v)
        return self.term_domain(v)

    def dict_domain(self, o, which):
        v = self.val(o)

        def key(iv):
            return sub(v, iv)

        def value(iv):
            return self.read_sub(o, key(iv))
        el = {'items': lambda iv: t('tup', key(iv), value(iv)), 'keys': key, 'values': value}[which]
        return Domain(v, el)

    def term_domain(self, v) -> Domain:
        if v.op == 'tup' or (v.op == 'lit' and v.args[0] in ('list', 'tuple', 'set')):
            xs = list(v.args if v.op == 'tup' else v.args[1:])
            if len(xs) <= 40:
                return Domain(v, lambda iv: sub(v, iv), unroll=xs)
        if v.op == 'alloc' and (v, '#') not in self.s.heap:
            inner = v.args[0]
            if inner.op == 'lit':
                return self.term_domain(inner)
            if inner.op == 'collect' and len(inner.args[1]) == 1 and inner.args[0] in ('list', 'gen'):
                k0 = inner.args[1][0]
                lp = LOOPS[k0]
                old = t('iv', k0)
                return Domain(lp.domain, lambda iv: subst(inner.args[2], {old: iv}),
                              conds=lambda iv: [subst(c, {old: iv}) for c in inner.args[3]], zero_based=lp.zero_based)
            if inner.op == 'call' and inner.args[0].op == 'glob' and inner.args[0].args[0] in ('builtins.list',) \
                    and len(inner.args[1]) == 1:
                return self.term_domain(inner.args[1][0])
        if v.op == 'collect' and len(v.args[1]) == 1:
            return self.term_domain(t('alloc', v, ()))
        if v.op == 'call' and v.args[0].op == 'glob' and v.args[0].args[0] in ('builtins.range', 'numba.prange') \
                and not v.args[2]:
            return range_domain(list(v.args[1]), v.args[0].args[0] == 'numba.prange')
        if v.op == 'call' and v.args[0].op == 'glob' and v.args[0].args[0] in ('builtins.list', 'builtins.tuple',
                                                                            'builtins.iter') and len(v.args[1]) == 1:
            return self.term_domain(v.args[1][0])
        if v.op == 'mcall' and v.args[0] in ('items', 'keys', 'values') and not v.args[2] and \
                self.class_of(strip_st(v.args[1])) is None:
            return self.dict_domain(v.args[1], v.args[0])
        w = self.val(v)
        return Domain(w, lambda iv: sub(w, iv))

    # ------------------------------------------------------------------------------------------ variables
    def set_var(self, name, v):
        fr = self.stack[-1]
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.locals:
                    self.s.envs.setdefault(p.fid, {})[name] = v
                    return
                p = p.parent
        self.s.envs[fr.fid][name] = v

    def lookup(self, name, node=None):
        fr = self.stack[-1]
        while fr is not None:
            env = self.s.envs.get(fr.fid)
            if env is not None and name in env:
                return env[name]
            if name in fr.locals:
                return UNDEF
            fr = fr.parent
        m = self.stack[-1].module
        cls = self.stack[-1].cls
        q = self.p.resolve(m, name, None)
        if q is None:
            return glob('builtins.' + name)
        return self.global_value(q)

    def global_value(self, q):
        if q in self.p.classes:
            return t('cls', q)
        if q in self.p.functions:
            return t('fn', q)
        parts = q.split('.')
        mod, name = '.'.join(parts[:-1]), parts[-1]
        m = self.p.modules.get(mod)
        if m is not None and name in m.consts:
            e = m.consts[name]
            if self.is_namedtuple(e, m):
                return t('cls', q)
            v = self.fold(e, m)
            if v is not None:
                for a in m.augs.get(name, ()):
                    w = self.fold(a.value, m)
                    v = self.fold_bin(a.op.__class__.__name__, v, w) if v is not None and w is not None else None
            if v is not None:
                return v
            return glob(q)
        # class attribute
        if mod in self.p.classes:
            return self.class_attr(mod, name)
        return glob(q)

    def is_namedtuple(self, e, m):
        return isinstance(e, ast.Call) and self.p.resolve_expr(m, e.func) in ('collections.namedtuple',)

    def fold(self, e, m, depth=0):
        """Value of a module-level constant expression, or None."""
        if depth > 8:
            return None
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            xs = [self.fold(x, m, depth + 1) for x in e.elts]
            if any(x is None for x in xs):
                return None
            return mklit({'Tuple': 'tuple', 'List': 'list', 'Set': 'set'}[e.__class__.__name__], xs)
        if isinstance(e, ast.Name):
            q = self.p.resolve(m, e.id)
            if q is None:
                return glob('builtins.' + e.id)
            return self.global_value(q)
        if isinstance(e, ast.Attribute):
            q = self.p.resolve_expr(m, e)
            if q is None:
                return None
            b, n = q.rsplit('.', 1)
            if b in self.p.classes:
                return self.class_attr(b, n)
            return glob(q)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.fold(e.operand, m, depth + 1)
            if v is None:
                return None
            return const(-cval(v)) if v.op == 'const' else t('neg', v)
        if isinstance(e, ast.BinOp):
            a, b = self.fold(e.left, m, depth + 1), self.fold(e.right, m, depth + 1)
            if a is None or b is None:
                return None
            return self.fold_bin(e.op.__class__.__name__, a, b)
        if isinstance(e, ast.Call):
            q = self.p.resolve_expr(m, e.func)
            if q in ('builtins.sorted', 'builtins.set', 'builtins.frozenset', 'builtins.list', 'builtins.tuple') \
                    and len(e.args) == 1 and not e.keywords:
                v = self.fold(e.args[0], m, depth + 1)
                if v is not None and v.op == 'lit':
                    kind = {'sorted': 'list', 'frozenset': 'set'}.get(q.split('.')[1], q.split('.')[1])
                    xs = list(v.args[1:])
                    if q == 'builtins.sorted' and all(x.op == 'const' for x in xs):
                        xs.sort(key=lambda x: cval(x))
                    return mklit(kind, xs)
        return None

    def fold_bin(self, opname, a, b):
        if a.op == 'lit' and b.op == 'lit':
            xa, xb = list(a.args[1:]), list(b.args[1:])
            if opname == 'BitOr':
                return mklit('set', xa + [x for x in xb if x not in xa])
            if opname == 'BitAnd':
                return mklit('set', [x for x in xa if x in xb])
            if opname == 'Sub':
                return mklit('set', [x for x in xa if x not in xb])
            if opname == 'Add':
                return mklit(a.args[0], xa + xb)
            return None
        if opname in _BIN:
            return binop(_BIN[opname], a, b)
        return None

    def class_attr(self, cq, name):
        for c in self.p.mro(cq):
            if name in c.nested:
                return t('cls', c.nested[name].qual)
            if name in c.methods:
                return t('fn', c.methods[name].qual)
            if name in c.attrs:
                e = c.attrs[name]
                if self.p.has_base(c.qual, 'Enum') or self.p.has_base(c.qual, 'Flag'):
                    return glob(f'{c.qual}.{name}')
                v = self.fold(e, c.module)
                g = glob(f'{c.qual}.{name}')
                return v if v is not None and v.op == 'const' else g
        return t('attr', t('cls', cq), name)

    # ------------------------------------------------------------------------------------------ types
    def parse_type(self, e, m, cls=None):
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                try:
                    return self.parse_type(ast.parse(e.value, mode='eval').body, m, cls)
                except SyntaxError:
                    return None
            return None
        if isinstance(e, ast.Subscript):
            b = self.p.resolve_expr(m, e.value, cls) or ''
            n = b.split('.')[-1]
            el = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            args = [self.parse_type(x, m, cls) for x in el]
            if n == 'Optional':
                return args[0]
            if n == 'Union':
                args = [a for a in args if a is not None]
                return args[0] if len(set(args)) == 1 else (('U',) + tuple(args) if args else None)
            return ('G', n) + tuple(args)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self.parse_type(e.left, m, cls) or self.parse_type(e.right, m, cls)
        q = self.p.resolve_expr(m, e, cls)
        if q is None:
            return None
        if q in self.p.classes:
            return ('C', q)
        n = q.split('.')[-1]
        if n in ('dict', 'list', 'set', 'deque', 'Dict', 'List', 'Set'):
            return ('G', n.capitalize() if n != 'deque' else 'Deque')
        return ('E', q)

    def typeof(self, x):
        x = strip_st(x)
        if x in self.types:
            return self.types[x]
        ty = self._typeof(x)
        if ty is not None:
            self.types[x] = ty
        return ty

    def _typeof(self, x):
        if x.op == 'new':
            return ('C', x.args[0])
        if x.op == 'alloc':
            return self._typeof(x.args[0])
        if x.op == 'lit':
            return ('G', x.args[0].capitalize())
        if x.op == 'collect':
            return ('G', x.args[0].capitalize())
        if x.op == 'attr':
            c = self.class_of(x.args[0])
            if c is not None:
                for k in self.p.mro(c):
                    if x.args[1] in k.annots:
                        return self.parse_type(k.annots[x.args[1]], k.module, k)
                f = self.p.lookup(c, x.args[1], 'props')
                if f is not None and f.node.returns is not None:
                    return self.parse_type(f.node.returns, f.module, f.cls)
        if x.op == 'glob':
            q = x.args[0]
            b, _, n = q.rpartition('.')
            if b in self.p.classes:
                k = self.p.classes[b]
                if n in k.annots:
                    return self.parse_type(k.annots[n], k.module, k)
        if x.op == 'sub':
            ty = self.typeof(x.args[0])
            if x.args[1].op == 'iv' and ty and ty[0] == 'G' and len(ty) > 2:
                return ty[2]
            if ty and ty[0] == 'G' and ty[1] in ('Dict', 'OrderedDict') and len(ty) > 3:
                return ty[3]
            if ty and ty[0] == 'G' and ty[1] in ('List', 'Deque') and len(ty) > 2:
                return ty[2]
        if x.op == 'phi':
            a, b = self.typeof(x.args[1]), self.typeof(x.args[2])
            if a == b or x.args[2] is NONE:
                return a
            if x.args[1] is NONE:
                return b
        if x.op == 'call':
            f = x.args[0]
            if f.op == 'fn':
                fi = self.p.functions[f.args[0]]
                if fi.node.returns is not None:
                    return self.parse_type(fi.node.returns, fi.module, fi.cls)
            if f.op == 'glob' and f.args[0] in ('builtins.list', 'builtins.set', 'builtins.dict', 'collections.deque'):
                return ('G', f.args[0].split('.')[1].capitalize())
        if x.op == 'mcall':
            c = self.class_of(x.args[1])
            if c is not None:
                f = self.p.lookup(c, x.args[0])
                if f is not None and f.node.returns is not None:
                    return self.parse_type(f.node.returns, f.module, f.cls)
            if x.args[0] == 'copy' and not x.args[2]:
                return self.typeof(x.args[1])
        return None

    def class_of(self, x):
        if x.op == 'cls':
            return None
        ty = self.typeof(x)
        return ty[1] if ty and ty[0] == 'C' else None

    def is_container(self, x):
        x = strip_st(x)
        if x.op == 'alloc':
            i = x.args[0]
            return not (i.op == 'call' and False)
        ty = self.typeof(x)
        if ty and ty[0] == 'G' and ty[1] in ('Set', 'List', 'Dict', 'Deque'):
            return True
        return False

    # ------------------------------------------------------------------------------------------ heap
    def content(self, o):
        return self.s.heap.get((o, '#')) or t('init', o)

    def val(self, o):
        """The object as a value: wrapped with its current content when it has been mutated."""
        o = strip_st(o)
        c = self.s.heap.get((o, '#'))
        if c is None:
            if o.op == 'phi':
                a, b = self.val(o.args[1]), self.val(o.args[2])
                if a is not o.args[1] or b is not o.args[2]:
                    return t('phi', o.args[0], a, b)
            return o
        return t('st', o, c)

    def alloc(self, inner, node, part=None):
        # an object belongs to the place that makes it, and to the field when several are made at once
        site = self.site(node)
        if part is not None:
            site += (getattr(part, 'lineno', 0), getattr(part, 'col_offset', 0))
        a = t('alloc', inner, site)
        for k in [k for k in self.s.heap if k[0] is a]:
            del self.s.heap[k]
        self.s.live = self.s.live | {a}
        self.alloc_loops[a] = tuple(l for l, _ in self.loops)
        return a

    def touch(self, o, content):
        o = strip_st(o)
        self.s.heap[(o, '#')] = content
        for r in view_roots(o):
            if r is not o:
                self.s.heap[(r, '#')] = t('upd', self.content(r), 'alias', o, content)

    def getattr_(self, o, name, node):
        if o.op == 'phi' and (o.args[1].op in ('alloc', 'new', 'cls') or o.args[2].op in ('alloc', 'new', 'cls')):
            return phi(o.args[0], self.getattr_(o.args[1], name, node), self.getattr_(o.args[2], name, node))
        o = strip_st(o)
        if (o, name) in self.s.heap:
            return self.s.heap[(o, name)]
        if o.op == 'glob':
            q = self.p.canonical(o.args[0] + '.' + name)
            if q in self.p.classes or q in self.p.functions:
                return self.global_value(q)
            if o.args[0] in self.p.modules:
                return self.global_value(q)
            if o.args[0].rpartition('.')[0] in self.p.classes:   # attribute of a class attribute / enum member
                return t('attr', o, name)
            return glob(o.args[0] + '.' + name)
        if o.op == 'cls':
            if o.args[0] in self.p.classes:
                return self.class_attr(o.args[0], name)
            return t('attr', o, name)
        if o.op == 'super':
            return t('bm', o, name)
        c = self.class_of(o)
        if c is not None:
            f = self.p.lookup(c, name, 'props')
            if f is not None:
                if name in self.opaque_props or f.is_abstract or self.overridden(c, name) and not self.exact(o) \
                        or self.blocked(f):
                    return t('attr', o, name)
                v = self.call_repo(f, [o], {}, node, cls=c)
                return v
            f = self.p.lookup(c, name)
            if f is not None:
                return t('bm', o, name)
            for k in self.p.mro(c):
                if name in k.nested:
                    return t('cls', k.nested[name].qual)
                if name in k.attrs and name not in k.annots:
                    return self.class_attr(c, name)
                if name in k.attrs and not any(name in kk.annots for kk in self.p.mro(c)):
                    return self.class_attr(c, name)
        if is_const(o):
            return t('attr', o, name)
        return t('attr', self.val(o) if name in ('shape', 'size') else o, name)

    def exact(self, o):
        return o.op == 'new' or (o.op == 'alloc' and o.args[0].op == 'new')

    def overridden(self, c, name):
        return any(name in k.methods or name in k.props for k in self.p.subclasses(c))

    def blocked(self, f):
        if f.name in self.noinline or f.qual in self.noinline:
            return True
        if self.pred is not None and not self.pred(f):
            return True
        if f.is_njit and not self.inline_njit:
            return True
        if len(self.stack) >= self.max_depth:
            return True
        return any(fr.fi.qual == f.qual for fr in self.stack)

    def setattr_(self, o, name, v, node, aug=None):
        if o.op == 'phi':
            pass
        o = strip_st(o)
        c = self.class_of(o)
        if c is not None:
            f = self.p.lookup(c, name, 'setters')
            if f is not None and not self.blocked(f):
                self.emit('propset', node, obj=o, key=name, value=v)
                self.call_repo(f, [o, v], {}, node, cls=c)
                return
        self.emit('setattr', node, obj=o, key=name, value=v, op=aug)
        if name in ('shape', 'values', 'columns', 'index', 'name', 'names', 'flat') and c is None:
            self.emit('mutate', node, obj=o, op='set.' + name, args=(v,), kwargs=())
        self.s.heap[(o, name)] = v

    def getsub(self, o, k, node):
        v = self.read_sub(o, k)
        self.emit('load', node, obj=strip_st(o), key=k, value=v)
        return v

    def read_sub(self, o, k):
        o = strip_st(o)
        if o.op == 'phi' and (o.args[1].op == 'tup' or o.args[2].op == 'tup'):
            return sub(o, k)
        c = self.s.heap.get((o, '#'))
        n = 0
        cur = c
        while cur is not None and cur.op == 'upd' and n < 40:
            n += 1
            if cur.args[1] == 'set':
                if cur.args[2] is k:
                    return cur.args[3]
                if cur.args[2].op == 'const' and k.op == 'const' and cval(k) != cval(cur.args[2]):
                    cur = cur.args[0]
                    continue
            break
        if cur is not None and cur.op == 'init':
            c = None
        if c is None and o.op == 'alloc':
            i = o.args[0]
            if i.op == 'lit' and i.args[0] in ('list', 'tuple') and k.op == 'const' and isinstance(cval(k), int) \
                    and -len(i.args) < cval(k) < len(i.args) - 1:
                return i.args[1:][cval(k)]
            if i.op == 'dictlit':
                for a, b in reversed(i.args):
                    if a.op == 'star' and a.args[0] is NONE:
                        break
                    if a is k:
                        return b
        base = self.val(o) if c is None and o.op == 'phi' else o if c is None else t('st', o, c)
        return sub(base, k)

    def setsub(self, o, k, v, node, aug=None, operand=None):
        o = strip_st(o)
        self.emit('setsub', node, obj=o, key=k, value=v, op=aug, args=(operand,) if operand is not None else ())
        self.touch(o, t('upd', self.content(o), 'set', k, self.val(v)))

    # ------------------------------------------------------------------------------------------ assignment
    def assign(self, tg, v, node):
        if isinstance(tg, ast.Name):
            self.set_var(tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(tg.elts) if isinstance(x, ast.Starred)]
            for i, x in enumerate(tg.elts):
                if self.s is None:
                    return
                if star:
                    if i < star[0]:
                        self.assign(x, sub(v, const(i)), node)
                    elif i == star[0]:
                        self.assign(x.value, t('starsub', v, i, len(tg.elts)), node)
                    else:
                        self.assign(x, sub(v, const(i - len(tg.elts))), node)
                else:
                    self.assign(x, self.unpack(v, i), node)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value)
            if self.s is not None:
                self.setattr_(o, tg.attr, v, node)
        elif isinstance(tg, ast.Subscript):
            o, k = self.ev(tg.value), self.ev(tg.slice)
            if self.s is not None:
                self.setsub(o, k, v, node)
        else:
            raise Broken('unsupported assignment target')

    def unpack(self, v, i):
        if v.op == 'alloc' and v.args[0].op == 'lit' and (v, '#') not in self.s.heap:
            xs = v.args[0].args[1:]
            if i < len(xs):
                return xs[i]
        if v.op == 'lit' and i < len(v.args) - 1:
            return v.args[1 + i]
        return sub(v, const(i))

    # ------------------------------------------------------------------------------------------ expressions
    def cond(self, e):
        """Evaluates an expression for its truth value."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = self.cond(e.values[0])
            for x in e.values[1:]:
                if self.s is None:
                    return acc
                if truth(acc) is (False if isand else True):
                    return acc
                saved = self.s.guards
                self.s.guards = saved
                self.guard(acc, isand, 'sc')
                v = self.cond(x)
                if self.s is None:
                    return acc
                self.s.guards = saved
                acc = conj(acc, v) if isand else disj(acc, v)
            return acc
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return nneg(self.cond(e.operand))
        v = self.ev(e)
        if self.s is None:
            return v
        return self.truthy(v)

    def truthy(self, v):
        if v.op == 'call' and v.args[0].op == 'glob' and v.args[0].args[0] in ('builtins.bool', 'numpy.any', 'numpy.all') \
                and v.args[0].args[0] == 'builtins.bool' and len(v.args[1]) == 1:
            return self.truthy(v.args[1][0])
        if v.op == 'phi':
            return phi_cond(v.args[0], self.truthy(v.args[1]), self.truthy(v.args[2]))
        if v.op == 'bool':
            return v.args[0]
        if v.op == 'len':
            return cmp('Lt', const(0), v)
        return v

    def ev(self, e) -> T:
        if self.s is None:
            return UNDEF
        return getattr(self, 'e_' + e.__class__.__name__, self.e_other)(e)

    def e_other(self, e):
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return t('opaque', self.site(e), e.__class__.__name__)

    def e_Constant(self, e): return const(e.value)

    def e_Name(self, e): return self.lookup(e.id, e)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Attribute(self, e):
        o = self.ev(e.value)
        if self.s is None:
            return UNDEF
        return self.getattr_(o, e.attr, e)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev(e.slice)
        if self.s is None:
            return UNDEF
        return self.getsub(o, k, e)

    def e_Slice(self, e):
        return t('slice', *[self.ev(x) if x is not None else NONE for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e):
        xs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if v.op == 'tup':
                    xs.extend(v.args)
                else:
                    xs.append(t('star', v))
            else:
                xs.append(self.ev(x))
        return t('tup', *xs)

    def e_List(self, e):
        return self.alloc(t('lit', 'list', *self.e_Tuple(e).args), e)

    def e_Set(self, e):
        return self.alloc(mklit('set', list(self.e_Tuple(e).args)), e)

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            kk = self.ev(k) if k is not None else t('star', NONE)
            items.append((kk, self.ev(v)))
        if self.s is None:
            return UNDEF
        return self.alloc(t('dictlit', *items), e)

    def e_Starred(self, e):
        return t('star', self.ev(e.value))

    def e_Lambda(self, e):
        fr = self.stack[-1]
        fi = FuncInfo(f'{fr.fi.qual}.<lambda>', fr.module, e, None)
        c = t('clo', self.site(e))
        self.clos[c] = (fi, fr)
        return c

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.ev(x.value)
                if x.format_spec is not None:
                    v = t('fmt', v, self.ev(x.format_spec))
                parts.append(v)
        return fstr(*parts)

    def e_FormattedValue(self, e): return self.ev(e.value)

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return nneg(self.cond(e.operand)) if True else None
        v = self.ev(e.operand)
        if isinstance(e.op, ast.USub):
            if v.op == 'const' and isinstance(cval(v), (int, float)):
                return const(-cval(v))
            return t('neg', v)
        if isinstance(e.op, ast.Invert):
            return t('inv', v) if not boolish(v) else t('inv', v)
        return v

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if self.s is None:
            return UNDEF
        op = _BIN[e.op.__class__.__name__]
        if op in ('/', '//', '%') and not (a.op == 'const' and isinstance(cval(a), str)):
            self.emit('div', e, obj=a, value=b, op=op)
        if op == '%' and a.op == 'const' and isinstance(cval(a), str):
            r = percent(cval(a), b)
            if r is not None:
                return r
        a2, b2 = self.val(a), self.val(b)
        fa, fb = strip_alloc(a2), strip_alloc(b2)
        if fa.op == 'lit' and fb.op == 'lit':
            r = self.fold_bin(e.op.__class__.__name__, fa, fb)
            if r is not None:
                return self.alloc(r, e)
        if op == '*' and fa.op == 'lit' or op == '+' and fa.op == 'lit' and (a2.op == 'alloc'):
            return self.alloc(t('bin', op, a2, b2), e)
        return binop(op, a2, b2)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0])
        for x in e.values[1:]:
            if self.s is None:
                return UNDEF
            c = self.truthy(v)
            if truth(c) is (not isand):
                return v
            saved = self.s.guards
            self.s.guards = saved
            self.guard(c, isand, 'sc')
            w = self.ev(x)
            if self.s is None:
                return UNDEF
            self.s.guards = saved
            if boolish(v) and boolish(w):
                v = conj(v, w) if isand else disj(v, w)
            else:
                v = phi(c, w, v) if isand else phi(c, v, w)
        return v

    def e_IfExp(self, e):
        c = self.cond(e.test)
        if self.s is None:
            return UNDEF
        out = {}
        self.branch(c, lambda: out.__setitem__(1, self.ev(e.body)), lambda: out.__setitem__(2, self.ev(e.orelse)))
        if self.s is None:
            return UNDEF
        if 1 not in out:
            return out[2]
        if 2 not in out:
            return out[1]
        return phi(c, out[1], out[2])

    def e_Compare(self, e):
        left = self.ev(e.left)
        acc = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            if self.s is None:
                return UNDEF
            n = op.__class__.__name__
            if n in ('In', 'NotIn'):
                c = self.membership(left, right)
                c = c if n == 'In' else nneg(c)
            else:
                c = cmp(n, self.val(left), self.val(right))
                if n in ('Is', 'IsNot') and is_const(right, None):
                    ty = self.typeof(left)
                    if any(f.op == 'isinst' and f.args[0] is left and p for g, q in self.s.facts()
                           for f, p in literals(g, q)):
                        c = const(n == 'IsNot')
            acc.append(c)
            left = right
        return conj(*acc) if len(acc) > 1 else acc[0]

    def membership(self, x, coll):
        o = strip_st(coll)
        if (o, '#') not in self.s.heap:
            i = strip_alloc(o)
            if i.op == 'lit':
                return cmp('In', x, i)
            if i.op == 'dictlit':
                return disj(*[self.membership(x, v) if k.op == 'star' else cmp('Eq', x, k) for k, v in i.args])
            if i.op == 'mcall' and i.args[0] == 'keys' and not i.args[2]:
                return self.membership(x, i.args[1])
            if i.op == 'attr' and i.args[1] == 'columns':
                return t('cmp', 'in', x, i.args[0])
            if i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0] in ('builtins.set', 'builtins.list',
                                                                                  'builtins.frozenset') and i.args[1]:
                return self.membership(x, i.args[1][0])
        if o.op == 'phi':
            return phi_cond(o.args[0], self.membership(x, o.args[1]), self.membership(x, o.args[2]))
        return t('cmp', 'in', x, self.val(o))

    def comp(self, e, kind):
        gens = e.generators
        keys, conds = [], []
        fr = self.stack[-1]
        saved = dict(self.s.envs[fr.fid])
        g0 = self.s.guards
        n = 0
        for g in gens:
            dom = self.domain(g.iter)
            if self.s is None:
                return UNDEF
            key = self.site(g.iter) + ('comp',) + tuple(k for k, _ in self.loops)[-1:]
            loop = LOOPS[key] = Loop(key, e, fr.module.relpath, dom.dom, 'for')
            loop.zero_based = dom.zero_based
            iv = t('iv', key)
            ctx = LoopCtx()
            ctx.base, ctx.fid = self.s.guards, fr.fid
            self.loops.append((key, ctx))
            n += 1
            keys.append(key)
            loop.outer = tuple(l for l, _ in self.loops[:-1])
            self.assign(g.target, dom.elem(iv), e)
            for c in dom.conds(iv):
                conds.append(c)
                self.guard(c, True, 'if')
            for i in g.ifs:
                c = self.cond(i)
                conds.append(c)
                self.guard(c, True, 'if')
            loop.conds = tuple(conds)
        if kind == 'dict':
            elt = t('tup', self.ev(e.key), self.ev(e.value))
        else:
            elt = self.ev(e.elt)
        exits = []
        for _ in range(n):
            key, ctx = self.loops.pop()
            exits.extend((key, c) for c in ctx.exits)
        if self.s is None:
            return UNDEF
        self.s.envs[fr.fid] = {**saved, **{k: v for k, v in self.s.envs[fr.fid].items()
                                          if k not in target_names([g.target for g in gens]) and k not in saved}}
        self.s.guards = g0 + tuple((t('exists', k, c), False, 'survive') for k, c in exits)
        v = t('collect', kind, tuple(keys), elt, tuple(conds))
        return v if kind == 'gen' else self.alloc(v, e)

    def e_ListComp(self, e): return self.comp(e, 'list')
    def e_SetComp(self, e): return self.comp(e, 'set')
    def e_GeneratorExp(self, e): return self.comp(e, 'gen')
    def e_DictComp(self, e): return self.comp(e, 'dict')

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        if self.s is not None:
            self.emit('yield', e, value=v)
        return t('opaque', self.site(e), 'sent')

    def e_YieldFrom(self, e):
        dom = self.domain(e.value)
        if self.s is None:
            return UNDEF
        if dom.unroll is not None:
            for x in dom.unroll:
                self.emit('yield', e, value=x)
            return NONE
        key = self.site(e) + ('yf',)
        loop = LOOPS[key] = Loop(key, e, self.stack[-1].module.relpath, dom.dom, 'for')
        loop.zero_based = True
        ctx = LoopCtx()
        ctx.base, ctx.fid = self.s.guards, self.stack[-1].fid
        self.loops.append((key, ctx))
        self.emit('yield', e, value=dom.elem(t('iv', key)))
        self.loops.pop()
        return NONE

    def e_Await(self, e): return self.ev(e.value)

    # ------------------------------------------------------------------------------------------ calls
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            fr = self.stack[-1]
            f2 = fr
            while f2.cls is None and f2.parent is not None:
                f2 = f2.parent
            selfname = f2.fi.node.args.args[0].arg if f2.fi.node.args.args else None
            me = self.s.envs[f2.fid].get(selfname, UNDEF) if selfname else UNDEF
            return t('super', me, f2.cls.qual if f2.cls else '')
        f = self.ev(e.func)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                items = self.star_items(v)
                if items is not None:
                    args.extend(items)
                elif v.op == 'alloc' and v.args[0].op == 'lit' and (v, '#') not in self.s.heap:
                    args.extend(v.args[0].args[1:])
                elif self.tuple_len(v) is not None:
                    args.extend(sub(v, const(i)) for i in range(self.tuple_len(v)))
                else:
                    args.append(t('star', v))
            else:
                args.append(self.ev(a))
            if self.s is None:
                return UNDEF
        for k in e.keywords:
            v = self.ev(k.value)
            if self.s is None:
                return UNDEF
            if k.arg is None:
                i = strip_alloc(v)
                if i.op == 'dictlit' and all(a.op == 'const' for a, _ in i.args) and (v, '#') not in self.s.heap:
                    kwargs.update({cval(a): b for a, b in i.args})
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, e)

    def star_items(self, v):
        return list(v.args) if v.op == 'tup' else None

    def tuple_len(self, v):
        """Length of a tuple-valued term, from the annotation of the function that returns it."""
        if v.op == 'call' and v.args[0].op == 'fn':
            ty = self.typeof(v)
            if ty and ty[0] == 'G' and ty[1] == 'Tuple':
                return len(ty) - 2
        if v.op == 'mcall':
            ty = self.typeof(v)
            if ty and ty[0] == 'G' and ty[1] == 'Tuple':
                return len(ty) - 2
        return None

    def call(self, f, args, kwargs, e):
        if self.s is None:
            return UNDEF
        if f.op == 'phi':
            m = self.merged_attr(f)
            if m is not None:
                return self.call_method(m[0], m[1], args, kwargs, e)
            if any(x.op in ('fn', 'cls', 'clo', 'bm') for x in f.args[1:]):
                out = {}
                self.branch(f.args[0], lambda: out.__setitem__(1, self.call(f.args[1], args, kwargs, e)),
                            lambda: out.__setitem__(2, self.call(f.args[2], args, kwargs, e)))
                if self.s is None:
                    return UNDEF
                if 1 in out and 2 in out:
                    return phi(f.args[0], out[1], out[2])
                return out.get(1, out.get(2))
        if f.op == 'clo':
            fi, parent = self.clos[f]
            if not self.blocked(fi):
                return self.call_repo(fi, args, kwargs, e, parent=parent)
            return self.opaque_call(f, args, kwargs, e)
        if f.op == 'fn':
            fi = self.p.functions[f.args[0]]
            if self.generator(fi) or self.blocked(fi) or fi.is_property:
                return self.opaque_call(f, args, kwargs, e, fi=fi)
            if fi.is_classmethod:
                return self.call_repo(fi, [t('cls', fi.cls.qual)] + list(args), kwargs, e)
            return self.call_repo(fi, args, kwargs, e)
        if f.op == 'cls':
            return self.construct(f.args[0], args, kwargs, e)
        if f.op == 'bm':
            return self.call_method(f.args[0], f.args[1], args, kwargs, e)
        if f.op == 'attr':
            return self.call_method(f.args[0], f.args[1], args, kwargs, e)
        if f.op == 'glob':
            return self.call_global(f, args, kwargs, e)
        return self.opaque_call(f, args, kwargs, e)

    def merged_attr(self, f):
        """(object, name) if every branch of a merged callable is the same attribute."""
        if f.op == 'attr':
            return f.args
        if f.op == 'phi':
            a, b = self.merged_attr(f.args[1]), self.merged_attr(f.args[2])
            if a is not None and b is not None and a[1] == b[1]:
                return phi(f.args[0], a[0], b[0]), a[1]
        return None

    def call_method(self, o, name, args, kwargs, e):
        o = strip_st(o)
        if o.op == 'super':
            me, cq = o.args
            fi = None
            for k in self.p.mro(cq)[1:]:
                if name in k.methods:
                    fi = k.methods[name]
                    break
            if fi is not None and not self.blocked(fi) and not self.generator(fi) and not fi.is_abstract:
                return self.call_repo(fi, [me] + args, kwargs, e, cls=fi.cls.qual)
            return self.opaque_method(o, name, args, kwargs, e, [fi] if fi else [])
        c = self.class_of(o)
        if c is not None:
            fi = self.p.lookup(c, name)
            if fi is not None:
                cands = [fi] + [k.methods[name] for k in self.p.subclasses(c) if name in k.methods]
                if not fi.is_static and not fi.is_classmethod:
                    full = [o] + args
                elif fi.is_classmethod:
                    full = [t('cls', c)] + args
                else:
                    full = args
                if (len(cands) > 1 and not self.exact(o)) or fi.is_abstract or self.generator(fi) or self.blocked(fi):
                    return self.opaque_method(o, name, args, kwargs, e, cands)
                return self.call_repo(fi, full, kwargs, e, cls=c)
        if name == '__getitem__' and len(args) == 1:
            return self.getsub(o, args[0], e)
        if name == '__setitem__' and len(args) == 2:
            self.setsub(o, args[0], args[1], e)
            return NONE
        if name == 'get' and len(args) >= 1 and self.is_dictlike(o):
            k = args[0]
            d = args[1] if len(args) > 1 else NONE
            return phi(self.membership(k, o), self.read_sub(o, k), d)
        if name == 'format' and o.op == 'const' and isinstance(cval(o), str) and not kwargs:
            r = str_format(cval(o), args)
            if r is not None:
                return r
        if name == 'join' and o.op == 'const' and len(args) == 1:
            i = strip_alloc(self.val(args[0]))
            if i.op in ('lit', 'tup'):
                xs = i.args[1:] if i.op == 'lit' else i.args
                parts = []
                for j, x in enumerate(xs):
                    if j:
                        parts.append(o)
                    parts.append(x)
                return fstr(*parts)
        if name == 'setdefault' and len(args) in (1, 2) and not kwargs and self.is_dictlike(o):
            return self.setdefault(o, args[0], args[1] if len(args) > 1 else NONE, e)
        if name in MUTATORS and not (o.op == 'glob') or kwargs.get('inplace') is TRUE:
            return self.mutating(o, name, args, kwargs, e)
        return self.opaque_method(o, name, args, kwargs, e, [])

    def is_dictlike(self, o):
        ty = self.typeof(o)
        if ty and ty[0] == 'G' and ty[1] in ('Dict', 'dict'):
            return True
        i = strip_alloc(o)
        return i.op == 'dictlit' or (i.op == 'collect' and i.args[0] == 'dict')

    def setdefault(self, o, k, default, e):
        """if k not in o: o[k] = default; o[k]"""
        c = self.membership(k, o)
        out = {}

        def absent():
            self.setsub(o, k, default, e)
            out[2] = default
        self.branch(c, lambda: out.__setitem__(1, self.getsub(o, k, e)), absent)
        if self.s is None:
            return UNDEF
        if 1 not in out or 2 not in out:
            return out.get(1, out.get(2))
        return phi(c, out[1], out[2])

    def mutating(self, o, name, args, kwargs, e):
        before = self.val(o)
        k = tuple(sorted(kwargs.items()))
        av = tuple(self.val(a) for a in args)
        res = t('mcall', name, before, av, k)
        self.emit('mutate', e, obj=o, op=name, args=tuple(args), kwargs=k, res=res)
        if kwargs.get('inplace') is not TRUE or True:
            self.touch(o, t('upd', self.content(o), name, *(av + tuple(v for _, v in k))))
        if name in ('pop', 'popleft', 'popitem', 'setdefault'):
            if name == 'pop' and self.is_dictlike(o) and len(args) == 1:
                return sub(before, args[0])
            return res
        return NONE

    def opaque_method(self, o, name, args, kwargs, e, cands):
        k = tuple(sorted((n, self.val(v)) for n, v in kwargs.items()))
        av = tuple(self.val(a) for a in args)
        ov = self.val(o) if o.op != 'super' else o
        r = t('mcall', name, ov, av, k)
        if name in FRESH_METHODS and not cands and not (name == 'astype' and kwargs.get('copy') is FALSE):
            r = self.alloc(r, e)
        self.emit('call', e, func=t('meth', name), obj=o, key=name, args=tuple(args), kwargs=tuple(sorted(kwargs.items())),
                  value=r, cands=cands)
        return r

    def opaque_call(self, f, args, kwargs, e, fi=None):
        k = tuple(sorted((n, self.val(v)) for n, v in kwargs.items()))
        av = tuple(self.val(a) for a in args)
        if fi is not None:
            av, k = self.normal_args(fi, av, k)
        r = t('call', f, av, k)
        if f.op == 'glob' and f.args[0] in FRESH_CALLS:
            r = self.alloc(r, e)
        self.emit('call', e, func=f, args=tuple(args), kwargs=tuple(sorted(kwargs.items())), value=r, fi=fi)
        o = kwargs.get('out')
        if o is not None and fi is None and not is_const(o):
            self.touch(o, t('upd', self.content(strip_st(o)), 'out', r))
        return r

    def normal_args(self, fi, av, k):
        """Keyword arguments of a known function are moved to their position."""
        names = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
        kw = dict(k)
        out = list(av)
        if any(a.op == 'star' for a in av) or '**' in kw:
            return av, k
        for n in names[len(out):]:
            if n in kw:
                out.append(kw.pop(n))
            else:
                break
        return tuple(out), tuple(sorted(kw.items()))

    def construct(self, q, args, kwargs, e):
        c = self.p.classes.get(q)
        obj = self.alloc(t('new', q), e)
        self.emit('new', e, func=t('cls', q), args=tuple(args), kwargs=tuple(sorted(kwargs.items())), value=obj)
        if c is None:   # namedtuple
            mod, name = q.rsplit('.', 1)
            call = self.p.modules[mod].consts[name]
            fields = [x.value for x in call.args[1].elts] if isinstance(call.args[1], (ast.List, ast.Tuple)) \
                else call.args[1].value.replace(',', ' ').split()
            for f, v in zip(fields, args):
                self.s.heap[(obj, f)] = v
            for f, v in kwargs.items():
                self.s.heap[(obj, f)] = v
            return obj
        if c.is_attrs and '__init__' not in c.methods:
            fields = list(c.annots)
            given = dict(zip(fields, args))
            given.update(kwargs)
            for f in fields:
                if f in given:
                    v = given[f]
                else:
                    d = c.attrs.get(f)
                    v = self.attrs_default(d, e)
                self.s.heap[(obj, f)] = v
            return obj
        fi = self.p.lookup(q, '__init__')
        if fi is not None and not self.blocked(fi):
            self.call_repo(fi, [obj] + args, kwargs, e, cls=q)
        if self.s is None:
            return UNDEF
        if not any(b in self.p.classes for b in c.bases) and c.bases and c.bases[0] not in ('builtins.object',):
            self.s.heap.setdefault((obj, '##args'), t('tup', *[self.val(a) for a in args]))
        return obj

    def attrs_default(self, d, e):
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg == 'factory':
                    return self.alloc(t('call', self.ev(k.value), (), ()), e, k.value)
                if k.arg == 'default':
                    if isinstance(k.value, ast.Call):
                        n = k.value.func.attr if isinstance(k.value.func, ast.Attribute) else getattr(k.value.func, 'id', '')
                        if n == 'Factory':
                            return self.alloc(t('call', self.ev(k.value.args[0]), (), ()), e, k.value)
                    return self.ev(k.value)
        return t('opaque', self.site(e), 'default')

    def call_global(self, f, args, kwargs, e):
        q = f.args[0]
        n = q.split('.')[-1]
        if q.startswith('builtins.'):
            if n == 'isinstance' and len(args) == 2:
                return self.isinstance_(args[0], args[1])
            if n == 'len' and len(args) == 1:
                return self.length(args[0])
            if n == 'getattr' and len(args) == 2 and args[1].op == 'const':
                return self.getattr_(args[0], cval(args[1]), e)
            if n == 'setattr' and len(args) == 3 and args[1].op == 'const':
                self.setattr_(args[0], cval(args[1]), args[2], e)
                return NONE
            if n == 'hasattr' and len(args) == 2:
                return t('hasattr', args[0], args[1])
            if n == 'divmod' and len(args) == 2:
                self.emit('div', e, obj=args[0], value=args[1], op='//')
                return t('tup', binop('//', *args), binop('%', *args))
            if n == 'int' and len(args) == 1 and args[0].op in ('iv', 'len') or \
                    n == 'int' and len(args) == 1 and args[0].op == 'bin' and args[0].args[0] in ('//', '%'):
                return args[0]
            if n == 'str' and len(args) == 1 and args[0].op == 'const':
                return const(str(cval(args[0])))
            if n == 'str' and len(args) == 1 and args[0].op == 'fstr':
                return args[0]
            if n == 'str' and len(args) == 1:
                self.emit('call', e, func=f, args=tuple(args), kwargs=(), value=fstr(args[0]))
                return t('call', f, (self.val(args[0]),), ())
            if n == 'tuple' and len(args) == 1 and args[0].op == 'tup':
                return args[0]
            if n in ('max', 'min') and len(args) == 2 and not kwargs:
                a, b = sorted(args)
                return t('call', f, (a, b), ())
            if n == 'callable':
                return t('call', f, tuple(args), ())
        if q == 'builtins.object.__setattr__' and len(args) == 3 and args[1].op == 'const':
            o = strip_st(args[0])
            self.emit('setattr', e, obj=o, key=cval(args[1]), value=args[2], op=None)
            self.s.heap[(o, cval(args[1]))] = args[2]
            return NONE
        return self.opaque_call(f, args, kwargs, e)

    def length(self, x):
        o = strip_st(x)
        if (o, '#') not in self.s.heap:
            i = strip_alloc(o)
            if i.op == 'tup':
                return const(len(i.args))
            if i.op == 'lit' and i.args[0] != 'set' and not any(a.op == 'star' for a in i.args[1:]):
                return const(len(i.args) - 1)
            if i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0] in ('builtins.list', 'builtins.tuple') \
                    and len(i.args[1]) == 1:
                return t('len', i.args[1][0])
            if i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0] in ('numpy.zeros', 'numpy.arange') and \
                    i.args[1] and i.args[1][0].op not in ('tup', 'alloc'):
                return i.args[1][0]
        if o.op == 'mcall' and o.args[0] in ('keys', 'values', 'items') and not o.args[2]:
            return t('len', o.args[1])
        if o.op == 'attr' and o.args[1] == 'index':
            return t('len', o.args[0])
        # arrays keep their length whatever is stored into them
        v = self.val(o)
        if o.op == 'alloc' and strip_alloc(o).op in ('call', 'mcall') and (o, '#') in self.s.heap:
            i = strip_alloc(o)
            if i.op == 'mcall' and i.args[0] == 'astype' or i.op == 'call' and i.args[0].args[0].startswith('numpy.'):
                return t('len', o)
        return t('len', v)

    def isinstance_(self, x, c):
        x = strip_st(x)
        cs = list(c.args if c.op == 'tup' else c.args[1:] if c.op == 'lit' else [c])
        out = []
        for k in cs:
            if k.op == 'star':
                out.append(t('isinst', x, k))
                continue
            if is_const(x) and k.op == 'glob' and k.args[0].startswith('builtins.'):
                v = cval(x)
                out.append(const(type(v).__name__ == k.args[0].split('.')[1] or
                                 (isinstance(v, bool) and k.args[0].endswith('.int'))))
                continue
            if is_const(x, None):
                out.append(FALSE)
                continue
            if self.exact(x) and k.op == 'cls':
                qx = x.args[0].args[0]
                out.append(const(self.p.has_base(qx, k.args[0])))
                continue
            ty = self.typeof(x) if x.op not in ('param', 'nonnull', 'sub') else None
            if ty and ty[0] == 'C' and k.op == 'cls' and self.p.has_base(ty[1], k.args[0]) and x.op in ('attr',) \
                    and False:
                out.append(TRUE)
                continue
            out.append(t('isinst', x, k))
        return disj(*out)

    def generator(self, fi):
        return fi.is_gen or fi.is_ctx

    def call_repo(self, fi, args, kwargs, e, cls=None, parent=None):
        """Expands a call to a function of the project."""
        node = fi.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        konly = [x.arg for x in a.kwonlyargs]
        params = {}
        rest = []
        opaque_star = False
        for i, v in enumerate(args):
            if v.op == 'star':
                opaque_star = True
                break
            if i < len(names):
                params[names[i]] = v
            else:
                rest.append(v)
        extra = {}
        for k, v in kwargs.items():
            if k == '**':
                extra['**'] = v
            elif k in names or k in konly:
                params[k] = v
            else:
                extra[k] = v
        if a.vararg:
            params[a.vararg.arg] = t('tup', *rest) if not opaque_star else t('opaque', self.site(e), a.vararg.arg)
        if a.kwarg:
            if list(extra) == ['**']:
                params[a.kwarg.arg] = extra['**']
            else:
                params[a.kwarg.arg] = self.alloc(t('dictlit', *[(const(k), v) for k, v in extra.items() if k != '**']), e) \
                    if '**' not in extra else t('opaque', self.site(e), a.kwarg.arg)
        # defaults
        module, outer = fi.module, parent
        d = list(a.defaults)
        for n, dv in zip(names[len(names) - len(d):], d):
            if n not in params:
                params[n] = self.default(dv, fi, e) if not opaque_star else t('opaque', self.site(e), n)
        for n, dv in zip(konly, a.kw_defaults):
            if n not in params and dv is not None:
                params[n] = self.default(dv, fi, e)
        for n in names + konly:
            if n not in params:
                params[n] = t('opaque', self.site(e), n)
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v = params[x.arg]
            if x.annotation is not None and v.op in ('sub', 'attr', 'call', 'mcall', 'param', 'opaque') \
                    and self.typeof(v) is None:
                ty = self.parse_type(x.annotation, fi.module, fi.cls)
                if ty is not None:
                    self.types[strip_st(v)] = ty
        fid = self.stack[-1].fid + ((fi.qual, getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0), getattr(e, 'end_lineno', 0), getattr(e, 'end_col_offset', 0)),)
        fr = Frame(fid, fi, fi.module, fi.cls, parent)
        if fi.cls is not None and not fi.is_static and not fi.is_classmethod and names:
            me = params[names[0]]
            if self.class_of(me) is None and me.op in ('param', 'opaque', 'attr', 'sub'):
                self.types[me] = ('C', cls or fi.cls.qual)
        self.emit('enter', e, func=t('fn', fi.qual) if fi.qual in self.p.functions else t('clo', fi.qual),
                  args=tuple(params.get(n) for n in names), kwargs=tuple((n, params[n]) for n in konly), fi=fi)
        saved_loops = self.loops
        v = self.exec_function(fr, params, node)
        self.loops = saved_loops
        if self.s is None:
            return UNDEF
        return v

    def default(self, d, fi, e):
        if isinstance(d, ast.Constant):
            return const(d.value)
        v = self.fold(d, fi.module)
        if v is not None:
            return v
        return t('default', fi.qual, ast.unparse(d))


# ---------------------------------------------------------------------------------------------- helpers
def mklit(kind, xs):
    if kind == 'set':
        xs = sorted(set(xs), key=lambda x: repr(x) if x.op == 'const' else 'z%09d' % x.uid)
    return t('lit', kind, *xs)


def strip_st(x):
    while x.op == 'st':
        x = x.args[0]
    return x


def strip_alloc(x):
    while x.op == 'alloc':
        x = x.args[0]
    return x


def phi_cond(c, a, b):
    if truth(a) is not None and truth(b) is not None:
        if truth(a) and not truth(b):
            return c
        if truth(b) and not truth(a):
            return nneg(c)
        return const(truth(a))
    if truth(a) is True:
        return disj(c, b)
    if truth(a) is False:
        return conj(nneg(c), b)
    if truth(b) is True:
        return disj(nneg(c), a)
    if truth(b) is False:
        return conj(c, a)
    return phi(c, a, b)


def mkrange(a, b):
    return t('range', a, b)


def range_domain(a, parallel):
    step = a[2] if len(a) > 2 else const(1)
    start = a[0] if len(a) > 1 else const(0)
    stop = a[1] if len(a) > 1 else a[0]
    if is_const(step, 1):
        if all(x.op == 'const' and isinstance(cval(x), int) for x in (start, stop)) and 0 <= cval(stop) - cval(start) <= 8 and not parallel:
            return Domain(mkrange(start, stop), lambda iv: iv, unroll=[const(i) for i in range(cval(start), cval(stop))])
        return Domain(mkrange(start, stop), lambda iv: iv, parallel, zero_based=is_const(start, 0))
    if is_const(step, -1):
        return Domain(mkrange(const(0), binop('-', start, stop) if not is_const(stop, -1)
                              else binop('+', start, const(1))),
                      lambda iv: binop('-', start, iv), parallel)
    return Domain(t('range', start, stop, step), lambda iv: iv, parallel, zero_based=False)


def step_of(st, m):
    """k if st == m + k for an integer constant k."""
    if st.op == 'bin' and st.args[0] in ('+', '-') and st.args[1] is m and st.args[2].op == 'const' \
            and isinstance(cval(st.args[2]), int):
        return cval(st.args[2]) if st.args[0] == '+' else -cval(st.args[2])
    if st.op == 'bin' and st.args[0] == '+' and st.args[2] is m and st.args[1].op == 'const' \
            and isinstance(cval(st.args[1]), int):
        return cval(st.args[1])
    return None


def induct(init, step, iv, loop):
    if init == 'self':
        return iv
    # iv counts from the start of the loop's domain
    start = const(0)
    if loop.domain is not None and loop.domain.op == 'range':
        start = loop.domain.args[0]
    n = binop('-', iv, start)
    if step == 1 and init is start:
        return iv
    if step == 1:
        return binop('+', n, init) if not is_const(init, 0) else n
    if step == -1:
        return binop('-', init, n)
    return binop('+', init, binop('*', const(step), n))


def rename_mu(c, key):
    m = {}
    for x in walk(c, False):
        if x.op == 'mu' and x.args[0] == key:
            m[x] = t('eta', key, x.args[1])
    return subst(c, m) if m else c


def view_roots(o):
    """Objects whose memory a view shares."""
    out = []
    todo = [o]
    while todo:
        x = strip_st(todo.pop())
        if x in out:
            continue
        out.append(x)
        if x.op == 'sub':
            k = x.args[1]
            if k.op == 'slice' or is_const(k, Ellipsis) or (k.op == 'tup' and any(
                    y.op == 'slice' or is_const(y, Ellipsis) for y in k.args)) or k.op in ('iv', 'const'):
                todo.append(x.args[0])
        elif x.op == 'attr' and x.args[1] in VIEW_ATTRS:
            todo.append(x.args[0])
        elif x.op == 'mcall' and (x.args[0] in VIEW_METHODS or x.args[0] == 'astype'):
            todo.append(x.args[1])
        elif x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in VIEW_CALLS and x.args[1]:
            todo.append(x.args[1][0])
        elif x.op == 'phi':
            todo.extend(x.args[1:])
        elif x.op in ('mu', 'eta') and x.args[0] in LOOPS:
            lp = LOOPS[x.args[0]]
            for d in (lp.init, lp.step):
                if x.args[1] in d:
                    todo.append(d[x.args[1]])
    return out


def percent(s, b):
    parts, args = [], None
    xs = list(b.args) if b.op == 'tup' else [b]
    i, buf = 0, ''
    j = 0
    while j < len(s):
        if s[j] == '%':
            if j + 1 < len(s) and s[j + 1] == '%':
                buf += '%'
                j += 2
                continue
            if j + 1 < len(s) and s[j + 1] in 'sd':
                if i >= len(xs):
                    return None
                parts.append(const(buf))
                buf = ''
                parts.append(xs[i])
                i += 1
                j += 2
                continue
            return None
        buf += s[j]
        j += 1
    parts.append(const(buf))
    return fstr(*parts)


def str_format(s, args):
    parts, i, j, buf = [], 0, 0, ''
    while j < len(s):
        if s[j] == '{':
            k = s.find('}', j)
            if k < 0:
                return None
            inner = s[j + 1:k]
            if inner == '':
                idx = i
                i += 1
            elif inner.isdigit():
                idx = int(inner)
            else:
                return None
            if idx >= len(args):
                return None
            parts.append(const(buf))
            buf = ''
            parts.append(args[idx])
            j = k + 1
            continue
        buf += s[j]
        j += 1
    parts.append(const(buf))
    return fstr(*parts)


def target_names(targets):
    out = set()
    for tg in targets:
        for n in ast.walk(tg):
            if isinstance(n, ast.Name):
                out.add(n.id)
    return out


def assigned_names(fn):
    out = set()
    if isinstance(fn, ast.Lambda):
        return out
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out
