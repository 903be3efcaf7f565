"""The value-flow interpreter on small programs over linked frames (witness programs).

A witness program is a few lines of Python that use the public interface of LinkedDataFrame.  It is not run: it is added
to the program under analysis and the value that it returns is derived from the source, with the frames, their columns
and their keys symbolic.  Dictionaries with known keys (links by name, fill values by type) are followed exactly, and the
few operations of pandas that give another frame are described by what they do to the rows.
"""
from __future__ import annotations

import ast
import builtins
import copy

from .interp import (FALSE, NONE, TRUE, UNDEF, Domain, T, conj, const, cval, glob, is_const, nneg, strip_alloc, strip_st, t)
from .terms import disj
from .project import Module, FuncInfo
from .shapes import ShapeInterp

LDF = 'cheval.ldf.api.LinkedDataFrame'
PRE = '''
import numpy as np
import pandas as pd
from cheval.ldf.api import LinkedDataFrame
'''


def add_source(p, name, src):
    """Adds a module of witness programs to the program under analysis."""
    if name in p.modules:
        return
    m = Module(name, name, name, ast.parse(PRE + src), False)
    p.modules[name] = m
    before = set(p.functions)
    p._collect(m)
    for q in set(p.functions) - before:
        p.functions[q].decorators = []


def sym(k):
    """A key whose identity is known."""
    return k.op in ('const', 'glob') or k.op == 'tup' and all(sym(x) for x in k.args)


def q_of(e):
    return ast.dump(e)


def same_key(a, b):
    return a is b or a.op == 'const' and b.op == 'const' and type(cval(a)) is type(cval(b)) and cval(a) == cval(b)


class FrameInterp(ShapeInterp):
    def __init__(self, project, **kw):
        self.unique = kw.pop('unique', {})      # data (a parameter of the program) -> are its keys unique?
        self.keys = kw.pop('keys', {})          # data -> meaning of its keys at a row
        self.columns = kw.pop('columns', ())    # names of columns
        self.links = kw.pop('links', ())        # names of links
        self.flat = kw.pop('flat', True)        # do all frames have a single level of columns?
        self.closed = kw.pop('closed', False)   # do all frames have exactly these columns?
        self.given = kw.pop('given', {})        # parameter of the program -> its class
        self.calls = kw.pop('calls', {})        # functions replaced by a description
        self.handled, self.managers, self.yields = [], {}, []
        super().__init__(project, **kw)

    def exec_function(self, fr, params, node):
        if not self.stack:      # objects that belong to classes
            self.stack.append(fr)
            self.s.envs[fr.fid] = {}
            for c in list(self.p.classes.values()):
                for name, e in c.attrs.items():
                    q = self.p.resolve_expr(c.module, e.func, c) if isinstance(e, ast.Call) else None
                    if q in self.p.classes and not e.args and not e.keywords and c.module.name.startswith('cheval.ldf'):
                        self.s.heap[(t('cls', c.qual), name)] = self.construct(q, [], {}, e)
                    elif isinstance(e, (ast.Dict, ast.List, ast.Set)) and c.module.name.startswith('cheval.ldf') and not self.p.has_base(c.qual, 'Enum') and \
                            not (e.keys if isinstance(e, ast.Dict) else e.elts):
                        self.s.heap[(t('cls', c.qual), name)] = self.ev(e)
            self.stack.pop()
            del self.events[:]
        return super().exec_function(fr, params, node)

    def global_value(self, q):
        mod, _, name = q.rpartition('.')
        m = self.p.modules.get(mod)
        e = m.consts.get(name) if m is not None else None
        if isinstance(e, ast.Dict) and all(k is not None for k in e.keys):
            ps = [(self.fold(k, m), self.fold_any(v, m)) for k, v in zip(e.keys, e.values)]
            if all(k is not None for k, _ in ps):
                return t('alloc', t('dictlit', *ps), ('module', q))
        return super().global_value(q)

    def fold_any(self, e, m):
        v = self.fold(e, m)
        if v is None and isinstance(e, ast.Call) and not e.keywords:
            f = self.p.resolve_expr(m, e.func)
            xs = [self.fold(x, m) for x in e.args]
            if f is not None and all(x is not None for x in xs):
                v = t('call', glob(f), tuple(xs), ())
        return v if v is not None else t('opaque', (q_of(e), m.name), 'constant')

    # ---------------------------------------------------------------------------------------- exceptions
    def classes_of(self, v):
        """Names of the classes of an exception, or None."""
        v = strip_alloc(strip_st(v))
        while v.op == 'call':
            v = v.args[0]
        if v.op not in ('new', 'glob', 'cls'):
            return None
        q = v.args[0]
        out, todo = set(), [q]
        while todo:
            q = todo.pop()
            out.add(q.rsplit('.', 1)[-1])
            if q in self.p.classes:
                todo += [b for k in self.p.mro(q) for b in k.bases if b not in self.p.classes]
            else:
                k = getattr(builtins, q.rsplit('.', 1)[-1], None)
                out |= {x.__name__ for x in getattr(k, '__mro__', ())}
        return out

    def matching(self, h, v, module):
        """Does a handler catch an exception?  None if unknown."""
        if h.type is None:
            return True
        cs = self.classes_of(v)
        names = [x for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        names = {ast.unparse(x).rsplit('.', 1)[-1] for x in names}
        if names & {'Exception', 'BaseException'}:
            return True
        return None if cs is None else bool(names & cs)

    def do_raise(self, n, v):
        if v.op == 'reraise' and self.handled:
            v = self.handled[-1]
        self.emit('raise', n, value=v)
        self.throw(v)

    def harmless(self, i):
        """Is all that happened known not to raise anything?"""
        return all(e.kind in ('enter', 'return') or e.kind == 'load' and self.is_frame(e.obj) and is_const(e.key) and cval(e.key) in self.columns or
                   e.kind == 'setsub' and self.pairs(e.obj) is not None or e.kind == 'load' and self.there(e.obj, e.key) for e in self.events[i:])

    def there(self, o, k):
        """Is this a key of a dict, or a position of a list, of known contents?"""
        ps = self.pairs(o)
        if ps is not None:
            return sym(k) and any(same_key(a, k) for a, _ in ps)
        xs = self.elems(o)
        return xs is not None and is_const(k) and isinstance(cval(k), int) and -len(xs) <= cval(k) < len(xs)

    def depth(self):
        return sum(k is not None for k, _ in self.loops)

    def throw(self, v):
        for key, ctx in self.loops:
            ctx.exits.append(conj(*[g if p else nneg(g) for g, p, _ in self.s.guards[len(ctx.base):]]))
        for tr in reversed(self.tries):
            if tr['kind'] == 'with':
                continue
            found = None
            for h in tr['handlers']:
                found = self.matching(h, v, None)
                if found is not False:
                    break
            else:
                h = None
            if found is None and h is not None or self.depth() > tr.get('loops', 99):
                tr['vague'] = True
            if h is not None or tr['final']:
                tr['raises'].append((self.s, v, h))
                break
        self.s = None

    def x_Try(self, n):
        s0 = self.s.copy()
        k = len(s0.guards)
        tr = {'kind': 'try', 'node': n, 'handlers': n.handlers, 'raises': [], 'final': bool(n.finalbody), 'loops': self.depth(), 'vague': False}
        marks = [(fr, len(fr.returns)) for fr in self.stack]
        self.tries.append(tr)
        n_events = len(self.events)
        self.block(n.body)
        caught = [x for x in tr['raises'] if x[2] is not None]
        if tr['vague'] or n.handlers and not caught and not self.stack[-1].module.name.startswith('witness') and not self.harmless(n_events):
            # exceptions of which nothing is known
            self.tries.pop()
            self.s = s0
            del self.events[n_events:]
            for fr, m in marks:
                del fr.returns[m:]
            return super().x_Try(n)
        tr['handlers'] = []
        if self.s is not None:
            self.block(n.orelse)
        out = self.s
        for s, v, h in reversed(caught):
            c = conj(*[g if p else nneg(g) for g, p, _ in s.guards[k:]])
            self.s = s.copy()
            if h.name:
                self.set_var(h.name, v)
            self.handled.append(v)
            self.block(h.body)
            self.handled.pop()
            out = self.merge(c, self.s, out, k)
        self.tries.pop()
        self.s = out
        if n.finalbody:
            if out is not None:
                self.block(n.finalbody)
                out = self.s
            for fr, m in marks:
                for i in range(len(fr.returns) - 1, m - 1, -1):
                    self.s = fr.returns[i][0]
                    self.block(n.finalbody)
                    if self.s is None:
                        del fr.returns[i]
                    else:
                        fr.returns[i] = (self.s, fr.returns[i][1])
            for s, v, h in tr['raises']:
                if h is None:
                    self.s = s
                    self.block(n.finalbody)
                    if self.s is not None:
                        self.throw(v)
            self.s = out
    x_TryStar = x_Try

    def x_With(self, n):
        if len(n.items) > 1:
            inner = ast.copy_location(ast.With(items=n.items[1:], body=n.body), n)
            return self.x_With(ast.copy_location(ast.With(items=n.items[:1], body=[inner]), n))
        v = self.ev(n.items[0].context_expr)
        if self.s is None:
            return
        x = strip_st(v)
        if x.op != 'ctx':
            # another manager: enter, body, exit
            self.emit('with', n, obj=v)
            if n.items[0].optional_vars is not None:
                self.assign(n.items[0].optional_vars, t('enter', v), n)
            self.tries.append({'kind': 'with', 'node': n, 'handlers': [], 'raises': []})
            self.block(n.body)
            self.tries.pop()
            if self.s is not None:
                self.emit('withexit', n)
            return
        fi, args, kwargs, cls, parent, e = self.managers[x.args[0]]
        self.emit('with', n, obj=v)
        if self.yields:     # a frame of its own
            e = copy.copy(e)
            e.col_offset += 1000 * len(self.yields)
        self.yields.append((n, list(self.stack)))
        super().call_repo(fi, args, kwargs, e, cls=cls, parent=parent)
        self.yields.pop()
        if self.s is not None:
            self.emit('withexit', n)

    def e_Yield(self, e):
        if not self.yields or self.yields[-1] is None or self.stack[:len(self.yields[-1][1])] != self.yields[-1][1]:
            return super().e_Yield(e)
        v = self.ev(e.value) if e.value is not None else NONE
        if self.s is None:
            return UNDEF
        n, stack = self.yields[-1]
        mine = self.stack
        self.stack = list(stack)
        self.yields.append(None)
        if n.items[0].optional_vars is not None:
            self.assign(n.items[0].optional_vars, v, n)
        self.block(n.body)
        self.yields.pop()
        self.stack = mine
        return NONE

    # ---------------------------------------------------------------------------------------- dictionaries
    def pairs(self, v):
        """The entries of a dictionary with known keys, or None."""
        o = strip_st(v)
        c = self.s.heap.get((o, '#')) if self.s is not None else None
        if c is None and v.op == 'st':
            c = v.args[1]
        if c is None:
            c = strip_alloc(o)
            if c.op == 'call' and c.args[0] is glob('builtins.dict') and not c.args[2]:
                if not c.args[1]:
                    return []
                return self.pairs(c.args[1][0]) if len(c.args[1]) == 1 else None
        if c.op != 'dictlit' or not all(sym(k) for k, _ in c.args):
            return None
        out = []
        for k, x in c.args:
            out = [(a, b) for a, b in out if not same_key(a, k)] + [(k, x)]
        return out

    def failed_comp(self):
        return True

    def entries(self, v):
        """The entries of a dictionary or of a sequence of pairs."""
        ps = self.pairs(v)
        if ps is None:
            xs = self.elems(v)
            ps = [tuple(self.elems(x) or ()) for x in xs] if xs is not None else None
            if ps is not None and not all(len(x) == 2 and sym(x[0]) for x in ps):
                return None
        return ps

    def e_Dict(self, e):
        v = super().e_Dict(e)
        if self.s is None:
            return v
        c = strip_alloc(strip_st(v))
        if c.op == 'dictlit' and any(k.op == 'star' for k, _ in c.args):
            out = []
            for k, x in c.args:
                ps = self.pairs(x) if k.op == 'star' else [(k, x)]
                if ps is None:
                    return v
                out += ps
            if all(sym(k) for k, _ in out):
                return self.alloc(t('dictlit', *out), e)
        return v

    def e_BinOp(self, e):
        if isinstance(e.op, ast.BitOr):
            s0, n0 = self.s.copy(), len(self.events)
            a, b = self.ev(e.left), self.ev(e.right)
            if self.s is not None:
                pa, pb = self.pairs(a), self.pairs(b)
                if pa is not None and pb is not None:
                    return self.alloc(t('dictlit', *(pa + pb)), e)
            self.s = s0
            del self.events[n0:]
        return super().e_BinOp(e)

    def x_AugAssign(self, n):
        if isinstance(n.op, ast.BitOr) and isinstance(n.target, (ast.Name, ast.Attribute)):
            s0, n0 = self.s.copy(), len(self.events)
            tg = copy.copy(n.target)
            tg.ctx = ast.Load()
            a, b = self.ev(tg), self.ev(n.value)
            if self.s is not None and strip_st(a).op == 'alloc' and self.pairs(a) is not None and self.pairs(b) is not None:
                self.mutating(a, 'update', [b], {}, n)
                return
            self.s = s0
            del self.events[n0:]
        super().x_AugAssign(n)

    def put(self, o, ps):
        self.s.heap[(strip_st(o), '#')] = t('dictlit', *ps)

    def setsub(self, o, k, v, node, aug=None, operand=None):
        ps = self.pairs(o) if strip_st(o).op == 'alloc' else None
        super().setsub(o, k, v, node, aug, operand)
        if ps is not None and sym(k):
            old = [i for i, (a, _) in enumerate(ps) if same_key(a, k)]
            if old:
                ps[old[0]] = (ps[old[0]][0], self.val(v))
            else:
                ps.append((k, self.val(v)))
            self.put(o, ps)

    def read_sub(self, o, k):
        ps = self.pairs(o)
        if ps is not None and sym(k):
            for a, b in ps:
                if same_key(a, k):
                    return b
        if o.op == 'cls' and is_const(k) and isinstance(cval(k), str) and cval(k) in self.p.classes[o.args[0]].attrs:
            return self.class_attr(o.args[0], cval(k))
        return super().read_sub(o, k)

    def elems(self, v):
        xs = super().elems(v)
        if xs is not None:
            return xs
        xs = self.all_columns(v)
        if xs is not None:
            return xs
        o = strip_alloc(strip_st(v))
        if o.op == 'lit' and o.args[0] == 'set' and (strip_st(v), '#') not in self.s.heap and all(sym(x) for x in o.args[1:]):
            return list(dict.fromkeys(o.args[1:]))
        if o.op == 'call' and o.args[0].op == 'glob' and len(o.args[1]) == 1 and not o.args[2] and \
                o.args[0].args[0] in ('builtins.sorted', 'builtins.set', 'builtins.frozenset', 'builtins.list', 'builtins.tuple'):
            xs = self.elems(o.args[1][0])
            if xs is not None and o.args[0].args[0] == 'builtins.sorted':
                return sorted(xs, key=cval) if all(is_const(x) and isinstance(cval(x), str) for x in xs) else None
            return xs
        return None

    def membership(self, x, coll):
        ps = self.pairs(coll)
        if ps is not None and sym(x):
            return const(any(same_key(a, x) for a, _ in ps))
        o = strip_st(coll)
        if o.op == 'mcall' and o.args[0] == 'keys':
            return self.membership(x, o.args[1])
        if is_const(x) and cval(x) in self.columns:
            if o.op == 'attr' and o.args[1] == 'columns' or self.is_frame(o):
                return TRUE
        if is_const(x) and (cval(x) in self.links or isinstance(cval(x), str) and not cval(x).isidentifier()):
            if o.op == 'attr' and o.args[1] == 'columns' or self.is_frame(o):
                return FALSE
        f = strip_st(o.args[0]) if o.op == 'attr' and o.args[1] == 'columns' else o
        if self.is_frame(f) and self.no_column(f, x):
            return FALSE
        return super().membership(x, coll)

    def is_frame(self, o):
        o = strip_st(o)
        if self.class_of(o) == LDF:
            return True
        i = strip_alloc(o)
        return i.op == 'call' and i.args[0] is glob('pandas.DataFrame')

    def enums(self, c):
        """Decides comparisons of members of enumerations."""
        if c.op == 'cmp' and c.args[0] in ('==', 'is') and all(x.op == 'glob' and x.args[0].rpartition('.')[0] in self.p.classes
                                                               for x in c.args[1:]):
            return const(c.args[1] is c.args[2])
        if c.op == 'cmp' and c.args[0] == 'is' and is_const(c.args[2], None) and self.is_object(c.args[1]):
            return FALSE
        if c.op == 'or':
            return disj(*[self.enums(x) for x in c.args])
        if c.op == 'and':
            return conj(*[self.enums(x) for x in c.args])
        if c.op == 'not':
            return nneg(self.enums(c.args[0]))
        return c

    def is_object(self, x, depth=0):
        """Is this surely not None, as the result of a function that gives arrays, indexes or the like?"""
        o = strip_st(x)
        if o.op == 'param' and o.args[0] in self.given or o.op == 'attr' and o.args[1] in ('columns', 'index') and self.is_frame(o.args[0]):
            return True
        x = strip_alloc(strip_st(x))
        if x.op == 'phi':
            return depth < 12 and self.is_object(x.args[1], depth + 1) and self.is_object(x.args[2], depth + 1)
        if x.op == 'sub' and is_const(x.args[1]):
            y = strip_alloc(strip_st(x.args[0]))
            return y.op == 'mcall' and y.args[0] == 'factorize' or y.op == 'call' and y.args[0].args[0] in ('pandas.factorize', 'numpy.nonzero')
        if x.op == 'sub' and self.is_object(x.args[1], depth + 1):
            return True     # rows of an array
        if x.op == 'param' and x.args[0].startswith('arr'):
            return True
        if x.op == 'mcall':
            return x.args[0] in ('get_indexer', 'to_numpy', 'factorize', 'reindex', 'groupby', 'get_level_values', 'copy', 'take', 'astype', 'ravel', 'nonzero')
        return x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in (
            'numpy.arange', 'numpy.zeros', 'numpy.nonzero', 'numpy.flatnonzero', 'numpy.asarray', 'numpy.array', 'pandas.Index', 'pandas.Series')

    def e_Compare(self, e):
        r = super().e_Compare(e)
        return self.enums(r) if self.s is not None else r

    def cond(self, e):
        r = super().cond(e)
        return self.enums(r) if self.s is not None else r

    def call_builtin_len(self, x, e):
        if strip_st(x).op == 'const' and isinstance(cval(strip_st(x)), (int, float)):
            self.do_raise(e, glob('builtins.TypeError'))
            return True
        return False

    def length(self, x):
        ps = self.pairs(x)
        return const(len(ps)) if ps is not None else super().length(x)

    def truthy(self, v):
        ps = self.pairs(v)
        return const(len(ps) > 0) if ps is not None else super().truthy(v)

    def domain(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'keys', 'values') and not e.args:
            s0, n0 = self.s.copy(), len(self.events)
            o = self.ev(e.func.value)
            if self.s is not None and self.pairs(o) is not None:
                d = self.term_domain(t('mcall', e.func.attr, o, (), ()))
                if d.unroll is not None:
                    return d
            self.s = s0
            del self.events[n0:]
        return super().domain(e)

    def term_domain(self, v):
        ps = self.pairs(v)
        if ps is None and v.op == 'mcall' and v.args[0] in ('items', 'keys', 'values') and not v.args[2]:
            qs = self.pairs(v.args[1])
            if qs is not None:
                xs = [t('tup', a, b) if v.args[0] == 'items' else a if v.args[0] == 'keys' else b for a, b in qs]
                return Domain(v, lambda iv: UNDEF, unroll=xs)
        if ps is not None:
            return Domain(v, lambda iv: UNDEF, unroll=[a for a, _ in ps])
        xs = self.all_columns(v)
        if xs is not None:
            return Domain(v, lambda iv: UNDEF, unroll=xs)
        return super().term_domain(v)

    def all_columns(self, v):
        o = strip_st(v)
        f = o.args[0] if o.op == 'attr' and o.args[1] == 'columns' else o
        if self.closed and self.is_frame(f) and (strip_st(f), '#') not in self.s.heap:
            return [const(x) for x in self.columns]

    def mutating(self, o, name, args, kwargs, e):
        ps = self.pairs(o) if strip_st(o).op == 'alloc' else None
        r = super().mutating(o, name, args, kwargs, e)
        if ps is None:
            return r
        if name == 'update' and len(args) <= 1:
            qs = self.entries(args[0]) if args else []
            rs = self.pairs(kwargs['**']) if '**' in kwargs else []
            if qs is not None and rs is not None:
                for k, v in qs + rs + [(const(k), v) for k, v in kwargs.items() if k != '**']:
                    hit = [i for i, (a, _) in enumerate(ps) if same_key(a, k)]
                    if hit:
                        ps[hit[0]] = (ps[hit[0]][0], v)
                    else:
                        ps.append((k, v))
                self.put(o, ps)
        elif name == 'clear':
            self.put(o, [])
        elif name in ('pop', 'setdefault') and args and sym(args[0]):
            hit = [b for a, b in ps if same_key(a, args[0])]
            if name == 'pop':
                self.put(o, [(a, b) for a, b in ps if not same_key(a, args[0])])
                return hit[0] if hit else args[1] if len(args) > 1 else r
            if not hit:
                ps.append((args[0], args[1] if len(args) > 1 else NONE))
            self.put(o, ps)
            return hit[0] if hit else ps[-1][1]
        return r

    # ---------------------------------------------------------------------------------------- frames
    def isinstance_(self, x, c):
        cs = list(c.args) if c.op == 'tup' else [c]
        o = strip_st(x)
        if all(z.op in ('glob', 'cls') for z in cs):
            names = [z.args[0] for z in cs]
            if o.op == 'const' and any(n.startswith(('pandas.', 'numpy.')) for n in names):
                rest = [z for z in cs if not z.args[0].startswith(('pandas.', 'numpy.'))]
                return self.isinstance_(x, t('tup', *rest)) if rest else FALSE
            if o.op == 'param' and o.args[0] in self.given and all(n.startswith(('builtins.', 'pandas.', 'numpy.', 'cheval.')) for n in names):
                return const(any(n.rsplit('.', 1)[-1] == self.given[o.args[0]].rsplit('.', 1)[-1] for n in names))
            if o.op == 'attr' and o.args[1] in ('columns', 'index') and self.is_frame(o.args[0]):
                short = {n.rsplit('.', 1)[-1] for n in names}
                if 'Index' in short or 'Hashable' in short and len(short) == 1:
                    return const('Index' in short)
                if short <= {'str', 'int', 'float', 'list', 'tuple', 'dict', 'set', 'Series', 'DataFrame', 'ndarray', 'NoneType', 'Grouper', 'bytes'}:
                    return FALSE
            if strip_alloc(o).op == 'call' and strip_alloc(o).args[0] is glob('pandas.DataFrame'):
                if all(n == LDF or n.startswith(('cheval.', 'builtins.')) for n in names):
                    return FALSE
            i = strip_alloc(o)
            own = {'lit': i.args[0] if i.op == 'lit' else None, 'tup': 'tuple', 'dictlit': 'dict'}.get(i.op)
            if own is not None and all(n.startswith(('builtins.', 'pandas.', 'numpy.')) for n in names):
                return const(f'builtins.{own}' in names)
            if o.op == 'const' and all(n.rsplit('.', 1)[-1] == 'Hashable' for n in names):
                return TRUE
            if self.class_of(o) == LDF and strip_alloc(o).op == 'new' and 'pandas.DataFrame' in names:
                return TRUE
        return super().isinstance_(x, c)

    def getsub(self, o, k, node):
        c = self.class_of(strip_st(o))
        if c is not None and self.p.lookup(c, '__getitem__') is not None:
            return self.call_method(o, '__getitem__', [k], {}, node)
        x = strip_st(o)
        if strip_alloc(x).op == 'call' and strip_alloc(x).args[0] is glob('pandas.DataFrame') and self.no_column(x, k):
            self.do_raise(node, glob('builtins.KeyError'))
            return UNDEF
        if x.op == 'cls' and is_const(k) and self.p.has_base(x.args[0], 'Enum') and \
                not any(cval(k) in b.attrs for b in self.p.mro(x.args[0])):
            self.do_raise(node, glob('builtins.KeyError'))
            return UNDEF
        ps = self.pairs(o)
        if ps is not None and sym(k) and not any(same_key(a, k) for a, _ in ps) and \
                (k.op == 'const' or all(a.op == 'glob' for a, _ in ps)):
            self.do_raise(node, glob('builtins.KeyError'))
            return UNDEF
        return super().getsub(o, k, node)

    def base_of(self, x):
        """The data (parameter of the program) that an index or a column belongs to."""
        from .terms import walk
        x = strip_st(x)
        out = []
        for y in walk(x):
            if y.op == 'alloc' and (y, '##args') in self.s.heap:
                d = self.s.heap[(y, '##args')].args
                if d and d[0].op == 'param':
                    out.append(d[0].args[0])
                elif d and d[0].op == 'rows':
                    b = self.rows_of(y)[0]
                    if b.op == 'param':
                        out.append(b.args[0])
            if y.op == 'call' and y.args[0] is glob('pandas.DataFrame') and y.args[1] and y.args[1][0].op == 'param':
                out.append(y.args[1][0].args[0])
        return out

    def meaning(self, x):
        from .points import ROW, Points, Split, Unknown

        class Res:
            state = self.s
        try:
            return Points(Res).at(x, ROW)
        except (Unknown, Split):
            return None

    def lacks(self, x, name):
        """Is this an attribute that plain frames of pandas do not have?"""
        i = strip_alloc(x)
        if not (i.op == 'call' and i.args[0] is glob('pandas.DataFrame')):
            return False
        c = self.p.classes[LDF]
        if name in ('copy', 'pivot_table', 'to_csv', '_constructor') or name.startswith('__'):
            return False
        f = c.methods.get(name) or c.props.get(name)
        if f is not None:
            return not any(isinstance(n, ast.Name) and n.id == 'super' for n in ast.walk(f.node))
        return name in c.annots or name in self.links

    def getattr_(self, o, name, node):
        x = strip_st(o)
        if self.s is None:
            return UNDEF
        if self.lacks(x, name):
            self.do_raise(node, glob('builtins.AttributeError'))
            return UNDEF
        if name in ('is_unique', 'has_duplicates') and self.unique:
            bs = set(self.base_of(x))
            if len(bs) == 1 and next(iter(bs)) in self.unique:
                d = next(iter(bs))
                u = self.unique[d]
                if d in self.keys:      # other columns may well be the opposite
                    u = u if self.meaning(x) in self.keys[d] else not u
                return const(u if name == 'is_unique' else not u)
        if name == 'nlevels' and self.flat and x.op == 'attr' and x.args[1] == 'columns' and self.is_frame(x.args[0]):
            return const(1)
        if x.op == 'super' and name not in ('__class__',):
            return super().getattr_(o, name, node)
        c = self.class_of(x)
        if c is not None and (x, name) not in self.s.heap:
            for k in self.p.mro(c):
                if (t('cls', k.qual), name) in self.s.heap:
                    return self.s.heap[(t('cls', k.qual), name)]
        if c is not None and (x, name) not in self.s.heap and self.p.lookup(c, '__getattr__') is not None and \
                self.p.lookup(c, name) is None and self.p.lookup(c, name, 'props') is None and \
                (name in self.columns or name in self.links or c != LDF and name not in self.p.classes[c].annots and
                 not any(name in k.annots or name in k.attrs or name in k.nested for k in self.p.mro(c)) and not name.startswith('_')):
            return self.call_method(x, '__getattr__', [const(name)], {}, node)
        return super().getattr_(o, name, node)

    def call_method(self, o, name, args, kwargs, e):
        x = strip_st(o)
        if self.s is None:
            return UNDEF
        if self.lacks(x, name):
            return self.getattr_(x, name, e)
        if name == 'get_level_values' and len(args) == 1 and is_const(args[0]) and isinstance(cval(args[0]), str) and \
                not cval(args[0]).isidentifier():
            self.do_raise(e, glob('builtins.KeyError'))
            return UNDEF
        if x.op == 'super' and self.class_of(x.args[0]) == LDF:
            me = x.args[0]
            if name == '__getitem__' and len(args) == 1:
                return self.column(me, args[0], e)
            if name == '__getattr__' and len(args) == 1:
                return self.column(me, args[0], e)
            r = self.frame_op(me, name, args, kwargs, e)
            if r is not None:
                return r
        elif self.class_of(x) == LDF and x.op != 'super' and self.p.lookup(LDF, name) is None:
            r = self.frame_op(x, name, args, kwargs, e)
            if r is not None:
                return r
        if name == 'is_' and len(args) == 1 and x.op == 'attr' and x.args[1] == 'index':
            y = strip_st(args[0])
            if y.op == 'attr' and y.args[1] == 'index' and self.is_frame(x.args[0]) and self.is_frame(y.args[0]):
                return const(self.rows_of(x.args[0]) == self.rows_of(y.args[0]))
        if x.op == 'const' and isinstance(cval(x), str) and name == 'isidentifier' and not args:
            return const(cval(x).isidentifier())
        if name in ('copy', '__copy__') and not kwargs:
            ps = self.pairs(x)
            if ps is not None:
                return self.alloc(t('dictlit', *ps), e)
        if name == 'get' and args and not kwargs and sym(args[0]):
            ps = self.pairs(x)
            if ps is not None:
                hit = [b for a, b in ps if same_key(a, args[0])]
                return hit[0] if hit else args[1] if len(args) > 1 else NONE
        c = self.class_of(x)
        if c is not None and self.p.lookup(c, name) is None and (x, name) not in self.s.heap and \
                self.p.lookup(c, '__getattr__') is not None and c != LDF:
            f = self.getattr_(x, name, e)
            if strip_st(f).op == 'alloc' and self.class_of(strip_st(f)) is not None:
                return self.call_method(f, '__call__', args, kwargs, e)
        return super().call_method(o, name, args, kwargs, e)

    def call(self, f, args, kwargs, e):
        x = strip_st(f)
        c = self.class_of(x) if x.op in ('alloc',) else None
        if c is not None and self.p.lookup(c, '__call__') is not None:
            return self.call_method(x, '__call__', args, kwargs, e)
        return super().call(f, args, kwargs, e)

    def generator(self, fi):
        return fi.is_gen and not fi.is_ctx

    def call_repo(self, fi, args, kwargs, e, cls=None, parent=None):
        if fi.name in self.calls:
            r = self.calls[fi.name](self, args, kwargs)
            if r is not None:
                return r
        if '**' in kwargs:
            ps = self.pairs(kwargs['**'])
            if ps is not None and all(is_const(a) and isinstance(cval(a), str) for a, _ in ps):
                kwargs = dict({k: v for k, v in kwargs.items() if k != '**'}, **{cval(a): b for a, b in ps})
        if fi.is_ctx and fi.is_gen:
            v = t('ctx', self.site(e) + (len(self.managers),))
            self.managers[v.args[0]] = (fi, args, kwargs, cls, parent, e)
            return v
        return super().call_repo(fi, args, kwargs, e, cls=cls, parent=parent)

    def call_global(self, f, args, kwargs, e):
        q = f.args[0]
        if q == 'builtins.len' and len(args) == 1 and self.call_builtin_len(args[0], e):
            return UNDEF
        if len(args) == 1 and not kwargs and q.rsplit('.', 1)[-1] in ('is_list_like', 'is_scalar', 'is_hashable') and q.startswith('pandas.'):
            o, k = strip_st(args[0]), q.rsplit('.', 1)[-1]
            i = strip_alloc(o)
            if is_const(o):
                return const(k != 'is_list_like')
            if i.op in ('lit', 'tup', 'dictlit') or o.op == 'param' and o.args[0] in self.given or \
                    o.op == 'attr' and o.args[1] in ('columns', 'index') and self.is_frame(o.args[0]):
                if i.op != 'tup' or k != 'is_hashable':
                    return const(k == 'is_list_like')
        if q == 'builtins.dict' and len(args) == 1 and not kwargs:
            ps = self.entries(args[0])
            if ps is not None:
                return self.alloc(t('dictlit', *ps), e)
        if q in ('builtins.list', 'builtins.tuple', 'builtins.set') and len(args) == 1 and not kwargs:
            d = self.term_domain(args[0])
            if d.unroll is not None and q != 'builtins.set':
                return self.seq(list(d.unroll), e) if q.endswith('list') else t('tup', *d.unroll)
        return super().call_global(f, args, kwargs, e)

    def no_column(self, o, item):
        c = self.s.heap.get((o, '#'))
        return self.columns and is_const(item) and isinstance(cval(item), str) and cval(item) not in self.columns and \
            (c is None or c.op == 'init')

    def column(self, frame, item, e):
        o = strip_st(frame)
        if self.no_column(o, item):
            self.do_raise(e, glob('builtins.KeyError'))
            return UNDEF
        v = t('sub', o, item)
        c = self.s.heap.get((o, '#'))
        if c is not None:
            v = ShapeInterp.read_sub(self, o, item)
        self.emit('load', e, obj=o, key=item, value=v)
        return v

    def rows_of(self, f):
        """The data whose rows a frame has, and which of them."""
        f = strip_st(f)
        a = self.s.heap.get((f, '##args'))
        d = a.args[0] if a is not None and a.args else None
        if d is not None and d.op == 'rows':
            r = self.rows_of(d.args[0])
            return r if is_const(d.args[1], None) else r + (d.args[1],)
        return (d if d is not None else f,)

    # what pandas does to the rows of a frame
    def frame_op(self, me, name, args, kwargs, e):
        a = dict(zip({'_take_with_is_copy': ('indices', 'axis'), '_take': ('indices', 'axis', 'is_copy'),
                      '_slice': ('slobj', 'axis'), 'copy': ('deep',),
                      '_reindex_with_indexers': ('reindexers', 'fill_value', 'copy', 'allow_dups')}.get(name, ()), args))
        a.update(kwargs)
        if name in ('_take_with_is_copy', '_take', '_slice'):
            ax = a.get('axis', const(0))
            rows = a.get('indices', a.get('slobj'))
            if rows is None or not is_const(ax):
                return None
            rows = rows if cval(ax) == 0 else None
            method = const('take') if name.startswith('_take') else NONE
        elif name == 'copy':
            rows, method = None, const('copy')
        elif name == '_reindex_with_indexers':
            ps = self.pairs(a.get('reindexers', NONE))
            if ps is None:
                return None
            rows = None
            for k, v in ps:
                if is_const(k) and cval(k) == 0:
                    xs = self.elems(v)
                    if xs is None or len(xs) != 2:
                        return None
                    rows = xs[1]
            method = NONE
        else:
            return None
        return self.derived(me, rows, method, e)

    def derived(self, me, rows, method, e):
        new = self.construct(LDF, [t('rows', strip_st(me), rows if rows is not None else NONE)], {}, e)
        if self.s is None:
            return UNDEF
        self.call_method(new, '__finalize__', [me], {'method': method} if method is not NONE else {}, e)
        return new if self.s is not None else UNDEF
