"""Obligations, evidence and the queries over value-flow results that the rules share."""
from __future__ import annotations

import json
import os
import time

from .interp import Event, Interp, Result, strip_alloc, strip_st, view_roots
from .project import Broken, FuncInfo, Project
from .terms import (FALSE, LOOPS, NONE, TRUE, T, binop, cmp, conj, const, contains, cval, decide, disj, is_const, literals,
                    nneg, phi, rebuild, show, sub, subst, t, truth, walk)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    """One run of the rules of one property over the current source."""

    def __init__(self, pid, root='/repo', project=None):
        self.pid, self.root = pid, root
        self.p = project or Project(root)
        self.obs = []          # (rule, where, text, ok)
        self.viol = []         # (key, message, where)
        self.undecided = []
        self.held = []         # violations that the witness programs can refute
        self.functions = set()
        self.n_events = 0
        self.cache = {}
        self.t0 = time.time()

    # -- running the interpreter
    def run(self, qual, noinline=(), bind=None, facts=(), **kw) -> Result:
        fi = qual if isinstance(qual, FuncInfo) else self.p.fn(qual)
        key = (fi.qual, tuple(sorted(noinline)), tuple(sorted((bind or {}).items())), tuple(facts),
               tuple(sorted((k, repr(v)) for k, v in kw.items())))
        if key not in self.cache:
            it = Interp(self.p, noinline=noinline, **{k: v for k, v in kw.items() if k in
                                                      ('opaque_props', 'max_depth', 'pred', 'inline_njit')})
            r = it.run(fi, bind=bind, facts=facts, **{k: v for k, v in kw.items() if k in ('self_cls', 'types')})
            self.functions |= it.functions_seen
            self.n_events += len(r.events)
            self.cache[key] = r
        return self.cache[key]

    # -- recording
    def ob(self, rule, where, ok, text, bad=None):
        """An obligation: `text` says what has to hold, `bad` what was found instead."""
        loc = where.loc if isinstance(where, (Event, FuncInfo)) else str(where)
        if isinstance(loc, str) is False:
            loc = str(loc)
        self.obs.append((rule, loc, text, bool(ok)))
        if not ok:
            fn = where.frames[-1].qual if isinstance(where, Event) and where.frames else \
                where.qual if isinstance(where, FuncInfo) else str(where)
            self.viol.append((f'{rule}|{fn}', f'{loc}: {bad or "not the case: " + text}', loc))
        return bool(ok)

    def skip(self, rule, where, text):
        loc = where.loc if isinstance(where, (Event, FuncInfo)) else str(where)
        self.undecided.append((rule, str(loc), text))

    # -- result
    def form(self, rule, where, ok, text, bad=None):
        """An obligation that needs the code to have a known form. Where it is not discharged, the witness programs of the property
        decide; it is violated if they are not followed either."""
        n = len(self.viol)
        self.ob(rule, where, ok, text, bad)
        if not ok:
            self.held += self.viol[n:]
            del self.viol[n:]
            self.obs.pop()

    def settle(self, followed):
        for key, text, loc in self.held:
            if followed:
                self.skip(key.split('|')[0], loc, f'form not known, left to the witness programs: {text}'[:300])
            else:
                self.viol.append((key, text, loc))
        self.held = []

    def report(self, title=''):
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        tier = os.environ.get('VERIF_TIER', 'quick')
        known = known_findings(self.pid)
        new, listed = [], []
        for v in dict.fromkeys(self.viol):
            (listed if v[0] in known else new).append(v)
        by_rule = {}
        for r, loc, text, ok in self.obs:
            d = by_rule.setdefault(r, {'obligations': 0, 'discharged': 0})
            d['obligations'] += 1
            d['discharged'] += ok
        samples = []
        seen = set()
        for r, loc, text, ok in self.obs:
            if r not in seen:
                seen.add(r)
                samples.append({'rule': r, 'where': loc, 'obligation': text, 'holds': ok})
        ev = {
            'property': self.pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': 'Each function listed was abstractly interpreted from its current source (value-flow terms, '
                               'branch conditions, loop summaries; calls inside the package expanded). Every obligation is '
                               'one instance of a rule at one construct; it is discharged by the value-flow facts found '
                               'there, and a failed one is the violation reported.',
                'functions_analysed': sorted(self.functions),
                'events_examined': self.n_events,
                'obligations': len(self.obs),
                'discharged': sum(1 for o in self.obs if o[3]),
                'rules': by_rule,
                'samples': samples[:40],
                'undecided': [{'rule': r, 'where': w, 'what': x} for r, w, x in self.undecided[:40]],
            },
            'violations': len(new),
            'violation_details': [{'rule': k, 'what': m, 'where': w} for k, m, w in new],
            'assumptions': ['Functions of numpy, pandas, numexpr and numba do what their documentation says; numba runs the '
                            'source of the kernels as Python means it.'],
            'known_findings': [m for _, m, _ in listed],
            'wall_s': round(time.time() - self.t0, 3),
        }
        out = os.environ.get('EVDIR') or os.path.join(HERE, 'evidence')
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, m, _ in listed:
            print(f'KNOWN-FINDING: property={self.pid} {m}')
        if new:
            path = os.path.join(out, f'{self.pid}.replay.json')
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'command': f'python3 check.py {self.pid}',
                           'violations': [{'rule': k, 'what': m, 'where': w} for k, m, w in new]}, f, indent=1)
            for k, m, _ in new:
                print(f'  {k.split("|")[0]}: {m}')
            print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        print(f'{self.pid}: {len(self.obs)} obligations discharged over {len(self.functions)} functions, '
              f'{len(self.undecided)} undecided')
        return 0


def known_findings(pid):
    """Keys of the findings of a property that are recorded as open in the committed file."""
    out = set()
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f'known: property={pid} '):
                out.add(line.split('key=', 1)[1].split(' :: ')[0].strip())
    return out


# ---------------------------------------------------------------------------------------------- terms
def lits(guards_or_facts):
    """All literals (term, polarity) in force, with unit propagation through disjunctions."""
    out = []
    for g in guards_or_facts:
        out.extend(literals(g[0], g[1]))
    clauses = []
    for l, p in out:
        if l.op == 'or' and p:
            clauses.append([(x, True) for x in l.args])
        elif l.op == 'and' and not p:
            clauses.append([(x, False) for x in l.args])
    if not clauses:
        return out
    have = set(out)
    changed = True
    while changed:
        changed = False
        for cl in list(clauses):
            live = []
            for x, p in cl:
                ls = literals(x, p)
                if any((y, not q) in have for y, q in ls) or decide(x, out) is (not p):
                    continue
                live.append((x, p))
            if len(live) == 1:
                clauses.remove(cl)
                for y, q in literals(*live[0]):
                    if (y, q) not in have:
                        have.add((y, q))
                        out.append((y, q))
                        changed = True
                        if y.op == 'or' and q:
                            clauses.append([(z, True) for z in y.args])
                        elif y.op == 'and' and not q:
                            clauses.append([(z, False) for z in y.args])
    return out


def event_terms(e, guards=True):
    for x in (e.obj, e.value, e.func, e.res, e.key):
        if isinstance(x, T):
            yield x
    for x in (e.args or ()):
        if isinstance(x, T):
            yield x
    for _, x in (e.kwargs or ()):
        if isinstance(x, T):
            yield x
    if guards:
        for g, _, _ in e.guards:
            yield g


def params_in(x, through=True):
    return {y for y in walk(x, through) if y.op in ('param', 'nonnull')}


def has_op(x, op, through=True):
    return any(y.op == op for y in walk(x, through))


def root(x):
    """The object a view ultimately belongs to (the last root; merged values give several)."""
    return [r for r in view_roots(x) if not any(True for _ in _parents(r))] or [strip_st(x)]


def _parents(x):
    r = view_roots(x)
    return r[1:]


def path_keys(x):
    """Index keys of a view path, outermost first, with the base object: base[k0][k1] -> (base, [k0, k1])."""
    keys = []
    x = strip_st(x)
    while True:
        if x.op == 'sub':
            keys.append(x.args[1])
            x = strip_st(x.args[0])
        elif x.op == 'attr' and x.args[1] in ('values', 'T'):
            x = strip_st(x.args[0])
        else:
            break
    return x, list(reversed(keys))


def key_comps(k):
    return list(k.args) if k.op == 'tup' else [k]


CASTS = {'builtins.int', 'builtins.float', 'numpy.int64', 'numpy.int32', 'numpy.uint32', 'numpy.uint64', 'numpy.intp',
         'numpy.float64', 'numpy.int_', 'builtins.bool', 'numpy.bool_'}


def uncast(x):
    x = strip_st(x)
    while x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in CASTS and len(x.args[1]) == 1:
        x = strip_st(x.args[1][0])
    return x


def lin(x, cast=True):
    """Linear normal form: ({atom: coefficient}, constant)."""
    x = uncast(x) if cast else x
    if x.op == 'const' and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool):
        return {}, cval(x)
    if x.op == 'neg':
        d, c = lin(x.args[0])
        return {k: -v for k, v in d.items()}, -c
    if x.op == 'bin' and x.args[0] in ('+', '-'):
        d1, c1 = lin(x.args[1])
        d2, c2 = lin(x.args[2])
        s = 1 if x.args[0] == '+' else -1
        d = dict(d1)
        for k, v in d2.items():
            d[k] = d.get(k, 0) + s * v
        return {k: v for k, v in d.items() if v}, c1 + s * c2
    if x.op == 'bin' and x.args[0] == '*':
        for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
            if a.op == 'const' and isinstance(cval(a), (int, float)):
                d, c = lin(b)
                return {k: v * cval(a) for k, v in d.items()}, c * cval(a)
    return {x: 1}, 0


def same_lin(a, b):
    return lin(a) == lin(b)


def spec(x, facts, memo=None):
    """Deep specialisation of a term under facts: every merge whose condition the facts decide is resolved."""
    facts = tuple(facts)
    if memo is None:
        memo = {}
    if x.uid in memo:
        return memo[x.uid]
    if x.op == 'phi':
        d = decide(spec(x.args[0], facts, memo), facts)
        if d is None:
            d = decide(x.args[0], facts)
        if d is True:
            r = spec(x.args[1], facts, memo)
        elif d is False:
            r = spec(x.args[2], facts, memo)
        else:
            r = phi(spec(x.args[0], facts, memo), spec(x.args[1], facts, memo), spec(x.args[2], facts, memo))
    elif x.op in ('cmp', 'not', 'and', 'or') and decide(x, facts) is not None:
        r = const(decide(x, facts))
    else:
        def rec(a):
            if isinstance(a, T):
                return spec(a, facts, memo)
            if isinstance(a, tuple):
                return tuple(rec(b) for b in a)
            return a
        args = tuple(rec(a) for a in x.args)
        r = x if all(p is q or p == q for p, q in zip(args, x.args)) else rebuild(x.op, args)
    memo[x.uid] = r
    return r


def flat_phi(x, facts=()):
    """Leaves of a merged value with the condition literals leading to each: [(facts, leaf)]."""
    out = []

    def go(y, fs):
        y0 = y
        y = strip_st(y)
        if y.op == 'phi':
            d = decide(y.args[0], fs)
            if d is not False:
                go(y.args[1], fs + ((y.args[0], True),))
            if d is not True:
                go(y.args[2], fs + ((y.args[0], False),))
        else:
            out.append((fs, y0))
    go(x, tuple(facts))
    return out


def callname(x):
    """Qualified name of the function a call term calls, or the method name prefixed by '.'."""
    if x.op == 'call' and x.args[0].op in ('glob', 'fn', 'cls'):
        return x.args[0].args[0]
    if x.op == 'mcall':
        return '.' + x.args[0]
    return None


def callargs(x):
    return list(x.args[1]) if x.op == 'call' else list(x.args[2]) if x.op == 'mcall' else []


def kwarg(e, name, default=None):
    for k, v in (e.kwargs or ()):
        if k == name:
            return v
    return default


def tkw(x, name, default=None):
    """Keyword argument of a call or mcall term."""
    for k, v in (x.args[2] if x.op == 'call' else x.args[3]):
        if k == name:
            return v
    return default


def is_call(e, *names):
    return e.kind == 'call' and e.func is not None and (
        (e.func.op in ('glob', 'fn') and e.func.args[0] in names) or (e.func.op == 'meth' and '.' + e.func.args[0] in names))


def infeasible(facts):
    """Whether a set of facts is contradictory by propositional propagation."""
    facts = [(f[0], f[1]) for f in facts]
    ls = []
    for f, p in facts:
        ls.extend(literals(f, p))
    s = {}
    for l, p in ls:
        if s.get(l, p) != p:
            return True
        s[l] = p
    for i, (f, p) in enumerate(facts):
        rest = facts[:i] + facts[i + 1:]
        d = decide(f, rest)
        if d is not None and d != p:
            return True
    return False


def loop_events(res, key):
    return [e for e in res.events if key in e.loops]


def enters(res, name):
    """Expansions of, or opaque calls to, the functions named."""
    return [e for e in res.events if (e.kind == 'enter' and e.fi is not None and (e.fi.name == name or e.fi.qual == name))
            or (e.kind == 'call' and e.fi is not None and (e.fi.name == name or e.fi.qual == name))]


def arg_of(e, name):
    """Value given to the parameter of a known function at a call (expanded or not)."""
    fi = e.fi
    names = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
    if e.kind == 'enter':
        for n, v in zip(names, e.args):
            if n == name:
                return v
        return dict(e.kwargs or ()).get(name)
    if name in dict(e.kwargs or ()):
        return dict(e.kwargs)[name]
    i = names.index(name) if name in names else -1
    off = 0
    if e.func is not None and e.func.op == 'meth' and names and names[0] in ('self', 'cls'):
        off = 1
    if 0 <= i - off < len(e.args or ()):
        return e.args[i - off]
    d = fi.node.args.defaults
    j = i - (len(names) - len(d))
    if i >= 0 and j >= 0:
        import ast
        if isinstance(d[j], ast.Constant):
            return const(d[j].value)
    return None


# ---------------------------------------------------------------------------------------------- array denotations
class Den:
    """Elementwise meaning of array-valued terms, for arrays filled by maps and sums (no general solver)."""

    def __init__(self):
        self.i = t('param', '$i')

    def full(self, key, arr):
        """Whether a loop runs over every position of an array (or of any array; lengths are compared loosely)."""
        lp = LOOPS[key]
        d = lp.domain
        if d is None:
            return False
        if d.op == 'range':
            return is_const(d.args[0], 0)
        return lp.kind == 'for'

    def elem(self, x):
        """Element $i of an array-valued term."""
        x0 = x
        if x.op == 'st':
            return self.content(x.args[0], x.args[1])
        if x.op == 'alloc':
            return self.elem(x.args[0])
        if x.op == 'call' and x.args[0].op == 'glob':
            n = x.args[0].args[0]
            if n in ('numpy.zeros', 'numpy.zeros_like'):
                return const(0.0)
            if n in ('numpy.ones', 'numpy.ones_like'):
                return const(1.0)
            if n in ('numpy.empty', 'numpy.empty_like'):
                return t('garbage')
            if n in ('numpy.full', 'numpy.full_like') and len(x.args[1]) > 1:
                return x.args[1][1]
            if n in ('numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.ascontiguousarray'):
                return self.elem(x.args[1][0])
            if n in ('numpy.exp', 'numpy.log'):
                return t('call', x.args[0], (self.elem(x.args[1][0]),), ())
            if n in ('numpy.cumsum',):
                return t('prefix', self.elem(x.args[1][0]))
            if n == 'numpy.where' and len(x.args[1]) == 3:
                return phi(*[self.elem(a) for a in x.args[1]])
        if x.op == 'mcall' and x.args[0] in ('astype', 'copy'):
            return self.elem(x.args[1])
        if x.op == 'mcall' and x.args[0] == 'cumsum':
            return t('prefix', self.elem(x.args[1]))
        if x.op == 'bin':
            return binop(x.args[0], self.lift(x.args[1]), self.lift(x.args[2]))
        if x.op == 'cmp':
            return rebuild('cmp', (x.args[0], self.lift(x.args[1]), self.lift(x.args[2])))
        if x.op == 'phi':
            return phi(x.args[0], self.elem(x.args[1]), self.elem(x.args[2]))
        return sub(x0, self.i)

    def lift(self, x):
        """An operand of an elementwise operation: arrays give their element, scalars themselves."""
        return self.elem(x) if self.is_array(x) else self.value(x)

    def is_array(self, x):
        x = strip_st(x)
        if x.op == 'alloc':
            return True
        if x.op == 'param':
            return x.args[0] in self.arrays
        if x.op == 'bin':
            return any(self.is_array(a) for a in x.args[1:])
        if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('numpy.exp', 'numpy.log', 'numpy.cumsum'):
            return self.is_array(x.args[1][0])
        if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('numpy.where',):
            return True
        if x.op == 'sub' and (x.args[1].op == 'slice' or x.args[1].op == 'tup' and any(
                y.op == 'slice' for y in x.args[1].args)):
            return True
        return False

    arrays = {'utilities', 'weights', 'p_array'}

    def content(self, o, c):
        """Element $i of object `o` when its content is `c`."""
        if c.op == 'init':
            return self.elem(o)
        if c.op == 'phi':
            return phi(self.value(c.args[0]), self.content(o, c.args[1]), self.content(o, c.args[2]))
        if c.op == 'eta':
            lp = LOOPS[c.args[0]]
            st = lp.step.get(c.args[1])
            init = lp.init.get(c.args[1])
            if st is None or init is None or not self.full(c.args[0], o):
                return t('garbage', c)
            iv = t('iv', c.args[0])
            mu = t('mu', c.args[0], c.args[1])
            before = self.content(o, init if init.op in ('upd', 'init', 'eta', 'mu', 'phi') else t('init', o))
            return self.step(o, st, mu, iv, before)
        if c.op == 'upd' and c.args[1] == 'set':
            k = c.args[2]
            if k.op == 'slice' and all(is_const(a, None) for a in k.args):
                return self.lift(c.args[3])
            return t('garbage', c)
        if c.op == 'upd' and c.args[1] == 'fill':
            return self.value(c.args[2])
        return t('garbage', c)

    def step(self, o, st, mu, iv, before):
        if st is mu:
            return before
        if st.op == 'phi':
            return phi(self.inner(st.args[0], o, mu, iv, before), self.step(o, st.args[1], mu, iv, before),
                       self.step(o, st.args[2], mu, iv, before))
        if st.op == 'upd' and st.args[1] == 'set' and st.args[0] is mu and st.args[2] is iv:
            return self.inner(st.args[3], o, mu, iv, before)
        return t('garbage', st)

    def inner(self, v, o, mu, iv, before):
        """A value of one iteration, as a function of $i."""
        cur = sub(t('st', o, mu), iv)
        m = {cur: before, iv: self.i}
        for x in walk(v, False):
            if x.op == 'mu' and x is not mu and x.args[0] == mu.args[0]:
                lp = LOOPS[x.args[0]]
                s = lp.step.get(x.args[1])
                if s is not None and s.op == 'bin' and s.args[0] == '+' and x in s.args[1:]:
                    d = s.args[2] if s.args[1] is x else s.args[1]
                    if is_const(lp.init.get(x.args[1]), 0, 0.0):
                        m[x] = t('prefix_before', subst(d, {cur: before, iv: self.i}))
        return self.value(subst(v, m))

    def value(self, x):
        """Scalar term with sums recognised and element reads resolved."""
        memo = {}

        def go(y):
            if y.uid in memo:
                return memo[y.uid]
            r = self.value1(y, go)
            memo[y.uid] = r
            return r
        return go(x)

    def value1(self, y, go):
        if y.op == 'eta' and isinstance(y.args[1], str):
            lp = LOOPS[y.args[0]]
            s, init = lp.step.get(y.args[1]), lp.init.get(y.args[1])
            m = t('mu', y.args[0], y.args[1])
            if s is not None and s.op == 'bin' and s.args[0] == '+' and m in s.args[1:] and is_const(init, 0, 0.0):
                d = s.args[2] if s.args[1] is m else s.args[1]
                if not any(z.op == 'mu' and z.args[0] == y.args[0] and isinstance(z.args[1], str) for z in walk(d, False)):
                    iv = t('iv', y.args[0])
                    e = d
                    rep = {}
                    for z in walk(d, False):
                        if z.op == 'sub' and z.args[0].op == 'st' and z.args[1] is iv:
                            o, c = z.args[0].args
                            if c.op == 'mu' and c.args[0] == y.args[0]:
                                rep[z] = self.content(o, LOOPS[c.args[0]].init[c.args[1]])
                            else:
                                rep[z] = self.content(o, c)
                    rep[iv] = self.i
                    e = subst(e, rep)
                    if self.full(y.args[0], None):
                        return t('SUM', go(e))
            return y
        if y.op == 'sub' and y.args[0].op in ('st', 'alloc') and y.args[1] is self.i:
            r = self.elem(y.args[0])
            return r if r is y else go(r)
        if y.op == 'mcall' and y.args[0] == 'sum' and not y.args[2]:
            return t('SUM', go(self.elem(y.args[1])))
        if y.op == 'call' and y.args[0].op == 'glob' and y.args[0].args[0] in ('numpy.sum', 'builtins.sum') and len(y.args[1]) == 1:
            return t('SUM', go(self.elem(y.args[1][0])))

        def rec(a):
            if isinstance(a, T):
                return go(a)
            if isinstance(a, tuple):
                return tuple(rec(b) for b in a)
            return a
        args = tuple(rec(a) for a in y.args)
        return y if all(p is q or p == q for p, q in zip(args, y.args)) else rebuild(y.op, args)


# ---------------------------------------------------------------------------------------------- rational normal form
def poly(x):
    """{monomial: coefficient}; a monomial is a frozenset of (atom, exponent)."""
    x = uncast(x)
    if x.op == 'const' and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool):
        return {} if cval(x) == 0 else {frozenset(): float(cval(x))}
    if x.op == 'neg':
        return {m: -c for m, c in poly(x.args[0]).items()}
    if x.op == 'bin' and x.args[0] in ('+', '-'):
        a, b = poly(x.args[1]), poly(x.args[2])
        s = 1 if x.args[0] == '+' else -1
        out = dict(a)
        for m, c in b.items():
            out[m] = out.get(m, 0) + s * c
        return {m: c for m, c in out.items() if c}
    if x.op == 'bin' and x.args[0] == '*':
        return pmul(poly(x.args[1]), poly(x.args[2]))
    if x.op == 'bin' and x.args[0] == '/':
        d = poly(x.args[2])
        if len(d) == 1:
            (m, c), = d.items()
            inv = {frozenset((a, -e) for a, e in m): 1.0 / c}
        else:
            inv = {frozenset([(t('polyatom', x.args[2]), -1)]): 1.0}
        return pmul(poly(x.args[1]), inv)
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('numpy.exp', 'numpy.log', 'math.exp', 'math.log') \
            and len(x.args[1]) == 1:
        return {frozenset([(t('fnatom', x.args[0].args[0].split('.')[1], ptuple(poly(x.args[1][0]))), 1)]): 1.0}
    return {frozenset([(x, 1)]): 1.0}


def ptuple(p):
    return tuple(sorted(((tuple(sorted(((a.uid, e) for a, e in m))), c) for m, c in p.items())))


def pmul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for at, e in m2:
                d[at] = d.get(at, 0) + e
            m = frozenset((k, v) for k, v in d.items() if v)
            out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c}


def same_value(a, b):
    return poly(a) == poly(b)


def exc_class(p, e):
    """Class raised by a raise event: a class of the project, or a builtins name."""
    v = strip_st(e.value)
    if v.op == 'alloc':
        v = strip_alloc(v)
    if v.op == 'new' or v.op == 'cls':
        return v.args[0]
    if v.op == 'call' and v.args[0].op == 'glob':
        return v.args[0].args[0]
    if v.op == 'glob':
        return v.args[0]
    return None


def raises(c, res, name):
    """Raise events of a class (or a subclass) by simple name."""
    out = []
    for e in res.events:
        if e.kind == 'raise':
            q = exc_class(c.p, e)
            if q and (q.split('.')[-1] == name or (q in c.p.classes and any(k.qual.split('.')[-1] == name
                                                                            for k in c.p.mro(q)))):
                out.append(e)
    return out


def nonpos(l, p):
    """The quantity a literal says is not positive (its value is zero or less), or None."""
    if l.op == 'cmp' and l.args[0] in ('<=', '==') and p and is_const(l.args[2], 0, 0.0):
        return l.args[1]
    if l.op == 'cmp' and l.args[0] == '<' and not p and is_const(l.args[1], 0, 0.0):
        return l.args[2]
    if l.op == 'bool' or l.op == 'cmp' or l.op in ('and', 'or', 'not'):
        return None
    return None


def positive(l, p):
    """The quantity a literal says is positive, or None."""
    if l.op == 'cmp' and l.args[0] in ('<=', '==') and not p and is_const(l.args[2], 0, 0.0):
        return l.args[1]
    if l.op == 'cmp' and l.args[0] == '<' and p and is_const(l.args[1], 0, 0.0):
        return l.args[2]
    return None


def one_loop(k):
    if k in LOOPS:
        return k
    if isinstance(k, tuple) and len(k) == 1 and k[0] in LOOPS:
        return k[0]
    return None


def built(x, kinds=('append', 'add')):
    """(loop, element, conditions) of a list, set or dict made by a comprehension or by a loop that only adds to it."""
    x = strip_alloc(x) if x.op == 'alloc' else x
    if x.op == 'collect':
        k = one_loop(x.args[1])
        return (k, x.args[2], tuple(x.args[3])) if k is not None else None
    if x.op == 'st':
        if strip_alloc(x.args[0]).op == 'collect' and x.args[1].op == 'init':
            return built(x.args[0])
        base = strip_alloc(x.args[0])
        empty = (base.op == 'lit' and len(base.args) == 1) or (base.op == 'dictlit' and not base.args) or \
            (callname(base) in ('builtins.list', 'builtins.dict', 'builtins.set', 'collections.deque',
                                'collections.OrderedDict') and not callargs(base))
        c = x.args[1]
        if not empty or c.op != 'eta' or c.args[0] not in LOOPS:
            return None
        lp = LOOPS[c.args[0]]
        init, step = lp.init.get(c.args[1]), lp.step.get(c.args[1])
        if init is None or step is None or init.op not in ('init',):
            return None
        mu = t('mu', c.args[0], c.args[1])
        found = []

        def go(s, conds):
            if s is mu:
                return True
            if s.op == 'phi':
                return go(s.args[1], conds + (s.args[0],)) and go(s.args[2], conds + (nneg(s.args[0]),))
            if s.op == 'upd' and s.args[0] is mu and s.args[1] in kinds:
                found.append((s.args[2], conds))
                return True
            if s.op == 'upd' and s.args[0] is mu and s.args[1] == 'set':
                found.append((t('tup', s.args[2], s.args[3]), conds))
                return True
            return False
        if go(step, ()) and len(found) == 1:
            return c.args[0], found[0][0], found[0][1]
    return None


def none_such(l, p):
    """(loop, condition): the literal says that no element of the loop meets the condition; or None."""
    if l.op == 'exists':
        return (l.args[0], l.args[1]) if not p and l.args[0] in LOOPS else None
    if l.op == 'not':
        return none_such(l.args[0], not p)
    x, zero = None, None
    if l.op == 'cmp' and l.args[1].op == 'len' and is_const(l.args[2], 0) and l.args[0] in ('==', '<='):
        x, zero = l.args[1].args[0], p
    elif l.op == 'cmp' and l.args[0] == '<' and is_const(l.args[1], 0) and l.args[2].op == 'len':
        x, zero = l.args[2].args[0], not p
    elif l.op == 'cmp' and l.args[0] == '<' and is_const(l.args[2], 1) and l.args[1].op == 'len':
        x, zero = l.args[1].args[0], p
    elif l.op == 'len':
        x, zero = l.args[0], not p
    elif callname(l) in ('builtins.any', 'builtins.all') and len(callargs(l)) == 1:
        g = callargs(l)[0]
        g = strip_alloc(g) if g.op == 'alloc' else g
        any_ = callname(l) == 'builtins.any'
        if g.op == 'collect' and one_loop(g.args[1]) is not None and p is not any_:
            return one_loop(g.args[1]), conj(*(tuple(g.args[3]) + ((g.args[2],) if any_ else (nneg(g.args[2]),))))
        return None
    elif l.op in ('alloc', 'st', 'collect'):
        x, zero = l, not p
    elif l.op == 'bool':
        return none_such(l.args[0], p)
    if x is None or not zero:
        return None
    b = built(x)
    if b is None or b[0] not in LOOPS:
        return None
    return b[0], conj(*b[2]) if b[2] else TRUE
