"""The kernels followed over small trees and tables whose real cells are symbols (see kernels.py)."""
from __future__ import annotations

import ast

from .kernels import (INF, LIST, NAN, ONE, TINY, ZERO, Arr, Defect, Kernels, Opaque, Path, Raised, Rat, Unknown, arr, num, real, same, sign,
                      sym, WORK)
from .lib import *  # noqa: F401,F403
from .rules_core import CORE

MAX_PATHS = 48


class Outcome:
    def __init__(self, kind, value, k, node=None, args=None):
        self.kind, self.value, self.k, self.node, self.args = kind, value, k, node, args


def follow(c, name, make, draw_value=None, zero=None, reverse=False, out=None):
    """All paths of one function over one set of arguments."""
    q = f'{CORE}.{name}'
    choices = ()
    n = 0
    while choices is not None:
        path = Path(choices)
        k = Kernels(c.p, path, draw_value, reverse)
        k.zero_draws = zero
        args = make()
        try:
            o = Outcome('value', k.call_fn(q, args), k)
        except Raised as r:
            o = Outcome('raise', r.name, k, r.node)
        except Defect as d:
            o = Outcome('defect', d.text, k, d.node)
        o.args = args
        c.functions |= k.functions
        c.n_events += k.steps
        yield o
        n += 1
        choices = path.next()
        if n >= MAX_PATHS and choices is not None:
            raise Unknown('too many paths')


def where(c, o, name):
    return c.p.fn(f'{CORE}.{name}')


class Judge:
    """Collects what the witnesses say about a rule; nothing is concluded from a path that may not exist."""

    def __init__(self, c):
        self.c = c
        self.bad = False

    def check(self, rule, o, name, ok, text, bad=''):
        if not ok and o is not None and o.k.path.facts:
            f = o.k.path.feasible()
            if f is not True:
                self.c.kernel_open = 'a difference under assumptions that may not be possible together'
                return None
            bad = f'{bad} (if {"; ".join(f"{d!r} {dict(zip("+-0", (">0", "<0", "=0")))[s]}" for d, s in o.k.path.facts[:3])})'
        line = getattr(o.node, 'lineno', None) if o is not None else None
        self.c.ob(rule, self.c.p.fn(f'{CORE}.{name}'), ok, text, (bad or text) + (f' (line {line})' if line else ''))
        self.bad |= not ok
        return ok


def guarded(c, rule, name, f, *args):
    """One witness; what the domain cannot follow stays undecided."""
    fi = c.p.functions.get(f'{CORE}.{name}')
    if fi is None:
        c.skip(rule, CORE, f'{name} does not exist')
        return False
    n = len(c.viol)
    c.kernel_open = None
    WORK[0] = 0
    try:
        f(c, name, *args)
        c.work = max(getattr(c, 'work', 0), WORK[0])
        if c.kernel_open:
            raise Unknown(c.kernel_open)
    except Unknown as u:
        if len(c.viol) == n:
            c.skip(rule, fi, f'{name}: {u}')
        return False
    except RecursionError:
        c.skip(rule, fi, f'{name}: too deep')
        return False
    return len(c.viol) == n


# ------------------------------------------------------------------ the formulas
PROBE = {}


def utility(row, j):
    if (row, j) in PROBE:
        return num(PROBE[row, j])
    return sym('u', (row, j), False, {row})


def cells(row, pattern):
    """'.' an alternative that is available, 'x' one that is not."""
    return [utility(row, j) if ch == '.' else -INF for j, ch in enumerate(pattern)]


def flat_formula(us):
    k = Kernels(None)
    es = [k.exp(u) for u in us]
    tot = ZERO
    for e in es:
        tot = tot + e
    return [e / tot if tot.num and e.num else ZERO for e in es], tot, es


class Tree:
    def __init__(self, name, parents, text):
        self.name, self.parents, self.text = name, parents, text
        self.n = len(parents)
        self.levels = [self.depth(i) for i in range(self.n)]
        self.leaves = [i for i in range(self.n) if i not in parents]
        self.scales = [sym('scale', (name, i), True) if i in parents else ONE for i in range(self.n)]

    def depth(self, i):
        return 0 if self.parents[i] < 0 else 1 + self.depth(self.parents[i])

    def args(self):
        return [arr(self.parents, 'int64'), arr(self.levels, 'int64'), arr(self.scales),
                arr([i in self.leaves for i in range(self.n)], 'bool')]

    def formula(self, us, scaled):
        k = Kernels(None)
        e, g = [None] * self.n, [ZERO] * self.n
        top = ZERO
        for i in sorted(range(self.n), key=lambda i: -self.levels[i]):
            u, pa = us[i], self.parents[i]
            if i not in self.leaves:
                u = k.binary('+', u, k.binary('*', self.scales[i], k.log(g[i])))
            if scaled and pa >= 0:
                u = k.binary('/', u, self.scales[pa])
            e[i] = k.exp(u)
            if pa >= 0:
                g[pa] = g[pa] + e[i]
            else:
                top = top + e[i]
        p = [None] * self.n
        for i in sorted(range(self.n), key=lambda i: self.levels[i]):
            pa = self.parents[i]
            t = g[pa] if pa >= 0 else top
            q = e[i] / t if t.num else ZERO
            p[i] = q * p[pa] if pa >= 0 else q
        return [p[i] if i in self.leaves else ZERO for i in range(self.n)], top, e


TREES = [
    Tree('one nest', [-1, 0, 0, -1], 'one nest with two alternatives, one alternative beside it'),
    Tree('two nests', [-1, -1, 0, 1, 0, 1, -1], 'two nests whose children alternate'),
    Tree('deep', [-1, 0, 1, 2, 2, 1, 0, -1], 'nests in nests, four levels'),
    Tree('upwards', [1, 3, 1, -1, 3, -1], 'children listed before their nests'),
    Tree('last', [3, 3, -1, -1, 3], 'a nest at the end, its children before and after it'),
    Tree('nest last', [-1, 3, 3, -1], 'a nest at the end'),
    Tree('single', [-1, 0, -1, 2, 2], 'a nest with one alternative'),
]
SMALL = TREES[:1]
# which nodes are unavailable
PATTERNS = {
    'one nest': ['....', '.x..', '.xx.', '...x', 'xxxx', '.xxx', 'x...'],
    'two nests': ['.......', '..x.x..', '...x.x.', '..xxxxx', 'x......'],
    'deep': ['........', '...xx...', '...xxx..', '...xxxx.', '.......x', '...xxxxx', '..x.....'],
    'upwards': ['......', 'x.x...', 'x.x.x.', '.....x', 'x.x.xx'],
    'last': ['.....', 'x....', 'xx..x'],
    'nest last': ['....', '.x..', '.xx.', 'x...'],
    'single': ['.....', '.x...', '...xx', '.x.xx'],
}


def show_cells(xs):
    return '[' + ', '.join(repr(x) for x in xs) + ']'


# ------------------------------------------------------------------ probabilities
def judge_rows(c, name, o, rows, want, what, n):
    """Compare the three outputs of a probability worker with the formula."""
    j = Judge(c)
    v = o.value
    if not (isinstance(v, (tuple, list)) and len(v) == 3 and all(isinstance(x, Arr) for x in v)):
        raise Unknown('the worker returns something else')
    p, tot, es = v
    if p.shape != (len(rows), n) or tot.shape != (len(rows),) or es.shape != (len(rows), n):
        raise Unknown('shapes of the outputs')
    k = o.k
    race_free(c, j, o, name, what)
    for i in range(len(rows)):
        wp, wt, we = want[i]
        got = k.get(p, i).cells()
        gt = k.get(tot, i)
        ge = k.get(es, i).cells()
        dead = not wt.num
        tags = set()
        for x in got + [gt] + ge:
            if isinstance(x, Rat):
                tags |= x.tags()
        if c.pid == 'P01':
            j.check('own-row-only', o, name, tags <= {i}, f'{what}: the results of record {i} only depend on record {i}',
                    f'{what}: the results of record {i} depend on record(s) {sorted(tags - {i})}')
            continue
        if c.pid == 'P03':
            zeros = [m for m in range(n) if not wp[m].num]
            bad = [m for m in zeros if not same(got[m], ZERO)]
            if zeros:
                j.check('zero-when-infeasible', o, name, not bad, f'{what}: what is unavailable has probability zero',
                        f'{what}: node {bad[0] if bad else ""} is unavailable in record {i} ({rows[i]}) and gets '
                        f'{got[bad[0]] if bad else ""}')
            if dead:
                j.check('zero-total', o, name, same(gt, ZERO), f'{what}: the total of an infeasible record is zero',
                        f'{what}: the total of an infeasible record is {gt!r}')
            continue
        bad = [m for m in range(n) if not same(got[m], wp[m])]
        j.check('probability-formula', o, name, not bad, f'{what}: the probabilities of record {rows[i]} are those of the formula',
                f'{what}: the probability of node {bad[0] if bad else ""} in record {rows[i]} is '
                f'{got[bad[0]] if bad else ""} and not {wp[bad[0]] if bad else ""}')
        j.check('logsum-formula', o, name, same(gt, wt), f'{what}: the total of record {rows[i]} is that of the formula',
                f'{what}: the total of record {rows[i]} is {gt!r} and not {wt!r}')
        bad = [m for m in range(n) if not same(ge[m], we[m])]
        j.check('terms-formula', o, name, not bad, f'{what}: the logsum terms of record {rows[i]} are those of the formula',
                f'{what}: the logsum term of node {bad[0] if bad else ""} in record {rows[i]} is '
                f'{ge[bad[0]] if bad else ""} and not {we[bad[0]] if bad else ""}')


def probabilities(c, name, what, rows, n, extra, formula):
    """One table of utilities, with and without the feasibility check; record by record if the table has too many paths."""
    try:
        table(c, name, what, rows, n, extra, formula)
    except Unknown as u:
        if str(u) != 'too many paths' or len(rows) == 1 or c.pid == 'P01':
            raise
        for r in rows:
            table(c, name, what, [r], n, extra, formula)


def table(c, name, what, rows, n, extra, formula):
    todo, seen = [{}], []
    while todo:
        PROBE.clear()
        PROBE.update(todo.pop())
        us = [cells(i, r) for i, r in enumerate(rows)]
        want = [formula(u) for u in us]
        dead = [i for i, w in enumerate(want) if not w[1].num]
        j = Judge(c)
        for flag in (False, True):
            for rev in (False, True):
                if rev and flag:
                    continue

                def make():
                    return [arr([list(u) for u in us])] + extra() + [flag]
                for o in follow(c, name, make, reverse=rev):
                    for a, v in o.k.path.probes:
                        key = LIST[a].key
                        if (key, v) not in seen and len(seen) < 4 and key not in PROBE:
                            seen.append((key, v))
                            todo.append({key: v})
                    lost = o.kind == 'raise' and 'parallel' in o.value
                    if o.kind == 'raise' and o.value == 'AssertionError':
                        raise Unknown('assertion')
                    if o.kind == 'defect' or o.kind == 'raise' and o.value.split()[0] != 'UtilityBoundsError':
                        pid_rule = 'kernel-defect'
                        j.check(pid_rule, o, name, False, '', f'{what}: {o.value} for records {", ".join(rows)}')
                        continue
                    if flag and dead:
                        if c.pid == 'P03':
                            j.check('reports-infeasible', o, name, o.kind == 'raise' and not lost,
                                    f'{what}: an infeasible record is reported when the check is on',
                                    f'{what}: an infeasible record ({rows[dead[0]]}) is not reported although the check is on' if not lost else
                                    f'{what}: the error is raised inside the parallel loop')
                        continue
                    if o.kind == 'raise':
                        if c.pid == 'P03':
                            j.check('silent-when-feasible', o, name, False, '',
                                    f'{what}: an error is raised for records {", ".join(rows)} with the check {"on" if flag else "off"}')
                        continue
                    judge_rows(c, name, o, rows, want, what, n)
                    unchanged(c, j, o, name, what, us, extra)
        PROBE.clear()


def race_free(c, j, o, name, what):
    if c.pid != 'P01':
        return
    rs = o.k.races
    j.check('no-shared-cell', o, name, not rs, f'{what}: no cell changed by one parallel iteration is touched by another',
            f'{what}: a cell changed by one iteration of the parallel loop at line {rs[0][1].lineno if rs else 0} is '
            f'{rs[0][0] if rs else ""} by another')


def unchanged(c, j, o, name, what, us, extra):
    if c.pid != 'P04':
        return
    first = [[list(u) for u in us]] if us and isinstance(us[0], list) else [us]
    fresh = [arr(first[0])] + extra()
    bad = [i for i, (a, b) in enumerate(zip(o.args, fresh)) if isinstance(a, Arr) and
           any(x is not y and not same(x, y) for x, y in zip(a.cells(), b.cells()))]
    j.check('arguments-unchanged', o, name, not bad, f'{what}: what is passed in is left as it is',
            f'{what}: argument {bad[0] if bad else ""} is changed')


def flat_probabilities(c, name):
    for rows in (['....', '.x..', 'x...', '..xx'], ['xxxx', '....'], ['....', 'xxxx', '.x.x'], ['...', '..x', 'xxx'], ['.'],
                 ['......', 'xxxxx.']):
        probabilities(c, name, 'multinomial', rows, len(rows[0]), lambda: [], flat_formula)


def nested_probabilities(c, name):
    for tree in TREES:
        pats = PATTERNS[tree.name]
        for scaled in (True, False):
            for rows in (pats[:4], pats[4:]) if scaled else (pats[:2],):
                if rows:
                    probabilities(c, name, f'nested ({tree.text}, {"scaled" if scaled else "unscaled"})', rows, tree.n,
                                  lambda: tree.args() + [scaled], lambda u: tree.formula(u, scaled))


# ------------------------------------------------------------------ sampling
def specs(row, ps):
    """Draws that select a known alternative: (text, draw, position)."""
    out, cum, last = [], ZERO, None
    for k, p in enumerate(ps):
        if not p.num:
            continue
        last = k
        d, e = sym('d', (row, k), True), sym('e', (row, k), True)
        out.append((f'inside the interval of alternative {k}', cum + p * (d / (d + e)), k))
        cum = cum + p
        out.append((f'equal to the cumulative probability of alternative {k}', cum, k))
    if last is not None:
        out.append(('beyond the total (rounding)', cum + sym('beyond', (row,), True), last))
    return out


def sampling(c, name, what, rows, probs, make, n, logsum=None):
    tables = [specs(i, p) for i, p in enumerate(probs)]
    many = max(len(x) for x in tables)
    j = Judge(c)
    lower, followed, o_last = [False], [0], [None]

    def one(shift, rev, zero):
        def value(pos, row):
            t = tables[row]
            return t[(pos[1] + shift) % len(t)][1]
        for o in follow(c, name, make, draw_value=value, zero=(lambda pos: zero), reverse=rev):
            if o.kind == 'raise' and o.value == 'AssertionError':
                raise Unknown('assertion')
            if o.kind != 'value':
                j.check('kernel-defect', o, name, False, '', f'{what}: {o.value} for records {", ".join(rows)}')
                continue
            res = o.value[0] if isinstance(o.value, (tuple, list)) else o.value
            o_last[0] = o
            if not isinstance(res, Arr) or res.shape != (len(rows), n):
                raise Unknown('the sampler returns something else')
            seen = {}
            race_free(c, j, o, name, what)
            for i in range(len(rows)):
                got = o.k.get(res, i).cells()
                used = o.k.used.get(i, [])
                if zero:
                    wants = [(('zero', None, tables[i][0][2]))] * n
                else:
                    if len(used) > n:
                        raise Unknown('a record looks at more draws than it needs')
                    if len(used) < n:
                        if not used or len(tables[i]) <= 3:
                            continue
                        if c.pid == 'P02':
                            j.check('draw-per-sample', o, name, False, '',
                                    f'{what}: {n} choices of a record are made with {len(used)} draws')
                        continue
                    wants = []
                    followed[0] += 1
                    for a in used:
                        t = tables[i]
                        wants.append(t[(LIST[a].key[0][1] + shift) % len(t)])
                        if c.pid == 'P02':
                            j.check('draw-of-its-own', o, name, a not in seen, f'{what}: a draw is used by one record only',
                                    f'{what}: records {seen.get(a)} and {i} use the same draw')
                        seen.setdefault(a, i)
                for g, (txt, _, w) in zip(got, wants):
                    if c.pid == 'P03':
                        ok = isinstance(g, int) and 0 <= g < len(probs[i]) and bool(probs[i][g].num)
                        j.check('never-infeasible', o, name, ok, f'{what}: an alternative that is unavailable is never selected',
                                f'{what}: a draw {txt} selects {g!r} in record {rows[i]}, which is unavailable')
                    elif c.pid == 'P05':
                        j.check('selects-first-reached', o, name, g == w and not isinstance(g, bool),
                                f'{what}: a draw {txt} selects it',
                                f'{what}: a draw {txt} selects {g!r} instead of {w} in record {rows[i]}')
                    elif c.pid == 'P01' and rev:
                        j.check('order-independent', o, name, g == w, f'{what}: the same choice when the records run in another order',
                                f'{what}: record {i} gets {g!r} instead of {w} when the records run in another order')
            if logsum is not None and c.pid == 'P06':
                ls = o.value[1] if isinstance(o.value, (tuple, list)) and len(o.value) > 1 else None
                if not isinstance(ls, Arr) or ls.shape != (len(rows),):
                    raise Unknown('the sampler returns something else')
                for i, x in enumerate(ls.cells()):
                    j.check('sample-logsum', o, name, same(x, logsum[i]), f'{what}: the total of record {rows[i]} is that of the formula',
                            f'{what}: the total of record {rows[i]} is {x!r} and not {logsum[i]!r}')
            lower[0] |= o.k.zero_asked
    for shift in range(many if c.pid in ('P03', 'P05') else 2):
        one(shift, False, False)
    one(1, True, False)
    if lower[0] and c.pid in ('P03', 'P05'):
        one(0, False, True)
    if not followed[0]:
        if c.pid != 'P05':
            raise Unknown('draws that are not followed')
        j.check('draw-selects', o_last[0], name, False, '',
                f'{what}: no draw is compared with the probabilities of its record')


def infeasible_sample(c, name, what, rows, probs, make):
    if c.pid != 'P03':
        return
    j = Judge(c)
    tables = [specs(i, p) for i, p in enumerate(probs)]
    for o in follow(c, name, make, draw_value=lambda pos, row: tables[row][0][1] if tables[row] else ONE):
        j.check('reports-infeasible', o, name, o.kind == 'raise' and o.value == 'UtilityBoundsError',
                f'{what}: an infeasible record is reported when choices are sampled',
                f'{what}: a record without an available alternative (records {", ".join(rows)}) gives '
                f'{"choices" if o.kind == "value" else o.value}')


SEED = Opaque('seed')


def weighted_sampler(c, name):
    if c.pid == 'P06':
        return
    for rows in (['....', '.x.x', 'xx..'], ['x..', '..x'], ['.....']):
        for n in (1, 3):
            w = [[sym('w', (i, k), True, {i}) if ch == '.' else ZERO for k, ch in enumerate(r)] for i, r in enumerate(rows)]
            probs = []
            for r in w:
                t = ZERO
                for x in r:
                    t = t + x
                probs.append([x / t for x in r])
            sampling(c, name, f'weighted sample, n={n}', rows, probs, lambda: [arr([list(r) for r in w]), n, SEED], n)


def flat_sampler(c, name):
    for rows in (['....', '.x.x', 'xx..'], ['x..', '..x'], ['.....']):
        for n in (1, 3):
            us = [cells(i, r) for i, r in enumerate(rows)]
            fs = [flat_formula(u) for u in us]
            sampling(c, name, f'multinomial sample, n={n}', rows, [f[0] for f in fs],
                     lambda: [arr([list(r) for r in us]), n, SEED], n, [f[1] for f in fs])
    for rows in (['xxx', '...'], ['...', 'xxx'], ['...', 'xxx', '.x.']):
        for n in (1, 2):
            us = [cells(i, r) for i, r in enumerate(rows)]
            infeasible_sample(c, name, f'multinomial sample, n={n}', rows, [flat_formula(u)[0] for u in us], lambda: [arr([list(r) for r in us]), n, SEED])


def nested_sampler(c, name):
    for tree, rows in ((TREES[0], ['....', '.x..', '...x']), (TREES[3], ['......', 'x.x...']), (TREES[2], ['...xxx..'])):
        for scaled in (True, False):
            for n in (1, 2):
                if not scaled and tree is not TREES[0]:
                    continue
                us = [cells(i, r) for i, r in enumerate(rows)]
                fs = [tree.formula(u, scaled) for u in us]
                sampling(c, name, f'nested sample ({tree.text}), n={n}', rows, [f[0] for f in fs],
                         lambda: [arr([list(r) for r in us])] + tree.args() + [n, SEED, scaled], n, [f[1] for f in fs])
    tree = TREES[0]
    for rows in (['.xxx', '....'], ['....', 'xxxx']):
        for n in (1, 2):
            us = [cells(i, r) for i, r in enumerate(rows)]
            infeasible_sample(c, name, f'nested sample, n={n}', rows, [tree.formula(u, True)[0] for u in us],
                              lambda: [arr([list(r) for r in us])] + tree.args() + [n, SEED, True])


def plain_probs(row, pattern):
    w = [sym('w', (row, k), True, {row}) if ch == '.' else ZERO for k, ch in enumerate(pattern)]
    t = ZERO
    for x in w:
        t = t + x
    return [x / t for x in w]


SEARCHED = ['.', '..', '...', 'x..', '..x', '.x.', 'xx.', '....', 'x.x.', 'xxx..', '..xx', '.....', '......', '.xx..x.', '........']


def one_draw(c, name):
    """sample_once(probabilities, draw)"""
    j = Judge(c)
    for pat in SEARCHED:
        ps = plain_probs(0, pat)
        tests = specs(0, ps)
        tests.append(('of zero', ZERO, tests[0][2]))
        for txt, r, w in tests:
            for o in follow(c, name, lambda: [arr(list(ps)), r]):
                v = o.value
                j.check('one-draw', o, name, o.kind == 'value' and v == w and not isinstance(v, bool),
                        f'probabilities {pat}: a draw {txt} selects alternative {w}',
                        f'probabilities {pat}: a draw {txt} gives {v!r} instead of {w}')


def search(c, name):
    """logarithmic_search(draw, cumulative probabilities)"""
    j = Judge(c)
    for pat in SEARCHED:
        ps = plain_probs(0, pat)
        cum, t = [], ZERO
        for p in ps:
            t = t + p
            cum.append(t)
        tests = specs(0, ps)
        tests.append(('of zero', ZERO, tests[0][2]))
        for txt, r, w in tests:
            for o in follow(c, name, lambda: [r, arr(list(cum))]):
                v = o.value
                j.check('search', o, name, o.kind == 'value' and v == w and not isinstance(v, bool),
                        f'probabilities {pat}: a draw {txt} selects alternative {w}',
                        f'probabilities {pat}: a draw {txt} gives {v!r} instead of {w}')


def many_draws(c, name):
    """sample_multi(probabilities, n, seed, out)"""
    j = Judge(c)
    for pat in ('...', 'x..x', '.x..'):
        for n in (1, 4):
            for given in (False, True):
                ps = plain_probs(0, pat)
                table = specs(0, ps)
                for shift in range(0, len(table), n):
                    def value(pos, row):
                        return table[(pos[1] + shift) % len(table)][1]

                    def make():
                        return [arr(list(ps)), n, SEED, Arr([0] * n, (n,), 'int64') if given else None]
                    for o in follow(c, name, make, draw_value=value):
                        if o.kind != 'value':
                            j.check('many-draws', o, name, False, '', f'probabilities {pat}: {o.value}')
                            continue
                        res = o.args[3] if given else o.value
                        used = o.k.used.get(0, [])
                        if not isinstance(res, Arr) or len(used) > n:
                            raise Unknown('draws that are not followed')
                        if len(used) < n:
                            c.kernel_open = 'draws that are not followed'
                            continue
                        want = [table[(LIST[a].key[0][1] + shift) % len(table)][2] for a in used]
                        j.check('many-draws', o, name, res.cells() == want, f'probabilities {pat}: {n} draws select {n} alternatives',
                                f'probabilities {pat}: draws that select {want} give {res.cells()}')


# ------------------------------------------------------------------ one record at a time
def single(c, name, nested=False):
    """multinomial_probabilities(utilities, check) and nested_probabilities(utilities, tree.., scaled, check)"""
    j = Judge(c)
    cases = []
    if nested:
        for tree in TREES[:4]:
            for pat in PATTERNS[tree.name]:
                cases.append((f'nested ({tree.text})', pat, tree, True))
        cases.append(('nested (unscaled)', '....', TREES[0], False))
    else:
        cases = [('multinomial', pat, None, None) for pat in ('....', '.x..', 'xx.', 'xxx', '.', 'x')]
    for what, pat, tree, scaled in cases:
        us = cells(0, pat)
        w = tree.formula(us, scaled) if nested else flat_formula(us)
        for flag in (False, True):
            def make():
                return [arr(list(us))] + (tree.args() + [scaled] if nested else []) + [flag]
            for o in follow(c, name, make):
                if flag and not w[1].num:
                    if c.pid == 'P03':
                        j.check('reports-infeasible', o, name, o.kind == 'raise' and o.value == 'UtilityBoundsError',
                                f'{what}: an infeasible record is reported when the check is on',
                                f'{what}: an infeasible record is not reported although the check is on ({pat})')
                    continue
                if o.kind != 'value':
                    j.check('kernel-defect', o, name, False, '', f'{what}: {o.value} for record {pat}, check {"on" if flag else "off"}')
                    continue
                if not (isinstance(o.value, (tuple, list)) and len(o.value) == 3):
                    raise Unknown('the function returns something else')
                p, t, es = o.value
                if not isinstance(p, Arr) or not isinstance(es, Arr):
                    raise Unknown('the function returns something else')
                if c.pid == 'P03':
                    bad = [x for x, y in zip(p.cells(), w[0]) if not y.num and not same(x, ZERO)]
                    j.check('zero-when-infeasible', o, name, not bad, f'{what}: what is unavailable has probability zero',
                            f'{what}: an unavailable node of record {pat} gets {bad[0] if bad else ""}')
                    continue
                for got, want, txt in ((p.cells(), w[0], 'probability'), ([t], [w[1]], 'total'), (es.cells(), w[2], 'logsum term')):
                    bad = [m for m in range(len(want)) if len(got) != len(want) or not same(got[m], want[m])]
                    j.check('single-formula', o, name, not bad, f'{what}: each {txt} of record {pat} is that of the formula',
                            f'{what}: a {txt} of record {pat} is {got[bad[0]] if bad else ""} and not {want[bad[0]] if bad else ""}')


def single_sample(c, name, nested=False, many=False):
    """multinomial_sample(utilities, r) and its relatives"""
    j = Judge(c)
    tree = TREES[0]
    for pat in (('....', '.x..', 'xxxx') if nested else ('...', 'x..', 'xxx')):
        us = cells(0, pat)
        w = tree.formula(us, True) if nested else flat_formula(us)
        table = specs(0, w[0])
        n = 2
        for shift in range(max(1, len(table))):
            def value(pos, row):
                return table[(pos[1] + shift) % len(table)][1] if table else ONE

            def make():
                r = table[shift][1] if table else ONE
                t = tree.args() if nested else []
                if many:
                    return [arr(list(us))] + t + [n, SEED] + ([True] if nested else []) + [None]
                return [arr(list(us)), r] + t + ([True] if nested else [])
            for o in follow(c, name, make, draw_value=value):
                if not table:
                    if c.pid == 'P03':
                        j.check('sampler-reports', o, name, o.kind == 'raise' and o.value == 'UtilityBoundsError',
                                f'{name} reports an infeasible record', f'{name} does not report an infeasible record')
                    continue
                if o.kind != 'value':
                    j.check('kernel-defect', o, name, False, '', f'{name}: {o.value} for record {pat}')
                    continue
                if not (isinstance(o.value, (tuple, list)) and len(o.value) == 2):
                    raise Unknown('the function returns something else')
                got, ls = o.value
                got = got.cells() if isinstance(got, Arr) else [got]
                used = o.k.used.get(0, [])
                if many and len(used) != n:
                    c.kernel_open = 'draws that are not followed'
                    continue
                want = [table[(LIST[a].key[0][1] + shift) % len(table)][2] for a in used] if many else [table[shift][2]]
                if c.pid == 'P05':
                    j.check('single-sample', o, name, got == want, f'{name}: a draw selects the alternative it reaches first',
                            f'{name}: draws that select {want} give {got} in record {pat}')
                elif c.pid == 'P03':
                    j.check('never-infeasible', o, name, all(isinstance(g, int) and 0 <= g < len(us) and w[0][g].num for g in got),
                            f'{name}: an unavailable alternative is never selected', f'{name} selects {got} in record {pat}')
                elif c.pid == 'P06':
                    j.check('single-logsum', o, name, same(ls, w[1]), f'{name}: the total is that of the formula',
                            f'{name}: the total of record {pat} is {ls!r} and not {w[1]!r}')


def singles(c):
    for n, f, *more in (('multinomial_probabilities', single), ('nested_probabilities', single, True)):
        if f'{CORE}.{n}' in c.p.functions and c.pid in ('P03', 'P06'):
            guarded(c, 'kernel', n, f, *more)
    for n, *more in (('multinomial_sample',), ('nested_sample', True), ('multinomial_multisample', False, True),
                     ('nested_multisample', True, True)):
        if f'{CORE}.{n}' in c.p.functions:
            guarded(c, 'kernel', n, single_sample, *more)


# ------------------------------------------------------------------ indexed addition
def indexed_add(c, name):
    j = Judge(c)

    def table(kind, r, k):
        return [[sym('u', (kind, a, b), False, {a}) for b in range(k)] for a in range(r)]
    for ri in (None, [2, 0], [1, 2]):
        for ci in (None, [2, 0, 1], [1, 3, 0]):
            for rev in (False, True):
                ra, ca = (3 if ri is None else 2), (4 if ci is None else 3)
                a, b = table('out', 3, 4), table('add', ra, ca)

                def make():
                    return [arr([list(x) for x in a]), arr([list(x) for x in b]), arr(ri, 'int64') if ri else None,
                            arr(ci, 'int64') if ci else None]
                for o in follow(c, name, make, reverse=rev):
                    what = f'rows {ri}, columns {ci}'
                    if o.kind != 'value':
                        j.check('indexed-add', o, name, False, '', f'{what}: {o.value}')
                        continue
                    race_free(c, j, o, name, what)
                    want = [list(x) for x in a]
                    for x in range(ra):
                        for y in range(ca):
                            p, q = (ri[x] if ri else x), (ci[y] if ci else y)
                            want[p][q] = want[p][q] + b[x][y]
                    got = [o.k.get(o.args[0], x).cells() for x in range(3)]
                    bad = [(x, y) for x in range(3) for y in range(4) if not same(got[x][y], want[x][y])]
                    j.check('indexed-add', o, name, not bad, f'{what}: each addend is added once to the cell it belongs to',
                            f'{what}: cell {bad[0] if bad else ""} is {got[bad[0][0]][bad[0][1]] if bad else ""} '
                            f'and not {want[bad[0][0]][bad[0][1]] if bad else ""}')
                    same_in = [same(x, y) for x, y in zip(o.args[1].cells(), [v for r in b for v in r])]
                    j.check('indexed-add', o, name, all(same_in), f'{what}: the addends are left as they are')
    for ri, ci in (([1, 1], None), (None, [0, 0]), ([0, 2], [3, 3]), ([2, 2], [0, 1])):
        ra, ca = (3 if ri is None else 2), (4 if ci is None else 2)
        a, b = table('out', 3, 4), table('add', ra, ca)
        for o in follow(c, name, lambda: [arr([list(x) for x in a]), arr([list(x) for x in b]), arr(ri, 'int64') if ri else None,
                                          arr(ci, 'int64') if ci else None]):
            j.check('collision-refused', o, name, o.kind == 'raise', f'rows {ri}, columns {ci}: targets that collide are refused',
                    f'rows {ri}, columns {ci}: targets that collide are accepted')


# ------------------------------------------------------------------ the rules
def probs(c):
    guarded(c, 'kernel', 'worker_multinomial_probabilities', flat_probabilities)
    guarded(c, 'kernel', 'worker_nested_probabilities', nested_probabilities)


def samples(c):
    guarded(c, 'kernel', 'worker_weighted_sample', weighted_sampler)
    guarded(c, 'kernel', 'worker_multinomial_sample', flat_sampler)
    guarded(c, 'kernel', 'worker_nested_sample', nested_sampler)


def searches(c):
    for n, f in (('sample_once', one_draw), ('logarithmic_search', search), ('sample_multi', many_draws)):
        if f'{CORE}.{n}' in c.p.functions:
            guarded(c, 'kernel', n, f)


def p01(c):
    probs(c)
    samples(c)
    guarded(c, 'kernel', 'fast_indexed_add', indexed_add)


def p03(c):
    singles(c)
    probs(c)
    samples(c)


def p05(c):
    singles(c)
    searches(c)
    samples(c)


def p06(c):
    singles(c)
    probs(c)
    samples(c)


RULES = {'P01': p01, 'P02': samples, 'P03': p03, 'P05': p05, 'P06': p06}
