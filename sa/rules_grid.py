"""Assigned data, cell by cell, by the meaning of witness programs with known labels."""
from __future__ import annotations

from .lib import *  # noqa: F401,F403
from .grids import GridInterp, plus
from .interp import strip_alloc, strip_st
from .rules_hold import known
from .rules_tree import MW, TREES, Summed, Texts, Tree, X, model_fn, reached, refuse
from .terms import FALSE, NONE, TRUE, const, cval, glob, is_const, show, t

FLAT, NEST = TREES['flat'], TREES['nest']
UNITS = [7, 5, 9]
SYMBOL = X('x + 0', ('x',))
LOOKUP, LOOKUP2 = X('x.p', (), [('x_p', 'x', 'p')], made='x_p'), X('x.q', (), [('x_q', 'x', 'q')], made='x_q')


def cell(name, *p):
    return t('cell', name, *[const(i) for i in p])


def whole(name, *n):
    from .grids import places
    return tuple(n), [cell(name, *p) for p in places(n)]


def column(name, n):
    return (n, 1), [cell(name, i) for i in range(n)]


def row(name, n):
    return (1, n), [cell(name, i) for i in range(n)]


def values(it, args, kw):
    s = args[0] if args else kw.get('s')
    return it.alloc(t('mcall', 'to_numpy', s, (), ()), None) if s is not None else None


def array_of(it, args, kw):
    return it.alloc(t('mcall', 'to_numpy', args[0], (), ()), None) if len(args) == 1 and not kw else None


class Grids:
    def __init__(self, c, prefix):
        self.c, self.prefix, self.n = c, prefix, 0

    def program(self, body, what, xs=(), shapes=None, given=None):
        self.n += 1
        self.converted = 0

        def converted(it, args, kw):
            self.converted += 1
            return values(it, args, kw)
        W = MW(self.c, f'{self.prefix}_{self.n}', body, what, calls={'parse': Texts(self.c, xs), 'convert_series': converted, 'fast_indexed_add': None, 'to_numpy': array_of},
               shapes=shapes or {}, engine=GridInterp, given=dict({'s1': 'numpy.ndarray', 'df1': 'numpy.ndarray', 'df2': 'numpy.ndarray'}, **(given or {})))
        return W

    def refusal(self, W, fi, rule, text):
        if W.refused():
            self.c.ob(rule, fi, True, text, '')
        elif W.maybe():
            self.c.skip(rule, fi, f'{W.what}: refused under {"; ".join(show(g[0], 4) for g in W.maybe()[0].guards)}')
        else:
            self.c.ob(rule, fi, False, text, f'{W.what} is not refused')

    def names(self, W):
        """The data of names in the last evaluations of the run, one dict for each."""
        ks = [x for x in W.seen if x[0] != 'add']
        return [Summed(W, x) for x in reached(ks[-1][3])] if ks else None

    def held(self, body, what, fi, want, nm='x', x=SYMBOL, shapes=None, tr=FLAT, m='m', rule='stored-by-label', text='data is stored whole, by its labels'):
        """Obligations on the data of a name in a run; want is None if the assignment has to be refused."""
        c = self.c
        body = tr.body() + [f'm.decision_units = pd.Index({UNITS})'] + body
        if want is None:
            return self.refusal(self.program(body + ['return 1'], what, [x], shapes), fi, 'refused-if-it-does-not-fit', 'data that does not fit is refused')
        W = self.program(body + [f'{m}.expressions.append({x.text!r})', f'{m}.run_stochastic(clear_scope=False)', f'return {m}["x"].filled'], what, [x], shapes)
        if W.refused():
            return refuse(c, rule, W, fi)
        known(c, rule, fi, W.value, True, f'{what}: the symbol holds no data', text)
        evs = self.names(W)
        ps = evs[0].pairs() if evs else None
        if not ps or nm not in ps:
            return c.skip(rule, fi, f'{what}: the evaluation is not followed')
        if x.lookups:
            c.ob('lookup-converted', fi, self.converted > 0, 'values of lookups are made comparable in expressions', f'{what}: text and categorical data is not converted')
        self.same(W, rule, fi, ps[nm], want, what, text)

    def same(self, W, rule, fi, v, want, what, text):
        c = self.c
        if want[0] == ():
            w = strip_st(W.it.val(v))
            if w is want[1][0] or is_const(w) and is_const(want[1][0]) and cval(w) == cval(want[1][0]):
                return c.ob(rule, fi, True, text, '')
            if is_const(w) or w.op == 'param':
                return c.ob(rule, fi, False, text, f'{what}: the data is {show(v, 5)} instead of {show(want[1][0], 3)}')
            return c.skip(rule, fi, f'{what}: the data is {show(v, 5)}')
        got = W.it.image(v)
        if got is None:
            if is_const(strip_st(v)):
                return c.ob(rule, fi, False, text, f'{what}: the data is {show(v, 5)}')
            return c.skip(rule, fi, f'{what}: the data is {show(v, 6)}')
        if got[0] != want[0]:
            return c.ob(rule, fi, False, text, f'{what}: the data has the shape {got[0]} instead of {want[0]}')
        bad = [i for i, (a, b) in enumerate(zip(got[1], want[1])) if not (a is b or is_const(a) and is_const(b) and cval(a) == cval(b))]
        if not bad:
            return c.ob(rule, fi, True, text, '')
        a, b = got[1][bad[0]], want[1][bad[0]]
        m = got[0][-1]
        at = f'row {bad[0] // m}, column {bad[0] % m}' if len(got[0]) > 1 else f'place {bad[0]}'
        if simple_cell(a):
            return c.ob(rule, fi, False, text, f'{what}: {at} holds {text_of(a)} instead of {text_of(b)}')
        c.skip(rule, fi, f'{what}: {at} holds {show(a, 5)}')


def simple_cell(x):
    return is_const(x) or x.op in ('cell', 'garbage', 'plus') or x.op == 'glob'


def text_of(x):
    if x.op == 'cell':
        return f'{x.args[0]}[{", ".join(str(cval(i)) for i in x.args[1:])}]'
    if x.op == 'plus':
        return ' + '.join(map(text_of, x.args))
    return 'nothing' if x.op == 'garbage' else show(x, 3)


def p18(c):
    g = Grids(c, 'p18')
    numbers(g)
    vectors(g)
    tables(g)
    matrices(g)
    partials(g)
    copies(g)


def numbers(g):
    fi = g.c.p.fn('cheval.api.NumberSymbol.assign')
    for z in ('5', '2.5', '0', '-1.25', 'True'):
        g.held(['m.declare_number("x")', f'm["x"].assign({z})'], f'a number, {z}', fi, ((), [const(float(eval(z)))]))
    g.held(['m.declare_number("x")', 'm["x"].assign(5)', 'm["x"].assign(0)'], 'a number assigned twice', fi, ((), [const(0.0)]))


def vectors(g):
    fi = g.c.p.fn('cheval.api.VectorSymbol.assign')
    k = len(FLAT.order)
    for data, shape, ok in (('pd.Series(arr1, index=[7, 5, 9])', (3,), True), ('pd.Series(arr1, index=pd.Index([7, 5, 9]))', (3,), True), ('arr1', (3,), True),
                            ('pd.Series(arr1, index=m.decision_units)', (3,), True), ('pd.Series(arr1, index=[5, 7, 9])', (3,), False),
                            ('pd.Series(arr1, index=[9, 5, 7])', (3,), False), ('pd.Series(arr1, index=[7, 5])', (2,), False),
                            ('pd.Series(arr1, index=[7, 5, 9, 1])', (4,), False), ('pd.Series(arr1, index=[7, 5, 8])', (3,), False),
                            ('pd.Series(arr1, index=m.choices)', (3,), False), ('pd.Series(arr1, index=[7, 7, 9])', (3,), False), ('arr1', (2,), False), ('arr1', (4,), False),
                            ('arr1', (1,), False), ('arr1', (3, 1), False), ('arr1', (1, 3), False), ('arr1', (3, 3), False),
                            ('[1, 2, 3]', (3,), False), ('pd.DataFrame(arr1, index=[7, 5, 9])', (3, 1), False), ('5', (3,), False)):
        g.held(['m.declare_vector("x", 0)', f'm["x"].assign({data})'], f'a vector of the units, {data} of the shape {shape}', fi, column('arr1', 3) if ok else None,
               shapes={'arr1': shape})
    for data, shape, ok in (('pd.Series(arr1, index=m.choices)', (3,), True), ('pd.Series(arr1, index=["c", "a", "b"])', (3,), True), ('arr1', (3,), True),
                            ('pd.Series(arr1, index=["a", "b", "c"])', (3,), False), ('pd.Series(arr1, index=["c", "a"])', (2,), False),
                            ('pd.Series(arr1, index=["c", "a", "b", "d"])', (4,), False), ('pd.Series(arr1, index=["c", "a", "d"])', (3,), False),
                            ('pd.Series(arr1, index=[7, 5, 9])', (3,), False), ('arr1', (2,), False), ('arr1', (1, 3), False), ('arr1', (3, 1), False), ('5', (3,), False)):
        g.held(['m.declare_vector("x", 1)', f'm["x"].assign({data})'], f'a vector of the choices, {data} of the shape {shape}', fi, row('arr1', k) if ok else None,
               shapes={'arr1': shape})
    n = len(NEST.order)
    for data, m, ok in (('pd.Series(arr1, index=m.choices)', n, True), ('arr1', n, True), ('arr1', n + 1, False), ('arr1', 3, False),
                        ('pd.Series(arr1, index=m.elemental_choices)', len(NEST.leaves), False)):
        g.held(['m.declare_vector("x", 1)', f'm["x"].assign({data})'], f'a vector of nested choices, {data}', fi, row('arr1', n) if ok else None, shapes={'arr1': (m,)}, tr=NEST)
    g.held(['m.declare_vector("x", 0)', 'm["x"].assign(arr1)', 'm["x"].assign(arr2)'], 'a vector assigned twice', fi, column('arr2', 3), shapes={'arr1': (3,), 'arr2': (3,)})
    g.held(['m.declare_vector("x", 0)', 'm.declare_vector("y", 0)', 'm["x"].assign(arr1)', 'm["y"].assign(arr1)', 'm["y"].empty()'], 'an array assigned to two vectors', fi,
           column('arr1', 3), shapes={'arr1': (3,)})


def tables(g):
    fi = g.c.p.fn('cheval.api.TableSymbol.assign')
    df = 'pd.DataFrame({"p": arr1, "q": arr2}, index=%s)'
    for o, good, bad in ((0, ('[7, 5, 9]', 'm.decision_units', 'pd.Index([7, 5, 9])'), ('[5, 7, 9]', '[7, 5, 8]', 'm.choices', '[0, 1, 2]')),
                         (1, ('m.choices', '["c", "a", "b"]'), ('["a", "b", "c"]', '["c", "a", "d"]', 'm.decision_units'))):
        for ix in good:
            for nm, x, arr in (('x_p', LOOKUP, 'arr1'), ('x_q', LOOKUP2, 'arr2')):
                g.held([f'm.declare_table("x", {o})', f'm["x"].assign({df % ix})'], f'column {nm[2:]} of a table ({o}) with the index {ix}', fi,
                       (column if o == 0 else row)(arr, 3), nm, x, {'arr1': (3,), 'arr2': (3,)})
        for ix in bad:
            g.held([f'm.declare_table("x", {o})', f'm["x"].assign({df % ix})'], f'a table ({o}) with the index {ix}', fi, None, shapes={'arr1': (3,), 'arr2': (3,)})
        g.held([f'm.declare_table("x", {o})', 'm["x"].assign(pd.DataFrame({"p": arr1, "q": arr2}, index=[7, 5]))'], f'a shorter table ({o})', fi, None,
               shapes={'arr1': (2,), 'arr2': (2,)})
        for attrs, ok in (('{"p"}', True), ('{"q", "p"}', True), ('["p"]', True), ('{"p", "z"}', False), ('{"z"}', False), ('{"z", "q"}', False), ('set()', True)):
            ix = 'm.decision_units' if o == 0 else 'm.choices'
            g.held([f'm.declare_table("x", {o}, mandatory_attributes={attrs})', f'm["x"].assign({df % ix})'], f'a table ({o}) that needs {attrs}', fi,
                   (column if o == 0 else row)('arr1', 3) if ok else None, 'x_p', LOOKUP, {'arr1': (3,), 'arr2': (3,)})
        for bad in ('arr1', 'pd.Series(arr1, index=m.decision_units)', '5', '[1, 2, 3]'):
            g.held([f'm.declare_table("x", {o})', f'm["x"].assign({bad})'], f'a table ({o}) from {bad}', fi, None, shapes={'arr1': (3,)})
    g.held(['m.declare_table("x", 0)', f'm["x"].assign({df % "[7, 5, 9]"})', 'm["x"].assign(pd.DataFrame({"q": arr1, "p": arr2}, index=[7, 5, 9]))'], 'a table assigned twice', fi,
           column('arr2', 3), 'x_p', LOOKUP, {'arr1': (3,), 'arr2': (3,)})
    g.held(['m.declare_table("x", 0)', 'm.declare_table("y", 0, mandatory_attributes={"z"})', f'm["x"].assign({df % "[7, 5, 9]"})'], 'a table next to one with mandatory attributes',
           fi, column('arr1', 3), 'x_p', LOOKUP, {'arr1': (3,), 'arr2': (3,)})


def placed(name, rows, cols, all_rows, all_cols, fill=0, turned=False):
    out = []
    for r in all_rows:
        for k in all_cols:
            if r in rows and k in cols:
                i, j = rows.index(r), cols.index(k)
                out.append(cell(name, j, i) if turned else cell(name, i, j))
            else:
                out.append(const(fill))
    return (len(all_rows), len(all_cols)), out


ROWS = ([7, 5, 9], [5, 9, 7], [7, 5], [9, 5], [9], [7, 5, 8], [1, 2, 3], [8, 7])
COLS = (['c', 'a', 'b'], ['a', 'b', 'c'], ['c', 'a'], ['b', 'c'], ['a'], ['c', 'a', 'd'], ['d', 'c'])


def matrices(g):
    fi = g.c.p.fn('cheval.api.MatrixSymbol.assign')
    ch = ['c', 'a', 'b']
    for rows in ROWS:
        for cols in COLS:
            n, m = len(rows), len(cols)
            fits = set(rows) <= set(UNITS) and set(cols) <= set(ch)
            want = placed('arr3', rows, cols, UNITS, ch) if fits else None
            g.held(['m.declare_matrix("x")', f'm["x"].assign(pd.DataFrame(arr3, index={rows}, columns={cols}))'], f'a matrix with the rows {rows} and columns {cols}', fi, want,
                   shapes={'arr3': (n, m)})
            if rows in (ROWS[0], ROWS[1], ROWS[2], ROWS[5]) and cols in (COLS[0], COLS[1], COLS[3], COLS[5]):
                want = placed('arr3', rows, cols, UNITS, ch, turned=True) if fits else None
                g.held(['m.declare_matrix("x", 1)', f'm["x"].assign(pd.DataFrame(arr3, index={cols}, columns={rows}))'],
                       f'a matrix by choices with the rows {cols} and columns {rows}', fi, want, shapes={'arr3': (m, n)})
                for a, b in ((True, False), (False, True), (False, False)):
                    ok = fits and (b or rows == UNITS) and (a or cols == ch)
                    want = placed('arr3', rows, cols, UNITS, ch, fill=1.5) if ok else None
                    g.held([f'm.declare_matrix("x", reindex_cols={a}, reindex_rows={b}, fill_value=1.5)', f'm["x"].assign(pd.DataFrame(arr3, index={rows}, columns={cols}))'],
                           f'a matrix (reindex_cols={a}, reindex_rows={b}) with the rows {rows} and columns {cols}', fi, want, shapes={'arr3': (n, m)})
    for fill in ('-3', 'np.nan', '0.5'):
        want = placed('arr3', [9, 7], ['b', 'c'], UNITS, ch, fill=0)
        f = glob('numpy.nan') if fill == 'np.nan' else const(eval(fill))
        want = want[0], [f if is_const(x) else x for x in want[1]]
        g.held([f'm.declare_matrix("x", fill_value={fill})', 'm["x"].assign(pd.DataFrame(arr3, index=[9, 7], columns=["b", "c"]))'], f'a matrix filled with {fill}', fi, want,
               shapes={'arr3': (2, 2)})
    tc = NEST.choices
    for cols in (tc, tc[::-1], [tc[1], tc[0]], [tc[-1]], tc[:1] + [('z', '.')]):
        fits = set(cols) <= set(tc)
        g.held(['m.declare_matrix("x")', f'm["x"].assign(pd.DataFrame(arr3, index={UNITS}, columns=pd.MultiIndex.from_tuples({cols})))'],
               f'a matrix of nested choices {cols}', fi, placed('arr3', UNITS, cols, UNITS, tc) if fits else None, shapes={'arr3': (3, len(cols))}, tr=NEST)
    for bad in ('arr3', 'pd.Series(arr1, index=m.decision_units)', '5'):
        g.held(['m.declare_matrix("x")', f'm["x"].assign({bad})'], f'a matrix from {bad}', fi, None, shapes={'arr3': (3, 3), 'arr1': (3,)})
    g.held(['m.declare_matrix("x")', 'm["x"].assign(pd.DataFrame(arr3, index=[7, 5, 9], columns=m.choices))', 'm["x"].assign(pd.DataFrame(df1, index=[9], columns=["a"]))'],
           'a matrix assigned twice', fi, placed('df1', [9], ['a'], UNITS, ch), shapes={'arr3': (3, 3), 'df1': (1, 1)})
    for rows, cols in (([7, 7, 9], ch), ([7, 5, 9], ['c', 'a', 'a']), ([5, 5], ['b', 'b'])):
        g.held(['m.declare_matrix("x")', f'm["x"].assign(pd.DataFrame(arr3, index={rows}, columns={cols}))'], f'a matrix with the rows {rows} and columns {cols}', fi, None,
               shapes={'arr3': (len(rows), len(cols))})


def start_cells(g, W, want, rule, fi, what, text):
    ks = [x for x in W.seen if x[0] != 'add']
    if not ks:
        return g.c.skip(rule, fi, f'{what}: no worker is called')
    g.same(W, rule, fi, ks[-1][3], want, what, text)


def summed(parts, n):
    out = [const(0.0)] * (n[0] * n[1])
    for _, xs in parts:
        out = [plus(a, b) for a, b in zip(out, xs)]
    return n, out


def partials(g):
    c = g.c
    fi = model_fn(c, 'add_partial_utilities')
    ch = ['c', 'a', 'b']
    text = 'partial utilities are added to the rows and columns of their labels, once'
    for rows in ROWS + ([7, 7],):
        for cols in COLS + (['b', 'b'],):
            for flags in ((False, True), (True, True), (True, False), (False, False), None):
                if rows not in (ROWS[0], ROWS[1], ROWS[3]) and flags not in ((True, True), None) or cols not in (COLS[0], COLS[1], COLS[3], COLS[4]) and flags != (True, True):
                    continue
                a, b = flags or (False, True)
                ok = set(rows) <= set(UNITS) and set(cols) <= set(ch) and (a or rows == UNITS) and (b or cols == ch) and len(set(rows)) == len(rows) and \
                    len(set(cols)) == len(cols)
                arg = f', reindex_rows={a}, reindex_columns={b}' if flags is not None else ''
                call = f'm.add_partial_utilities(pd.DataFrame(arr3, index={rows}, columns={cols}){arg})'
                what = f'partial utilities with the rows {rows} and columns {cols}{arg}'
                W = g.program(FLAT.body() + [f'm.decision_units = pd.Index({UNITS})', call, 'm.run_stochastic()', 'return 1'], what, [], {'arr3': (len(rows), len(cols))})
                if not ok:
                    g.refusal(W, fi, 'refused-if-it-does-not-fit', 'partial utilities that do not fit are refused')
                elif W.refused():
                    refuse(c, 'partials-by-label', W, fi)
                else:
                    start_cells(g, W, summed([placed('arr3', rows, cols, UNITS, ch)], (3, 3)), 'partials-by-label', fi, what, text)
    body = FLAT.body() + [f'm.decision_units = pd.Index({UNITS})', 'm.add_partial_utilities(pd.DataFrame(arr3, index=[7, 5, 9], columns=["c", "a", "b"]))',
                          'm.add_partial_utilities(pd.DataFrame(df1, index=[9, 7], columns=["b", "c"]), reindex_rows=True)']
    one, two = placed('arr3', UNITS, ch, UNITS, ch), placed('df1', [9, 7], ['b', 'c'], UNITS, ch)
    sh = {'arr3': (3, 3), 'df1': (2, 2), 'df2': (1, 3)}
    for more, parts, what in (([], [one, two], 'two tables of partial utilities'),
                              (['m.run_stochastic()'], [one, two], 'two tables of partial utilities, run twice'),
                              (['m.run_discrete(random_seed=seed)', 'm.validate()'], [one, two], 'two tables of partial utilities, run twice'),
                              (['m.run_stochastic()', 'm.add_partial_utilities(pd.DataFrame(df2, index=[5], columns=["b", "c", "a"]), True)'],
                               [one, two, placed('df2', [5], ['b', 'c', 'a'], UNITS, ch)], 'partial utilities that are added after a run'),
                              (['o = m.copy()', 'm.add_partial_utilities(pd.DataFrame(df2, index=[5], columns=["b", "c", "a"]), True)', 'm = o'], [one, two],
                               'partial utilities of a copy'),
                              (['o = m.copy()', 'o.add_partial_utilities(pd.DataFrame(df2, index=[5], columns=["b", "c", "a"]), True)'], [one, two],
                               'partial utilities after those of a copy have changed')):
        for call in ('m.run_stochastic()', 'm.run_discrete(random_seed=seed)'):
            W = g.program(body + more + [call, 'return 1'], what + ', ' + call, [], sh)
            if W.refused():
                refuse(c, 'partials-by-label', W, fi)
            else:
                start_cells(g, W, summed(parts, (3, 3)), 'partials-by-label', fi, W.what, text)


def copies(g):
    """Rows of subsets, cell by cell."""
    c = g.c
    fi = model_fn(c, 'copy_subset')
    cp = model_fn(c, 'copy')
    text = 'a subset holds the rows of the mask'
    ch = ['c', 'a', 'b']
    cases = [('declare_vector("x", 0)', 'arr1', {'arr1': (3,)}, column('arr1', 3), 0, SYMBOL, 'x'),
             ('declare_vector("x", 1)', 'arr1', {'arr1': (3,)}, row('arr1', 3), None, SYMBOL, 'x'),
             ('declare_table("x", 0)', 'pd.DataFrame({"p": arr1, "q": arr2}, index=[7, 5, 9])', {'arr1': (3,), 'arr2': (3,)}, column('arr1', 3), 0, LOOKUP, 'x_p'),
             ('declare_table("x", 1)', 'pd.DataFrame({"p": arr1, "q": arr2}, index=["c", "a", "b"])', {'arr1': (3,), 'arr2': (3,)}, row('arr2', 3), None, LOOKUP2, 'x_q'),
             ('declare_matrix("x")', 'pd.DataFrame(arr3, index=[7, 5, 9], columns=["c", "a", "b"])', {'arr3': (3, 3)}, placed('arr3', UNITS, ch, UNITS, ch), 0, SYMBOL, 'x'),
             ('declare_matrix("x")', 'pd.DataFrame(arr3, index=[9, 7], columns=["b", "c"])', {'arr3': (2, 2)}, placed('arr3', [9, 7], ['b', 'c'], UNITS, ch), 0, SYMBOL, 'x'),
             ('declare_matrix("x", 1)', 'pd.DataFrame(arr3, index=["c", "a", "b"], columns=[7, 5, 9])', {'arr3': (3, 3)},
              placed('arr3', UNITS, ch, UNITS, ch, turned=True), 0, SYMBOL, 'x')]
    for decl, data, sh, full, side, x, nm in cases:
        start = [f'm.{decl}', f'm["x"].assign({data})']
        g.held(start + ['o = m.copy()'], f'{decl} of a copy', cp, full, nm, x, sh, m='o', rule='copied-whole', text='a copy holds the data of its original')
        g.held(start + ['o = m.copy()', 'o["x"].empty()'], f'{decl} after that of a copy was emptied', cp, full, nm, x, sh, rule='copied-whole',
               text='a copy has symbols of its own')
        for mask in ((True, False, True), (False, True, True), (False, False, True), (True, True, True)):
            keep = [i for i, b in enumerate(mask) if b]
            m = full[0][1]
            want = full if side is None else ((len(keep), m), [full[1][i * m + j] for i in keep for j in range(m)])
            for mk in (f'pd.Series({list(mask)}, index=[7, 5, 9])',):
                g.held(start + [f'o = m.copy_subset({mk})'], f'{decl} of the subset {list(mask)}', fi, want, nm, x, sh, m='o', rule='rows-of-mask', text=text)
            g.held(start + [f'o = m.copy_subset(pd.Series({list(mask)}, index=[7, 5, 9]))'], f'{decl} after taking the subset {list(mask)}', fi, full, nm, x, sh,
                   rule='rows-of-mask', text='taking a subset changes nothing')
    for ix in ('[5, 7, 9]', '[7, 5, 8]', '["c", "a", "b"]'):
        W = g.program(FLAT.body() + [f'm.decision_units = pd.Index({UNITS})', f'o = m.copy_subset(pd.Series([True, False, True], index={ix}))', 'return 1'],
                      f'a subset by a mask with the index {ix}')
        g.refusal(W, fi, 'refused-if-it-does-not-fit', 'a mask of other units is refused')


RULES = {'P18': p18}
