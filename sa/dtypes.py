"""The value-flow interpreter for functions of one series whose type is known.

Comparisons of the type, accessors of the series and the predicates of numpy and pandas on types are decided by tables.
"""
from __future__ import annotations

from .frames import FrameInterp
from .interp import FALSE, TRUE, conj, const, cval, disj, glob, is_const, nneg, strip_alloc, strip_st

SIZES = {'int': [8, 16, 32, 64], 'uint': [8, 16, 32, 64], 'float': [16, 32, 64], 'complex': [64, 128]}
KIND = {'int': 'i', 'uint': 'u', 'float': 'f', 'complex': 'c', 'bool': 'b', 'datetime': 'M', 'object': 'O', 'category': 'O', 'text': 'O'}
ALIAS = {'int_': 'int64', 'intp': 'int64', 'longlong': 'int64!', 'intc': 'int32', 'short': 'int16', 'byte': 'int8', 'long': 'int64',
         'uint': 'uint64', 'uintp': 'uint64', 'uintc': 'uint32', 'ushort': 'uint16', 'ubyte': 'uint8', 'float_': 'float64', 'double': 'float64',
         'single': 'float32', 'half': 'float16', 'bool_': 'bool', 'bool': 'bool', 'object_': 'object', 'int': 'int64', 'float': 'float64',
         'object': 'object', 'complex_': 'complex128', 'complex': 'complex128', 'str_': 'U', 'str': 'U'}
ABSTRACT = {'integer': ('int', 'uint'), 'signedinteger': ('int',), 'unsignedinteger': ('uint',), 'floating': ('float',),
            'inexact': ('float', 'complex'), 'number': ('int', 'uint', 'float', 'complex'), 'complexfloating': ('complex',),
            'bool_': ('bool',), 'datetime64': ('datetime',), 'object_': ('object', 'text'), 'generic': tuple(KIND)}
IS = {'is_bool_dtype': ('bool',), 'is_integer_dtype': ('int', 'uint'), 'is_signed_integer_dtype': ('int',), 'is_unsigned_integer_dtype': ('uint',),
      'is_float_dtype': ('float',), 'is_numeric_dtype': ('int', 'uint', 'float', 'complex', 'bool'), 'is_categorical_dtype': ('category',),
      'is_datetime64_any_dtype': ('datetime',), 'is_datetime64_dtype': ('datetime',), 'is_datetime64_ns_dtype': ('datetime',),
      'is_object_dtype': ('object', 'text'), 'is_complex_dtype': ('complex',)}
TYPES_OF = {'int': 'INT_NAME', 'uint': 'UINT_NAME', 'float': 'FLOAT_NAME', 'bool': 'BOOL_NAME', 'text': 'TEXT_NAME', 'category': 'CAT_NAME',
            'datetime': 'TIME_NAME', 'object': 'OBJ_NAME', 'complex': 'OBJ_NAME'}


def all_types():
    """(name, family, accessors) of the types of series."""
    for f, sizes in SIZES.items():
        for n in sizes:
            yield f'{f}{n}', f, ()
    yield 'bool', 'bool', ()
    yield 'datetime64', 'datetime', ('dt',)
    yield 'object', 'object', ()
    yield 'object of str', 'text', ('str',)
    yield 'category', 'category', ('cat',)
    yield 'category of str', 'category', ('cat', 'str')
    yield 'category of datetime', 'category', ('cat', 'dt')


class DtypeInterp(FrameInterp):
    def __init__(self, project, series, name, family, accessors, **kw):
        self.series, self.name, self.family, self.accessors = series, name.split(' of ')[0], family, accessors
        super().__init__(project, **kw)

    def is_series(self, x):
        x = strip_alloc(strip_st(x))
        return x.op == 'param' and x.args[0] == self.series

    def is_dtype(self, x):
        x = strip_alloc(strip_st(x))
        if x.op == 'call' and x.args[0] is glob('numpy.dtype') and x.args[1]:
            return self.is_dtype(x.args[1][0])
        if x.op == 'attr' and x.args[1] == 'type':
            return self.is_dtype(x.args[0])
        return x.op == 'attr' and x.args[1] in ('dtype', 'dtypes') and (self.is_series(x.args[0]) or x.args[0].op == 'attr' and x.args[0].args[1] == 'values' and
                                                                        self.is_series(x.args[0].args[0]))

    def same(self, x):
        """Is the type of the series equal to a type, given as a class or a name?"""
        x = strip_alloc(strip_st(x))
        while x.op == 'call' and x.args[0] is glob('numpy.dtype') and len(x.args[1]) == 1:
            x = strip_alloc(strip_st(x.args[1][0]))
        if x.op == 'glob' and x.args[0].split('.')[0] in ('numpy', 'builtins'):
            mod, n = x.args[0].rsplit('.', 1)
            n = ALIAS.get(n, n) if mod != 'numpy' or n != 'int' else n
        elif is_const(x) and isinstance(cval(x), str):
            n = ALIAS.get(cval(x), cval(x))
        else:
            return None
        n = n.replace('<', '').replace('datetime64[ns]', 'datetime64')
        if n in ('datetime64', 'M8[ns]'):
            return self.name == 'datetime64' if n != 'datetime64' or is_const(x) else None
        known = {f'{f}{k}' for f, ks in SIZES.items() for k in ks} | {'bool', 'object', 'category', 'U', 'int64!'}
        return n == self.name if n in known else None

    def enums(self, c):
        if c.op == 'cmp' and c.args[0] in ('==', 'is'):
            a, b = c.args[1:]
            for x, y in ((a, b), (b, a)):
                if self.is_dtype(x) and c.args[0] == '==':
                    r = self.same(y)
                    if r is not None:
                        return const(r)
                z = strip_alloc(strip_st(x))
                if z.op == 'attr' and z.args[1] == 'kind' and self.is_dtype(z.args[0]) and is_const(y):
                    return const(KIND[self.family] == cval(y))
                if z.op == 'attr' and z.args[1] == 'name' and self.is_dtype(z.args[0]) and is_const(y):
                    return const({'datetime64': 'datetime64[ns]'}.get(self.name, self.name) == cval(y))
        if c.op == 'cmp' and c.args[0] == 'in':
            x, coll = c.args[1], strip_alloc(strip_st(c.args[2]))
            z = strip_alloc(strip_st(x))
            if z.op == 'attr' and z.args[1] == 'kind' and self.is_dtype(z.args[0]) and is_const(coll) and isinstance(cval(coll), str):
                return const(KIND[self.family] in cval(coll))
            xs = coll.args[1:] if coll.op == 'lit' else coll.args if coll.op == 'tup' else None
            if self.is_dtype(x) and xs is not None:
                rs = [self.same(y) for y in xs]
                if True in rs:
                    return TRUE
                return FALSE if None not in rs else c
        return super().enums(c)

    def membership(self, x, coll):
        d = self.term_domain(coll)
        if self.is_dtype(x) and d.unroll is not None:
            rs = [self.same(y) for y in d.unroll]
            if True in rs:
                return TRUE
            if None not in rs:
                return FALSE
        return super().membership(x, coll)

    def isinstance_(self, x, c):
        if self.is_dtype(x) and c.op in ('glob', 'cls', 'tup'):
            ns = [y.args[0].rsplit('.', 1)[-1] for y in (c.args if c.op == 'tup' else [c]) if y.op in ('glob', 'cls')]
            if ns and all(n in ('CategoricalDtype', 'DatetimeTZDtype', 'StringDtype', 'ExtensionDtype') for n in ns):
                return const(self.family == 'category' and bool({'CategoricalDtype', 'ExtensionDtype'} & set(ns)))
        return super().isinstance_(x, c)

    def call_global(self, f, args, kwargs, e):
        q = f.args[0]
        n = q.rsplit('.', 1)[-1]
        if q == 'builtins.hasattr' and len(args) == 2 and self.is_series(args[0]) and is_const(args[1]) and cval(args[1]) in ('cat', 'str', 'dt'):
            return const(cval(args[1]) in self.accessors)
        if n in IS and q.startswith('pandas.') and len(args) == 1 and (self.is_series(args[0]) or self.is_dtype(args[0])):
            return const(self.family in IS[n])
        if q in ('numpy.issubdtype', 'builtins.issubclass') and len(args) == 2 and self.is_dtype(args[0]) and args[1].op == 'glob':
            n = args[1].args[0].rsplit('.', 1)[-1]
            if n in ABSTRACT:
                return const(self.family in ABSTRACT[n])
            r = self.same(args[1])
            if r is not None:
                return const(r)
        return super().call_global(f, args, kwargs, e)

    def getattr_(self, o, name, node):
        if self.s is not None and self.is_series(o) and name in ('cat', 'str', 'dt') and name not in self.accessors:
            self.do_raise(node, glob('builtins.AttributeError'))
            return super().getattr_(o, name, node)
        return super().getattr_(o, name, node)
