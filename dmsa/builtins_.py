"""Builtin classes, functions and methods of builtin values."""

from __future__ import annotations

import ast
import functools

from . import terms as T
from .values import *  # noqa: F401,F403
from .interp import Budget, Raised, Unsupported, SplitRequest, _Live, R
from .lib import ACount, ADecomp, EXC, JText, is_bytes, is_str, _LiveList


def install(m):
    c = m.classes
    b = m.builtins

    def cls(name, bases=("object",), native=None):
        k = AClass(name, [c[x] for x in bases], {})
        k.native = native
        c[name] = k
        return k

    obj = AClass("object", [], {})
    c["object"] = obj
    for n in ("int", "float", "str", "bytes", "bytearray", "tuple", "list", "dict", "set", "frozenset", "range", "slice", "type", "property", "staticmethod", "classmethod", "super"):
        cls(n, native=n)
    cls("bool", ("int",), "bool")
    for n in ("NoneType", "function", "method", "module", "generator", "iterator", "NotImplementedType", "memoryview", "complex", "defaultdict", "OrderedDict", "Counter", "deque", "zip", "map", "filter", "enumerate", "reversed"):
        cls(n, ("dict",) if n in ("defaultdict", "OrderedDict", "Counter") else ("object",), n if n in ("defaultdict", "OrderedDict", "Counter", "deque") else None)
    for line in EXC.strip().splitlines():
        n, p = line.split(": ")
        k = AClass(n, [c[p]], {})
        k.isexc = True
        c[n] = k
        b[n] = k
    c["memoryview"].native = "memoryview"
    b["memoryview"] = c["memoryview"]
    b["IOError"] = b["EnvironmentError"] = c["OSError"]
    for n in ("int", "float", "str", "bytes", "bytearray", "tuple", "list", "dict", "set", "frozenset", "range", "slice", "type", "object", "bool"):
        b[n] = c[n]
    # abstract interfaces used in isinstance tests
    for n in ("IOBase", "RawIOBase", "BufferedIOBase", "TextIOBase"):
        cls(n, ("object",) if n == "IOBase" else ("IOBase",), "iface")
    cls("UnsupportedOperation", ("OSError", "ValueError"))
    c["UnsupportedOperation"].isexc = True
    for n in ("BytesIO", "BufferedReader", "BufferedWriter", "BufferedRandom"):
        cls(n, ("BufferedIOBase",), n)
    for n in ("StringIO", "TextIOWrapper"):
        cls(n, ("TextIOBase",), n)
    cls("FileIO", ("RawIOBase",), "FileIO")

    def iomethod(n, f):
        def g(m, o, *a):
            if isinstance(o, AInst) and o.payload is not None:
                return m.call(m.native_attr(o.payload, n, o), list(a))
            return f(m, o, *a)

        return Native(n, g)

    def ioclose(m, o):
        m.wcon(o)["__closed"] = True

    io = c["IOBase"].c
    io["close"] = iomethod("close", ioclose)
    io["flush"] = iomethod("flush", lambda m, o: None)
    for n in ("readable", "writable", "seekable", "isatty"):
        io[n] = iomethod(n, lambda m, o: False)
    for n in ("seek", "truncate", "fileno"):
        io[n] = iomethod(n, (lambda n: lambda m, o, *a: m.throw("UnsupportedOperation", n))(n))
    # IOBase.tell() is seek(0, 1)
    io["tell"] = iomethod("tell", lambda m, o: m.call(m.getattr_(o, "seek"), [0, 1]))

    def ioclosed(m, o):
        if isinstance(o, AInst) and o.payload is not None:
            return m.native_attr(o.payload, "closed", o)
        return m.con(o).get("__closed", False)

    io["closed"] = AProperty(Native("closed", ioclosed))
    io["__enter__"] = Native("__enter__", lambda m, o: o)
    io["__exit__"] = Native("__exit__", lambda m, o, *a: m.call(m.getattr_(o, "close"), []))

    m.ctors = CTORS
    m.methods = METHODS
    m.mkiter = lambda v: mkiter(m, v)
    for n, f in FUNCS.items():
        b[n] = Native(n, f, n in RAWF)
    b["property"] = c["property"]
    b["staticmethod"] = c["staticmethod"]
    b["classmethod"] = c["classmethod"]
    b["super"] = c["super"]
    b["NotImplemented"] = NotImplemented
    b["Ellipsis"] = Ellipsis
    b["__name__"] = "builtins"
    b["__debug__"] = True
    c["object"].c["__setattr__"] = None
    del c["object"].c["__setattr__"]


# --------------------------------------------------------------------------- constructors
def c_int(m, v=0, base=None):
    v = m.res(v)
    n = m.num(v)
    if n is not None:
        if isinstance(n, float) and (n != n or n in (float("inf"), float("-inf"))):
            m.throw("OverflowError" if n == n else "ValueError", "cannot convert float to integer")
        return T.trunc_(n)
    if isinstance(v, (str, bytes)):
        try:
            return int(v) if base is None else int(v, m.idx(base))
        except ValueError as e:
            m.throw("ValueError", str(e))
    if isinstance(v, AInst):
        for nm in ("__int__", "__index__", "__trunc__"):
            f = m.lookup(v.cls, nm)
            if f is not UNBOUND:
                return m.call(m.bind(f, v, v.cls), [])
    if isinstance(v, (SStr, Rope, Unk)):
        raise Unsupported("int of abstract text")
    m.throw("TypeError", f"int() argument must be a string or a number, not '{m.type_of(v).name}'")


def c_float(m, v=0.0):
    v = m.res(v)
    n = m.num(v)
    if n is not None:
        try:
            return T.tofloat(n)
        except OverflowError as e:
            m.throw("OverflowError", str(e))
    if isinstance(v, (str, bytes)):
        try:
            return float(v)
        except ValueError as e:
            m.throw("ValueError", str(e))
    if isinstance(v, AInst):
        f = m.lookup(v.cls, "__float__")
        if f is not UNBOUND:
            return m.call(m.bind(f, v, v.cls), [])
    if isinstance(v, (SStr, Rope, Unk)):
        raise Unsupported("float of abstract text")
    m.throw("TypeError", f"float() argument must be a string or a real number, not '{m.type_of(v).name}'")


def c_str(m, v="", encoding=None, errors="strict"):
    if encoding is not None:
        v = m.res(v)
        if is_str(v):
            m.throw("TypeError", "decoding str is not supported")
        if not is_bytes(v) and not isinstance(v, (AByteArray, Unk)):
            m.throw("TypeError", "decoding to str: need a bytes-like object")
        return m.decode(m.as_bytes(v), encoding, errors)
    return m.str_(v)


def c_deque(m, it, maxlen):
    if m.res(maxlen) is not None:
        raise Unsupported("deque with a bound")
    return AList(list(m.iterate(it)))


def l_rotate(m, o, n=1):
    c = list(m.con(o))
    if c:
        n = m.idx(n) % len(c)
        m.setc(o, c[len(c) - n :] + c[: len(c) - n])


def c_dict(m, *a, **kw):
    d = ADict()
    if a:
        m.dict_update(d, a[0])
    for k, v in kw.items():
        m.dict_set(d, k, v)
    return d


def c_defaultdict(m, f=None, *a, **kw):
    d = c_dict(m, *a, **kw)
    d.default = f
    d.kind = "defaultdict"
    return d


def c_ordered(m, *a, **kw):
    d = c_dict(m, *a, **kw)
    d.kind = "OrderedDict"
    return d


def c_counter(m, *a, **kw):
    d = ADict()
    d.kind = "Counter"
    if a:
        if isinstance(m.res(a[0]), ADict):
            m.dict_update(d, a[0])
        else:
            for k in m.iterate(a[0]):
                v = m.dict_find(d, k)
                m.dict_set(d, k, 1 if v is UNBOUND else m.binop("add", v, 1))
    return d


def c_set(m, it=()):
    s = ASet()
    for x in m.iterate(it):
        m.set_add(s, x)
    return s


def c_frozenset(m, it=()):
    s = ASet({}, True)
    for x in m.iterate(it):
        m.set_add(s, x)
    return s


def c_range(m, a, b=None, s=1):
    if b is None:
        a, b = 0, a
    out = []
    for x in (a, b, s):
        x = m.res(x)
        n = m.num(x)
        if n is None and isinstance(x, AInst):
            n = m.idx(x)
        if n is None or T.sort_of(n) == "f":
            m.throw("TypeError", f"'{m.type_of(x).name}' object cannot be interpreted as an integer")
        n = T.b2i(n)
        out.append(n if not T.is_sym(n) else m.idx(n))
    if out[2] == 0:
        m.throw("ValueError", "range() arg 3 must not be zero")
    return ARange(*out)


def c_type(m, v, bases=None, ns=None):
    if bases is None:
        return m.type_of(m.res(v))
    return m.make_class(v, list(m.iterate(bases)), {k: x for k, x in m.dict_items(ns)}, None, {})


def c_slice(m, *a):
    return slice(*a)


def c_bytesio(m, data=b""):
    s = AStream(m.as_bytes(data), None, "r+b", "BytesIO")
    return s


def c_stringio(m, data=""):
    return AStream(data, None, "r+", "StringIO")


def c_bufw(m, raw, *a):
    raw = m.res(raw)
    if isinstance(raw, AInst) and raw.payload is None:
        return m.call(m.getattr_(m.import_("_dm_io"), "BufferedWriter_"), [raw])
    if not isinstance(raw, (AStream, AInst)):
        m.throw("AttributeError", f"'{m.type_of(raw).name}' object has no attribute 'writable'")
    return raw


def c_memoryview(m, v):
    """a read-only view of immutable bytes is those bytes"""
    v = m.res(v)
    if not is_bytes_(v):
        raise Unsupported("memoryview of a mutable buffer")
    return v


def is_bytes_(v):
    return isinstance(v, (bytes, Rope))


def c_super(m, k=None, o=None):
    return ASuper(k, o)


CTORS = {
    "int": c_int,
    "bool": lambda m, v=False: m.truth(v),
    "float": c_float,
    "str": c_str,
    "bytes": lambda m, *a, **k: m.mkbytes_from(list(a), k),
    "bytearray": lambda m, *a, **k: AByteArray(m.mkbytes_from(list(a), k)),
    "memoryview": c_memoryview,
    "tuple": lambda m, it=(): tuple(m.iterate(it)),
    "list": lambda m, it=(): AList(list(m.iterate(it))),
    "dict": c_dict,
    "defaultdict": c_defaultdict,
    "OrderedDict": c_ordered,
    "Counter": c_counter,
    "deque": lambda m, it=(), maxlen=None: c_deque(m, it, maxlen),
    "set": c_set,
    "frozenset": c_frozenset,
    "range": c_range,
    "slice": c_slice,
    "type": c_type,
    "property": lambda m, fget=None, fset=None, fdel=None, doc=None: AProperty(fget, fset, fdel, doc),
    "staticmethod": lambda m, f: AStatic(f),
    "classmethod": lambda m, f: AClassMethod(f),
    "super": c_super,
    "BytesIO": c_bytesio,
    "StringIO": c_stringio,
    "BufferedWriter": c_bufw,
    "BufferedReader": c_bufw,
    "BufferedRandom": c_bufw,
    "TextIOWrapper": c_bufw,
}


# --------------------------------------------------------------------------- functions
def mkiter(m, v):
    v = m.res(v)
    if isinstance(v, (AIter, ACount)):
        return v
    if isinstance(v, AList):
        return AIter(_LiveList(v))
    if isinstance(v, AInst) and v.payload is None:
        f = m.lookup(v.cls, "__iter__")
        if f is not UNBOUND:
            return m.call(m.bind(f, v, v.cls), [])
    return AIter(m.iterate(v))


def flat_types(m, t):
    t = m.res(t)
    if isinstance(t, tuple):
        out = []
        for x in t:
            out.extend(flat_types(m, x))
        return out
    if t is None:
        return [m.classes["NoneType"]]
    if isinstance(t, TypeGeneric):
        k = m.classes.get("abc." + t.name)
        if k is None:
            raise Unsupported(f"isinstance with typing.{t.name}")
        return [k]
    if isinstance(t, Native):
        raise Unsupported(f"isinstance with {t.name}")
    if not isinstance(t, AClass):
        m.throw("TypeError", "isinstance() arg 2 must be a type or tuple of types")
    return [t]


ABC = {
    "abc.Mapping": ("dict",), "abc.MutableMapping": ("dict",),
    "abc.Sequence": ("list", "tuple", "str", "bytes", "bytearray", "range"),
    "abc.MutableSequence": ("list", "bytearray"),
    "abc.Set": ("set", "frozenset"), "abc.MutableSet": ("set",),
    "abc.Iterable": ("list", "tuple", "str", "bytes", "bytearray", "range", "dict", "set", "frozenset", "generator", "iterator"),
    "abc.Iterator": ("generator", "iterator"),
    "abc.Collection": ("list", "tuple", "str", "bytes", "bytearray", "range", "dict", "set", "frozenset"),
    "abc.Sized": ("list", "tuple", "str", "bytes", "bytearray", "range", "dict", "set", "frozenset"),
    "abc.Callable": ("function", "method", "type"),
    "abc.ByteString": ("bytes", "bytearray"),
    "numbers.Number": ("int", "float"), "numbers.Real": ("int", "float"), "numbers.Integral": ("int",),
    "abc.Hashable": ("int", "str", "float", "bytes", "tuple", "NoneType"),
}
NEED = {"abc.Iterable": "__iter__", "abc.Sized": "__len__", "abc.Callable": "__call__"}


def subclass(m, k, t):
    if t in k.mro:
        return True
    q = t.qual
    if q in ABC:
        if any(m.classes[n] in k.mro for n in ABC[q]):
            return True
        if q in NEED and m.lookup(k, NEED[q]) is not UNBOUND:
            return True
    hook = m.lookup(t.meta, "__instancecheck__") if isinstance(t.meta, AClass) else UNBOUND
    if hook is not UNBOUND:
        raise Unsupported("__instancecheck__")
    return False


def f_isinstance(m, v, t):
    ts = flat_types(m, t)
    if type(v) is Choice:
        d = m.decide(v.cond)
        if d is None:
            return T.bite(v.cond, f_isinstance(m, v.a, t), f_isinstance(m, v.b, t))
        return f_isinstance(m, v.a if d else v.b, t)
    k = m.type_of(v)
    return any(subclass(m, k, x) for x in ts)


def f_issubclass(m, k, t):
    k = m.res(k)
    if not isinstance(k, AClass):
        m.throw("TypeError", "issubclass() arg 1 must be a class")
    return any(subclass(m, k, x) for x in flat_types(m, t))


def f_sorted(m, it, key=None, reverse=False):
    items = m.iterate(it)
    return AList(sort_items(m, items, key, reverse))


def sort_items(m, items, key, reverse):
    keys = [m.call(key, [x]) for x in items] if key is not None else list(items)
    rev = m.want(m.truth(reverse))

    def cmp(i, j):
        a, b = keys[i], keys[j]
        if rev:
            a, b = b, a
        if m.want(m.less(a, b)):
            return -1
        if m.want(m.less(b, a)):
            return 1
        return 0

    # insertion-stable merge through comparisons of the abstract keys
    ix = sorted(range(len(items)), key=functools.cmp_to_key(cmp))
    return [items[i] for i in ix]


def _minmax(m, args, key, default, big):
    items = list(args) if len(args) > 1 else m.iterate(args[0])
    if not items:
        if default is not UNBOUND:
            return default
        m.throw("ValueError", "arg is an empty sequence")
    ks = [m.res(m.call(key, [x]) if key is not None else x) for x in items]
    best, bk = items[0], ks[0]
    for x, k in zip(items[1:], ks[1:]):
        nb, nk = m.num(bk), m.num(k)
        if nb is not None and nk is not None:
            c = T.lt(nb, nk) if big else T.lt(nk, nb)
        else:
            c = m.less(bk, k) if big else m.less(k, bk)
        d = m.decide(c)
        if d is True:
            best, bk = x, k
        elif d is None:
            if x is k and best is bk and T.sort_of(x) is not None and T.sort_of(x) == T.sort_of(best):
                best = bk = T.ite(c, x, best)
            elif m.want(c):
                best, bk = x, k
    return best


def f_min(m, *args, key=None, default=UNBOUND):
    return _minmax(m, args, key, default, False)


def f_max(m, *args, key=None, default=UNBOUND):
    return _minmax(m, args, key, default, True)


def f_sum(m, it, start=0):
    r = start
    for x in m.iterate(it):
        r = m.binop("add", r, x)
    return r


def lazy_bool(m, it, stop):
    """any/all: stops at the first deciding element"""
    it = m.res(it)
    r = not stop
    for x in m.iterate(it):
        t = m.truth(x)
        r = T.bor(r, t) if stop else T.band(r, t)
        if m.decide(r) is stop:
            return stop
    return r


def f_any(m, it):
    return lazy_bool(m, it, True)


def f_all(m, it):
    return lazy_bool(m, it, False)


def zip_items(m, its, strict=False):
    its = [m.res(i) for i in its]
    fin = [i for i in its if not isinstance(i, ACount)]
    if not its:
        return []
    if not fin:
        raise Budget("endless zip", m.site())
    return m.drain(f_zip(m, *its, strict=strict))


def step_next(m, it):
    """next item of what mkiter gave, UNBOUND at the end"""
    it = m.res(it)
    if isinstance(it, (AIter, ACount)):
        return m.iter_next(it)
    return f_next(m, it, UNBOUND, True)


def f_zip(m, *its, strict=False):
    subs = [mkiter(m, i) for i in its]

    def step(pos):
        vals = []
        for k, i in enumerate(subs):
            v = step_next(m, i)
            if v is UNBOUND:
                if strict and (k or any(step_next(m, j) is not UNBOUND for j in subs[1:])):
                    m.throw("ValueError", "zip() arguments have different lengths")
                return UNBOUND
            vals.append(v)
        return tuple(vals) if subs else UNBOUND

    return AIter(None, step=step)


def f_map(m, f, *its):
    if len(its) == 1 and isinstance(m.res(its[0]), ACount):
        src = m.res(its[0])
        return ACount(lambda p: m.call(f, [src.at(p)]))
    z = f_zip(m, *its)

    def step(pos):
        v = m.iter_next(z)
        return v if v is UNBOUND else m.call(f, list(v))

    return AIter(None, step=step)


def f_filter(m, f, it):
    it = mkiter(m, it)

    def step(pos):
        while True:
            x = step_next(m, it)
            if x is UNBOUND or m.want(m.truth(m.call(f, [x]) if f is not None else x)):
                return x

    return AIter(None, step=step)


def f_enumerate(m, it, start=0):
    it = m.res(it)
    if isinstance(it, AList):
        return AIter(_EnumLive(it, start))
    drive = None
    if isinstance(it, AIter) and it.drive is not None and m.con(it) == (None, 0):

        def drive(hook):
            n = AList([start])
            m.setc(it, ((), 0))

            def count(v):
                k = m.con(n)[0]
                m.wcon(n)[0] = m.binop("add", k, 1)
                return hook((k, v))

            return it.drive(count)

    src = mkiter(m, it)

    def step(pos):
        v = step_next(m, src)
        return v if v is UNBOUND else (m.binop("add", start, pos), v)

    return AIter(None, step=step, drive=drive)


class _EnumLive(_LiveList):
    def __init__(self, o, start):
        _LiveList.__init__(self, o)
        self.start = start

    def at(self, m, i):
        return (m.binop("add", self.start, i), m.con(self.o)[i])


def drain_live(m, items):
    return [items.at(m, i) for i in range(items.size(m))]


def f_reversed(m, it):
    it = m.res(it)
    if isinstance(it, AInst):
        f = m.lookup(it.cls, "__reversed__")
        if f is not UNBOUND:
            return m.call(m.bind(f, it, it.cls), [])
        if it.payload is None:
            n = m.idx(m.length(it))
            return AIter([m.getitem(it, i) for i in range(n - 1, -1, -1)])
    l = m.iterate(it)
    l.reverse()
    return AIter(l)


def f_next(m, it, default=UNBOUND, quiet=False):
    it = m.res(it)
    if isinstance(it, (AIter, ACount)):
        v = m.iter_next(it)
        if v is UNBOUND:
            if default is not UNBOUND:
                return default
            m.throw("StopIteration")
        return v
    if isinstance(it, AInst):
        try:
            return m.call(m.getattr_(it, "__next__"), [])
        except Raised as e:
            if (default is not UNBOUND or quiet) and m.classes["StopIteration"] in e.exc.cls.mro:
                return default
            raise
    m.type_error(f"'{m.type_of(it).name}' object is not an iterator", it)


def f_iter(m, v, sentinel=UNBOUND):
    if sentinel is not UNBOUND:
        def step(pos):
            x = m.call(v, [])
            return UNBOUND if m.want(m.eq(x, sentinel)) else x

        return AIter(None, step=step)
    return mkiter(m, v)


def f_abs(m, v):
    v = m.res(v)
    n = m.num(v)
    if n is None:
        return m.call(m.getattr_(v, "__abs__"), [])
    return T.abs_(n)


def f_round(m, v, nd=None):
    n = m.num(v)
    if n is None:
        if isinstance(v, AInst):
            return m.call(m.getattr_(v, "__round__"), [] if nd is None else [nd])
        m.throw("TypeError", f"type {m.type_of(v).name} doesn't define __round__ method")
    if isinstance(n, float) and nd is None and (n != n or n in (float("inf"), float("-inf"))):
        m.throw("OverflowError" if n == n else "ValueError", "cannot convert float to integer")
    return T.round_(n, None if nd is None else m.idx(nd))


def f_divmod(m, a, b):
    return (m.binop("floordiv", a, b), m.binop("mod", a, b))


def f_pow(m, a, b, mod=None):
    r = m.binop("pow", a, b)
    return r if mod is None else m.binop("mod", r, mod)


def f_ord(m, s):
    r = m.as_bytes(s) if is_bytes(s) else srope(s)
    if blen(r) != 1:
        m.throw("TypeError", "ord() expected a character")
    return bget(r, 0)


def f_chr(m, n):
    n = T.b2i(m.num(n))
    if not T.is_sym(n):
        try:
            return chr(n)
        except (ValueError, OverflowError) as e:
            m.throw("ValueError", str(e))
    return mkstr(mkbytes([(n,)]))


def f_getattr(m, o, name, default=UNBOUND):
    try:
        return m.getattr_(o, name, default)
    except Raised as e:
        if default is not UNBOUND and m.classes["AttributeError"] in e.exc.cls.mro:
            return default
        raise


def f_hasattr(m, o, name):
    try:
        m.getattr_(o, name)
        return True
    except Raised as e:
        if m.classes["AttributeError"] in e.exc.cls.mro:
            return False
        raise


def f_callable(m, v):
    if isinstance(v, AInst):
        return m.lookup(v.cls, "__call__") is not UNBOUND
    return isinstance(v, (AFunc, AMethod, Native, AClass))


def f_print(m, *a, sep=" ", end="\n", file=None, flush=False):
    """text goes to the stream as it is; text that cannot be represented becomes an unknown text"""
    out = m.res(file)
    if out is None:
        out = m.res(m.con(m.modules["sys"])["stdout"])
    if out is None:
        return None
    sep, end = (" " if sep is None else sep), ("\n" if end is None else end)
    bits = []
    for i, v in enumerate(a):
        v = m.res(v)
        if not isinstance(v, (JText, Unk)):
            try:
                v = m.str_(v)
            except Unsupported:
                v = Unk("str")
        bits += [sep, v] if i else [v]
    for b in bits + [end]:
        if b == "":
            continue
        if isinstance(out, AStream):
            m.stream_write(out, b)
        else:
            m.call(m.getattr_(out, "write"), [b])
    return None


def f_vars(m, o):
    if type(o) is AModule:
        return m.attr_dict(o)
    return m.getattr_(o, "__dict__")


def f_bin(fmt):
    def f(m, v):
        if T.is_sym(v):
            return Unk("str")
        return fmt(v)

    return f


def f_dir(m, o=None):
    k = o if isinstance(o, AClass) else m.type_of(o)
    names = set()
    for x in k.mro:
        names.update(n for n in x.c if isinstance(n, str))
    if isinstance(o, (AInst, AModule)):
        names.update(m.con(o))
    return AList(sorted(names))


FUNCS = {
    "isinstance": f_isinstance, "issubclass": f_issubclass, "sorted": f_sorted, "min": f_min, "max": f_max,
    "sum": f_sum, "any": f_any, "all": f_all, "zip": f_zip, "map": f_map, "filter": f_filter,
    "enumerate": f_enumerate, "reversed": f_reversed, "next": f_next, "iter": f_iter, "abs": f_abs,
    "round": f_round, "divmod": f_divmod, "pow": f_pow, "ord": f_ord, "chr": f_chr, "getattr": f_getattr,
    "hasattr": f_hasattr, "callable": f_callable, "print": f_print, "vars": f_vars, "dir": f_dir,
    "setattr": lambda m, o, n, v: m.setattr_(o, n, v),
    "delattr": lambda m, o, n: m.delattr_(o, n),
    "len": lambda m, v: m.length(v),
    "hash": lambda m, v: m.hash_(v),
    "id": lambda m, v: v.serial if isinstance(v, Obj) else id(v),
    "repr": lambda m, v: m.repr_(v),
    "str_": lambda m, v: m.str_(v),
    "format": lambda m, v, s="": m.format_(v, s),
    "bin": f_bin(bin), "hex": f_bin(hex), "oct": f_bin(oct), "ascii": lambda m, v: m.repr_(v),
    "open": lambda m, p, mode="r", *a, **k: m.open_(p, mode, *a, **k),
    "exit": lambda m, code=None: m.throw("SystemExit", code),
    "quit": lambda m, code=None: m.throw("SystemExit", code),
}
RAWF = {"isinstance", "setattr"}


# --------------------------------------------------------------------------- methods
def l_append(m, o, v):
    m.wcon(o).append(v)


def l_extend(m, o, it):
    it = m.res(it)
    items = list(m.iterate(it))
    m.wcon(o).extend(items)


def l_insert(m, o, i, v):
    i = m.idx(i)
    m.wcon(o).insert(i, v)


def l_pop(m, o, i=-1):
    c = m.con(o)
    if not c:
        m.throw("IndexError", "pop from empty list")
    i = m.idx(i)
    if not -len(c) <= i < len(c):
        m.throw("IndexError", "pop index out of range")
    return m.wcon(o).pop(i)


def l_remove(m, o, v):
    for i, x in enumerate(m.con(o)):
        if x is v or m.want(m.eq(x, v)):
            m.wcon(o).pop(i)
            return
    m.throw("ValueError", "list.remove(x): x not in list")


def seq_index_of(m, o, v, start=0, stop=None):
    items = m.iterate(o)
    n = len(items)
    for i in range(*slice(m.idx(start), None if stop is None else m.idx(stop)).indices(n)):
        if items[i] is v or m.want(m.eq(items[i], v)):
            return i
    m.throw("ValueError", "value is not in list")


def seq_count(m, o, v):
    r = 0
    for x in m.iterate(o):
        r = T.add(r, T.b2i(m.eq(x, v)))
    return r


def l_sort(m, o, key=None, reverse=False):
    m.setc(o, sort_items(m, list(m.con(o)), key, reverse))


def l_reverse(m, o):
    m.setc(o, list(reversed(m.con(o))))


def l_appendleft(m, o, v):
    m.wcon(o).insert(0, v)


def d_get(m, o, k, default=None):
    v = m.dict_find(o, k)
    return default if v is UNBOUND else v


def d_pop(m, o, k, default=UNBOUND):
    v = m.dict_find(o, k)
    if v is UNBOUND:
        if default is not UNBOUND:
            return default
        m.throw("KeyError", k)
    m.dict_del(o, k)
    return v


def d_setdefault(m, o, k, default=None):
    v = m.dict_find(o, k)
    if v is UNBOUND:
        m.dict_set(o, k, default)
        return default
    return v


def d_update(m, o, *a, **kw):
    if a:
        if o.kind == "Counter":
            for k in m.iterate(a[0]):
                v = m.dict_find(o, k)
                m.dict_set(o, k, 1 if v is UNBOUND else m.binop("add", v, 1))
            return
        m.dict_update(o, a[0])
    for k, v in kw.items():
        m.dict_set(o, k, v)


def d_popitem(m, o, last=True):
    c = m.con(o)
    if not c:
        m.throw("KeyError", "popitem(): dictionary is empty")
    h = (list(c) if last else list(c)[::-1])[-1]
    kv = c[h]
    m.dict_del(o, kv[0])
    return kv


def d_clear(m, o):
    m.setc(o, {})
    if o.owner is not None:
        m.setc(o.owner, {})


class _DView:
    """view objects are materialised when iterated"""


def d_keys(m, o):
    return ASet({h: k for h, (k, _) in m.con(o).items()}, view=True)


def d_values(m, o):
    return AList([v for _, v in m.con(o).values()])


def d_items(m, o):
    return AList([(k, v) for k, v in m.con(o).values()], True)


def d_copy(m, o):
    d = ADict(dict(m.con(o)))
    d.default, d.kind = o.default, o.kind
    return d


def d_move_to_end(m, o, k, last=True):
    h = m.dict_slot(o, k)
    if h is UNBOUND:
        m.throw("KeyError", k)
    c = dict(m.con(o))
    e = c.pop(h)
    m.setc(o, {**c, h: e} if last else {h: e, **c})


def s_discard(m, o, v):
    h = m._scan(m.con(o), v, m.hkey(v), lambda e: e)
    if h is not UNBOUND:
        del m.wcon(o)[h]
        return True
    return False


def s_remove(m, o, v):
    if not s_discard(m, o, v):
        m.throw("KeyError", v)


def s_pop(m, o):
    c = m.con(o)
    if not c:
        m.throw("KeyError", "pop from an empty set")
    v = m.set_order(c)[0]
    h = next(k for k, x in c.items() if x is v)
    del m.wcon(o)[h]
    return v


def s_update(m, o, *its):
    for it in its:
        for x in m.iterate(it):
            m.set_add(o, x)


def s_binop(op):
    def f(m, o, *its):
        r = o
        for it in its:
            r = m.seqop(op, r, it if isinstance(it, ASet) else c_set(m, it))
        return r if r is not o else ASet(dict(m.con(o)), o.frozen)

    return f


def host(name):
    """method of str/bytes on host values only"""

    def f(m, o, *a, **k):
        args = [list_host(m, x) for x in a]
        if not isinstance(o, (str, bytes)) or any(x is UNBOUND for x in args):
            raise Unsupported(f"{name} on abstract text")
        try:
            r = getattr(o, name)(*args, **k)
        except (ValueError, IndexError, KeyError, TypeError) as e:
            m.throw(type(e).__name__ if type(e).__name__ in m.classes else "ValueError", str(e))
        return AList(r) if isinstance(r, list) else r

    return f


def list_host(m, x):
    if isinstance(x, (AList, AIter)):
        x = m.iterate(x)
        return UNBOUND if any(not isinstance(y, (str, bytes, int)) for y in x) else x
    if isinstance(x, (SStr, Rope, Unk)) or T.is_sym(x):
        return UNBOUND
    if isinstance(x, AByteArray):
        return UNBOUND
    if isinstance(x, ADict):
        d = {k: v for k, v in m.con(x).values()}
        return UNBOUND if any(type(y) not in (int, str, bytes, type(None)) for kv in d.items() for y in kv) else d
    return UNBOUND if isinstance(x, Obj) else x


def t_join(m, o, it):
    items = [m.res(x) for x in m.iterate(it)]
    st = is_str(o)
    for x in items:
        if isinstance(x, Unk):
            return Unk("str")
        if st and not is_str(x):
            m.throw("TypeError", "sequence item: expected str instance")
        if not st and not (is_bytes(x) or isinstance(x, AByteArray)):
            m.throw("TypeError", "sequence item: expected a bytes-like object")
    if st:
        if isinstance(o, str) and all(isinstance(x, str) for x in items):
            return o.join(items)
        ro = srope(o)
        parts = []
        for i, x in enumerate(items):
            if i:
                parts.append(ro)
            parts.append(srope(x))
        return mkstr(bcat(*parts)) if parts else ""
    parts = []
    for i, x in enumerate(items):
        if i:
            parts.append(m.as_bytes(o))
        parts.append(m.as_bytes(x))
    r = bcat(*parts) if parts else b""
    return AByteArray(r) if isinstance(o, AByteArray) else r


def rope_of(m, o):
    return srope(o) if is_str(o) else m.as_bytes(o)


def t_startswith(m, o, p, start=0, end=None):
    if isinstance(p, tuple):
        r = False
        for x in p:
            r = T.bor(r, t_startswith(m, o, x, start, end))
        return r
    a, b = rope_of(m, o), rope_of(m, p)
    s = m.idx(start)
    a = bslice(a, s, blen(a) if end is None else m.idx(end))
    if blen(b) > blen(a):
        return False
    return beq(bslice(a, 0, blen(b)), b)


def t_endswith(m, o, p):
    if isinstance(p, tuple):
        r = False
        for x in p:
            r = T.bor(r, t_endswith(m, o, x))
        return r
    a, b = rope_of(m, o), rope_of(m, p)
    if blen(b) > blen(a):
        return False
    return beq(bslice(a, blen(a) - blen(b), blen(a)), b)


def t_find(m, o, p, start=0, end=None, exc=False):
    if isinstance(o, (str, bytes)) and isinstance(p, (str, bytes, int)):
        try:
            r = o.find(p, m.idx(start), len(o) if end is None else m.idx(end))
        except TypeError as e:
            m.throw("TypeError", str(e))
        if r < 0 and exc:
            m.throw("ValueError", "substring not found")
        return r
    if isinstance(o, str) and isinstance(p, SStr) and blen(p.rope) == 1:
        # position of an abstract character in a constant alphabet
        x = bget(p.rope, 0)
        r = -1
        seen = set()
        hit = False
        for i in range(len(o) - 1, -1, -1):
            r = T.ite(T.eq(x, ord(o[i])), i, r)
        for ch in o:
            if ch not in seen:
                seen.add(ch)
                hit = T.bor(hit, T.eq(x, ord(ch)))
        if exc and not m.want(hit):
            m.throw("ValueError", "substring not found")
        if exc:
            r = 0
            for i in range(len(o) - 1, -1, -1):
                r = T.ite(T.eq(x, ord(o[i])), i, r)
        return r
    a = rope_of(m, o)
    b = mkbytes([(p,)]) if m.num(p) is not None else rope_of(m, p)
    if blen(a) > 400:
        raise Unsupported("search in a long abstract string")
    for i in range(m.idx(start), blen(a) - blen(b) + 1):
        if m.want(beq(bslice(a, i, i + blen(b)), b)):
            return i
    if exc:
        m.throw("ValueError", "substring not found")
    return -1


def t_index(m, o, p, start=0, end=None):
    return t_find(m, o, p, start, end, True)


def t_strip(side):
    def f(m, o, chars=None):
        if isinstance(o, (str, bytes)) and (chars is None or isinstance(chars, (str, bytes))):
            return {"l": o.lstrip, "r": o.rstrip, "b": o.strip}[side](chars)
        a = rope_of(m, o)
        n = blen(a)
        cs = bitems(rope_of(m, chars)) if chars is not None else [9, 10, 11, 12, 13, 32]
        i, j = 0, n

        def hit(k):
            x = bget(a, k)
            r = False
            for q in cs:
                r = T.bor(r, T.eq(x, q))
            return m.want(r)

        if side in "lb":
            while i < n and hit(i):
                i += 1
        if side in "rb":
            while j > i and hit(j - 1):
                j -= 1
        r = bslice(a, i, j)
        return mkstr(r) if is_str(o) else r

    return f


def t_pad(name):
    def f(m, o, n, fill=None):
        n = m.idx(n)
        a = rope_of(m, o)
        k = max(0, n - blen(a))
        fl = rope_of(m, fill) if fill is not None else (b"0" if name == "zfill" else b" ")
        if isinstance(o, (str, bytes)) and name in ("center", "zfill"):
            return getattr(o, name)(n) if fill is None else getattr(o, name)(n, fill)
        pad = bcat(*[fl] * k) if k else b""
        r = bcat(a, pad) if name == "ljust" else bcat(pad, a)
        return mkstr(r) if is_str(o) else r

    return f


def t_isx(name):
    def f(m, o):
        if isinstance(o, (str, bytes)):
            return getattr(o, name)()
        raise Unsupported(name)

    return f


def t_format(m, o, *a, **k):
    if isinstance(o, str) and all(isinstance(x, (int, float, str)) for x in list(a) + list(k.values())):
        try:
            return o.format(*a, **k)
        except (IndexError, KeyError, ValueError) as e:
            m.throw(type(e).__name__, str(e))
    return Unk("str")


def t_replace(m, o, a, b, n=-1):
    if isinstance(o, (str, bytes)) and isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        return o.replace(a, b, n)
    raise Unsupported("replace on abstract text")


def t_partition(m, o, sep):
    if isinstance(o, (str, bytes)) and isinstance(sep, (str, bytes)):
        return o.partition(sep)
    i = t_find(m, o, sep)
    a = rope_of(m, o)
    mk = mkstr if is_str(o) else (lambda r: r)
    if i < 0:
        return (o, mk(b""), mk(b""))
    k = blen(rope_of(m, sep))
    return (mk(bslice(a, 0, i)), sep, mk(bslice(a, i + k, blen(a))))


TEXT = {
    "join": t_join, "startswith": t_startswith, "endswith": t_endswith, "find": t_find, "index": t_index,
    "strip": t_strip("b"), "lstrip": t_strip("l"), "rstrip": t_strip("r"), "ljust": t_pad("ljust"),
    "rjust": t_pad("rjust"), "center": t_pad("center"), "zfill": t_pad("zfill"), "replace": t_replace,
    "partition": t_partition, "count": lambda m, o, x: seq_count(m, o, x) if not isinstance(o, (str, bytes)) else o.count(x),
}
for _n in ("split", "rsplit", "splitlines", "lower", "upper", "title", "capitalize", "swapcase", "rfind", "rindex", "removeprefix", "removesuffix", "rpartition", "hex", "translate", "casefold", "expandtabs"):
    TEXT[_n] = host(_n)
for _n in ("isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isnumeric", "isdecimal", "isascii", "isidentifier", "isprintable"):
    TEXT[_n] = t_isx(_n)


def i_bit_length(m, o):
    v = T.b2i(m.num(o))
    if not T.is_sym(v):
        return int(v).bit_length()
    lo, hi = T.lo_hi(v)
    if lo < 0:
        v = T.abs_(v)
        hi = max(-lo, hi)
    r = 0
    for k in range(int(hi).bit_length()):
        r = T.ite(T.le(1 << k, v), k + 1, r)
    return r


def i_bit_count(m, o):
    v = T.b2i(m.num(o))
    r = 0
    for x in T.to_bits(T.abs_(v))[0]:
        r = T.add(r, T.b2i(x))
    return r


def f_is_integer(m, o):
    n = m.num(o)
    if not T.is_sym(n):
        return float(n).is_integer()
    return T.eq(n, T.floor_(n))


def st_seek(m, o, off, whence=0):
    data, pos = m.sdata(o)
    off = m.idx(off)
    w = m.idx(whence)
    n = len(data) if isinstance(data, str) else blen(data) if not isinstance(data, JText) else 0
    p = off if w == 0 else pos + off if w == 1 else n + off
    if p < 0:
        m.throw("ValueError", f"negative seek value {p}")
    m.setc(o, (m.con(o)[0], p, False))
    return p


def st_tell(m, o):
    return m.sdata(o)[1]


def st_close(m, o):
    d, p, _ = m.con(o)
    m.setc(o, (d, p, True))


def st_getvalue(m, o):
    return m.sdata(o)[0]


def st_truncate(m, o, size=None):
    data, pos = m.sdata(o)
    n = pos if size is None else m.idx(size)
    m.sput(o, bslice(data, 0, n) if not isinstance(data, str) else data[:n], pos)
    return n


def st_readinto(m, o, buf):
    n = m.idx(m.length(buf))
    d = m.stream_read(o, n)
    k = blen(d)
    m.setc(buf, bcat(d, bslice(m.con(buf), k, n)))
    return k


def st_writelines(m, o, it):
    for x in m.iterate(it):
        m.stream_write(o, x)


def st_peek(m, o, n=0):
    data, pos = m.sdata(o)
    return bslice(data, pos, blen(data))


def z_decompress(m, o, data, max_length=0):
    from .models import zlib_feed

    return zlib_feed(m, o, data)


METHODS = {
    "list": {
        "append": l_append, "extend": l_extend, "insert": l_insert, "pop": l_pop, "remove": l_remove,
        "index": seq_index_of, "count": seq_count, "sort": l_sort, "reverse": l_reverse,
        "clear": lambda m, o: m.setc(o, []), "copy": lambda m, o: AList(list(m.con(o))),
        "rotate": l_rotate, "appendleft": l_appendleft, "popleft": lambda m, o: l_pop(m, o, 0),
    },
    "tuple": {"index": seq_index_of, "count": seq_count},
    "range": {"index": seq_index_of, "count": seq_count},
    "dict": {
        "get": d_get, "pop": d_pop, "setdefault": d_setdefault, "update": d_update, "popitem": d_popitem,
        "keys": d_keys, "values": d_values, "items": d_items, "copy": d_copy, "clear": d_clear,
        "move_to_end": d_move_to_end,
        "most_common": lambda m, o, n=None: AList(sort_items(m, list(m.con(o).values()), Native("k", lambda m, kv: kv[1]), True)[:n]),
    },
    "set": {
        "add": lambda m, o, v: m.set_add(o, v), "discard": lambda m, o, v: (s_discard(m, o, v), None)[1], "remove": s_remove,
        "pop": s_pop, "update": s_update, "union": s_binop("or"), "intersection": s_binop("and"),
        "difference": s_binop("sub"), "symmetric_difference": s_binop("xor"),
        "issubset": lambda m, o, x: m.order(ast.LtE, o, x if isinstance(x, ASet) else c_set(m, x)),
        "issuperset": lambda m, o, x: m.order(ast.GtE, o, x if isinstance(x, ASet) else c_set(m, x)),
        "isdisjoint": lambda m, o, x: not m.con(m.seqop("and", o, x if isinstance(x, ASet) else c_set(m, x))),
        "copy": lambda m, o: ASet(dict(m.con(o)), o.frozen), "clear": lambda m, o: m.setc(o, {}),
        "difference_update": lambda m, o, *its: [s_discard(m, o, x) for it in its for x in m.iterate(it)] and None,
        "intersection_update": lambda m, o, it: m.setc(o, m.con(m.seqop("and", o, it))),
    },
    "str": dict(TEXT, encode=lambda m, o, encoding="utf-8", errors="strict": m.encode(o, encoding, errors), format=t_format),
    "bytes": dict(TEXT, tobytes=lambda m, o: o, release=lambda m, o: None, decode=lambda m, o, encoding="utf-8", errors="strict": m.decode(o, encoding, errors)),
    "bytearray": {
        "append": lambda m, o, v: m.setc(o, mkbytes(list(bsegs(m.con(o))) + [(m.byteval(v),)])),
        "extend": lambda m, o, v: m.setc(o, bcat(m.con(o), m.mkbytes_from([v], {}))),
        "decode": lambda m, o, encoding="utf-8", errors="strict": m.decode(m.con(o), encoding, errors),
        "clear": lambda m, o: m.setc(o, b""),
        "copy": lambda m, o: AByteArray(m.con(o)),
        "join": t_join, "find": lambda m, o, p, s=0: t_find(m, m.con(o), p, s),
        "startswith": lambda m, o, p: t_startswith(m, m.con(o), p),
        "endswith": lambda m, o, p: t_endswith(m, m.con(o), p),
        "insert": lambda m, o, i, v: m.setc(o, mkbytes(list(bsegs(bslice(m.con(o), 0, m.idx(i)))) + [(m.byteval(v),)] + list(bsegs(bslice(m.con(o), m.idx(i), blen(m.con(o))))))),
        "pop": lambda m, o, i=-1: ba_pop(m, o, i),
        "reverse": lambda m, o: m.setc(o, mkbytes([tuple(reversed(bitems(m.con(o))))])),
    },
    "int": {
        "bit_length": i_bit_length, "bit_count": i_bit_count,
        "to_bytes": lambda m, o, length=1, byteorder="big", signed=False: m.to_bytes(o, length, byteorder, signed),
        "is_integer": lambda m, o: True, "conjugate": lambda m, o: o, "as_integer_ratio": lambda m, o: (o, 1),
        "__index__": lambda m, o: T.b2i(m.num(o)), "__int__": lambda m, o: T.b2i(m.num(o)),
    },
    "float": {
        "is_integer": f_is_integer,
        "as_integer_ratio": lambda m, o: o.as_integer_ratio() if isinstance(o, float) else T.as_fix(o) and _ratio(o),
        "hex": lambda m, o: o.hex() if isinstance(o, float) else Unk("str"),
    },
    "stream": {
        "read": lambda m, o, size=-1: m.stream_read(o, size), "read1": lambda m, o, size=-1: m.stream_read(o, size),
        "write": lambda m, o, b: m.stream_write(o, b), "seek": st_seek, "tell": st_tell, "close": st_close,
        "flush": lambda m, o: m.sdata(o) and None, "getvalue": st_getvalue, "getbuffer": st_getvalue,
        "readable": lambda m, o: "r" in o.mode or "+" in o.mode, "writable": lambda m, o: o.mode[0] in "wax" or "+" in o.mode,
        "seekable": lambda m, o: True, "truncate": st_truncate, "readinto": st_readinto, "writelines": st_writelines,
        "__enter__": lambda m, o: (m.sdata(o), o)[1], "__exit__": lambda m, o, *a: st_close(m, o), "peek": st_peek,
        "readlines": lambda m, o: AList(m.stream_lines(o)), "fileno": lambda m, o: 3, "isatty": lambda m, o: False,
        "detach": lambda m, o: o,
    },
    "iter": {
        "__next__": lambda m, o: f_next(m, o), "__iter__": lambda m, o: o, "close": lambda m, o: m.setc(o, ([], 0)),
    },
    "decomp": {"decompress": z_decompress, "flush": lambda m, o, *a: b"", "copy": lambda m, o: _copyd(m, o)},
}
METHODS["bool"] = METHODS["int"]


def _ratio(o):
    raise Unsupported("as_integer_ratio")


def _copyd(m, o):
    return ADecomp(m.con(o))


def ba_pop(m, o, i):
    b = m.con(o)
    n = blen(b)
    if n == 0:
        m.throw("IndexError", "pop from empty bytearray")
    i = m.idx(i) % n
    v = bget(b, i)
    m.setc(o, bcat(bslice(b, 0, i), bslice(b, i + 1, n)))
    return v
