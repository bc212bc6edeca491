"""Models of standard library modules."""

from __future__ import annotations

import ast
import json as _json
import math as _math
import os as _os
import zlib as _zl

from . import terms as T
from .values import *  # noqa: F401,F403
from .interp import Budget, Raised, Unsupported, _Auto, _Live
from .lib import ACount, ADecomp, JText, is_bytes, is_str
from .builtins_ import c_set, f_isinstance, mkiter, sort_items, zip_items


class _AnyNs(dict):
    """namespace of typing: every name is an inert construct"""

    def get(self, k, d=None):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        if k.startswith("__"):
            return d
        return TypeGeneric(k)


class DCField:
    __slots__ = ("default", "factory", "init", "compare", "kw_only", "hash")

    def __init__(self):
        self.default = UNBOUND
        self.factory = None
        self.init = self.compare = True
        self.hash = None
        self.kw_only = False


def install(m):
    m.pymodels = dict(PY)
    m.no_module = {"PIL", "numpy", "pytest", "PIL.Image"}
    c = m.classes

    def mod(name, ns):
        mo = AModule(name, f"<model {name}>", dict(ns))
        m.modules[name] = mo
        return mo

    def nat(d, raw=()):
        return {k: Native(k, f, k in raw) if callable(f) and not isinstance(f, (AClass, Native)) else f for k, f in d.items()}

    mod("io", {k: c[k] for k in ("BytesIO", "StringIO", "IOBase", "RawIOBase", "BufferedIOBase", "TextIOBase", "BufferedWriter", "BufferedReader", "BufferedRandom", "TextIOWrapper", "FileIO", "UnsupportedOperation")} | {"SEEK_SET": 0, "SEEK_CUR": 1, "SEEK_END": 2, "DEFAULT_BUFFER_SIZE": 8192, "open": m.builtins["open"], "BinaryIO": c["IOBase"]})
    # zlib
    zerr = AClass("error", [c["Exception"]], {})
    zerr.isexc = True
    c["zlib.error"] = zerr
    mod("zlib", nat({"compress": zlib_compress, "decompress": zlib_decompress, "decompressobj": lambda m, *a, **k: ADecomp((b"", False, b"")), "compressobj": _zcobj, "error": zerr, "crc32": _checksum("crc32"), "adler32": _checksum("adler32")}) | {"DEFLATED": 8, "MAX_WBITS": 15, "Z_BEST_COMPRESSION": 9, "Z_BEST_SPEED": 1, "Z_DEFAULT_COMPRESSION": -1, "DEF_BUF_SIZE": 16384})
    mod("copy", nat({"copy": copy_, "deepcopy": lambda m, v, memo=None: deepcopy(m, v, {}), "replace": dc_replace}))
    mod("math", MATH | nat(MATHF))
    mod("operator", nat(OPER))
    mod("struct", nat({"pack": st_pack, "unpack": st_unpack, "calcsize": lambda m, f: sum(n * w for _, n, w in st_fmt(m, f)[1]), "unpack_from": st_unpack_from, "error": c["ValueError"]}))
    # abc
    meta = AClass("ABCMeta", [c["type"]], {})
    ab = AClass("ABC", [c["object"]], {})
    ab.meta = meta
    mod("abc", {"ABCMeta": meta, "ABC": ab} | nat({"abstractmethod": abstract, "abstractproperty": lambda m, f: AProperty(abstract(m, f))}))
    m.modules["abc"].c["abstractclassmethod"] = Native("abstractclassmethod", lambda m, f: AClassMethod(abstract(m, f)))
    c["Protocol"] = AClass("Protocol", [c["object"]], {})
    # typing
    ns = _AnyNs({"TYPE_CHECKING": False, "NamedTuple": AClass("NamedTuple", [c["tuple"]], {})})
    c["NamedTuple"] = ns["NamedTuple"]
    c["NamedTuple"].native = True
    tm = AModule("typing", "<model typing>", {})
    tm.c = ns
    m.modules["typing"] = tm
    m.modules["typing_extensions"] = tm
    mod("__future__", {"annotations": None})
    # enum
    def enumcls(name, kind, bases):
        k = AClass(name, [c[x] for x in bases], {})
        k.enum = kind
        c["enum." + name] = k
        return k

    en = enumcls("Enum", "plain", ("object",))
    mod("enum", {"Enum": en, "IntEnum": enumcls("IntEnum", "int", ("int", "enum.Enum")), "Flag": enumcls("Flag", "pflag", ("enum.Enum",)), "IntFlag": enumcls("IntFlag", "flag", ("int", "enum.Enum")), "StrEnum": enumcls("StrEnum", "str", ("str", "enum.Enum")), "EnumMeta": c["type"], "EnumType": c["type"]} | nat({"auto": lambda m: _Auto(), "unique": lambda m, k: k, "member": lambda m, v: v, "nonmember": lambda m, v: v}))
    # dataclasses
    mod("dataclasses", nat({"dataclass": dataclass, "field": dc_field, "fields": dc_fields, "asdict": dc_asdict, "astuple": dc_astuple, "replace": dc_replace, "is_dataclass": lambda m, o: dcf(o if isinstance(o, AClass) else m.type_of(o)) is not None}, ("field",)) | {"MISSING": DCMISSING, "FrozenInstanceError": c["AttributeError"], "InitVar": TypeGeneric("InitVar"), "KW_ONLY": TypeGeneric("KW_ONLY"), "Field": TypeGeneric("Field")})
    # collections
    colls = {"OrderedDict": c["OrderedDict"], "defaultdict": c["defaultdict"], "Counter": c["Counter"], "deque": c["deque"]} | nat({"namedtuple": namedtuple})
    mod("collections", colls)
    # functools / itertools
    mod("functools", nat({"lru_cache": lru_cache, "cache": lambda m, f: mkcache(m, f), "wraps": lambda m, f, *a, **k: Native("wraps", lambda m, g: fn_wraps(m, g, f)), "reduce": reduce_, "total_ordering": total_ordering, "update_wrapper": lambda m, w, f, *a, **k: fn_wraps(m, w, f), "cmp_to_key": None}))
    fp = m.exec_module("_functools_py", "<model functools>", ast.parse(PYF))
    m.modules["functools"].c.update({k: v for k, v in fp.c.items() if not k.startswith("_")})
    mod("itertools", nat(ITER))
    m.builtins_chain = m.modules["itertools"].c["chain"]
    m.extra["chain_from_iterable"] = Native("from_iterable", lambda m, its: AIter(None, lambda: [x for it in m.iterate(its) for x in m.iterate(it)]))
    # collections.abc
    am = m.exec_module("collections.abc", "<model collections.abc>", ast.parse(PYABC))
    for k, v in am.c.items():
        if isinstance(v, AClass):
            v.qual = "abc." + k
            c["abc." + k] = v
            if k != "ABC":
                v.meta = meta
    num = {}
    for k in ("Number", "Real", "Integral"):
        x = AClass(k, [c["object"]], {})
        x.qual = "numbers." + k
        num[k] = x
    mod("numbers", num)
    m.modules["collections"].c["abc"] = am
    # json
    je = AClass("JSONDecodeError", [c["ValueError"]], {})
    je.isexc = True
    c["JSONDecodeError"] = je
    mod("json", nat({"dump": json_dump, "dumps": json_dumps, "load": json_load, "loads": json_loads}) | {"JSONDecodeError": je})
    # sys / os
    out = AStream("", None, "w", "TextIOWrapper")
    err = AStream("", None, "w", "TextIOWrapper")
    inp = AStream("", None, "r", "TextIOWrapper")
    m.stdout = out
    mod("sys", {"stdout": out, "stderr": err, "stdin": inp, "argv": AList(["prog"]), "maxsize": 2**63 - 1, "version_info": (3, 12, 3), "byteorder": "little", "platform": "linux", "modules": ADict()} | nat({"exit": lambda m, code=None: m.throw("SystemExit", code), "intern": lambda m, s: s, "getsizeof": lambda m, o: 64, "exc_info": lambda m: (None, None, None)}))
    osp = nat({
        "exists": lambda m, p: p in m.con(m.fs), "isfile": lambda m, p: p in m.con(m.fs), "isdir": lambda m, p: False,
        "join": lambda m, *a: _os.path.join(*a), "basename": lambda m, p: _os.path.basename(p),
        "dirname": lambda m, p: _os.path.dirname(p), "abspath": lambda m, p: p if p.startswith("/") else "/cwd/" + p,
        "splitext": lambda m, p: _os.path.splitext(p), "split": lambda m, p: _os.path.split(p),
        "realpath": lambda m, p: p, "normpath": lambda m, p: _os.path.normpath(p), "expanduser": lambda m, p: p,
        "getsize": fs_size, "lexists": lambda m, p: p in m.con(m.fs), "samefile": lambda m, a, b: a == b,
        "isabs": lambda m, p: p.startswith("/"), "islink": lambda m, p: False,
    })
    om = mod("os.path", {k: Native(k, _paths(v.fn)) for k, v in osp.items()})
    mod("os", nat({
        "replace": _paths(fs_replace), "rename": _paths(fs_replace), "remove": _paths(fs_remove), "unlink": _paths(fs_remove), "fsync": lambda m, fd: None,
        "getcwd": lambda m: "/cwd", "makedirs": lambda m, *a, **k: None, "mkdir": lambda m, *a, **k: None,
        "fspath": _paths(lambda m, p: p), "fdopen": lambda m, fd, mode="r", *a, **k: m.open_(m.extra["fds"][fd], mode), "close": lambda m, fd: None, "getpid": lambda m: 4242, "chmod": lambda m, *a: None,
    }) | {"path": om, "sep": "/", "linesep": "\n", "environ": ADict(), "SEEK_SET": 0, "SEEK_CUR": 1, "SEEK_END": 2, "PathLike": TypeGeneric("PathLike"), "error": c["OSError"]})
    mod("shutil", nat({"move": _paths(fs_replace), "copy": _paths(fs_copy), "copyfile": _paths(fs_copy), "copy2": _paths(fs_copy), "copymode": lambda m, *a: None, "copystat": lambda m, *a: None, "copyfileobj": lambda m, a, b, *x: m.stream_write(b, m.stream_read(a, -1)) and None}))
    mod("tempfile", nat({"NamedTemporaryFile": tmp_named, "mkstemp": tmp_mk, "TemporaryFile": lambda m, mode="w+b", *a, **k: AStream(b"", None, "r+b", "BytesIO"), "gettempdir": lambda m: "/tmp"}))
    mod("argparse", {"ArgumentParser": TypeGeneric("ArgumentParser")})
    ap = m.exec_module("argparse", "<model argparse>", ast.parse(PYARG))
    mod("warnings", nat({n: lambda m, *a, **k: None for n in ("warn", "simplefilter", "filterwarnings", "resetwarnings")}))
    m.exec_module("_dm_disp", "<model functools>", ast.parse(PYDISP))
    m.modules["_dm_disp"].c["_annotation"] = Native("_annotation", annotation_of)
    for n in ("singledispatch", "singledispatchmethod"):
        m.modules["functools"].c[n] = m.modules["_dm_disp"].c[n]
    m.exec_module("threading", "<model threading>", ast.parse(PYLOCK))
    m.exec_module("_dm_struct", "<model struct>", ast.parse(PYSTRUCT))
    for n in ("Struct", "iter_unpack"):
        m.modules["struct"].c[n] = m.modules["_dm_struct"].c[n]
    m.exec_module("_dm_coll", "<model collections>", ast.parse(PYCOLL))
    for n in ("UserDict", "UserList", "ChainMap"):
        m.modules["collections"].c[n] = m.modules["_dm_coll"].c[n]
    mod("types", {"SimpleNamespace": ap.c["Namespace"], "TracebackType": TypeGeneric("TracebackType"), "FunctionType": c["function"], "MappingProxyType": c["dict"], "NoneType": c["NoneType"], "GeneratorType": c["generator"], "ModuleType": c["module"]})
    mod("string", {k: v for k, v in {"ascii_letters": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "digits": "0123456789", "ascii_lowercase": "abcdefghijklmnopqrstuvwxyz", "ascii_uppercase": "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "hexdigits": "0123456789abcdefABCDEF"}.items()})
    mod("time", nat({"time": lambda m: 1000.0, "monotonic": lambda m: 1000.0, "perf_counter": lambda m: 1000.0, "sleep": lambda m, s: None}))
    mod("array", {})
    mod("weakref", nat({"ref": lambda m, o, *a: Native("ref", lambda m: o)}))
    gcm = AClass("_GeneratorContextManager", (c["object"],), {}, None)
    c["_GeneratorContextManager"] = gcm

    def contextmanager(m, f):
        def make(m, *a, **k):
            g = m.res(m.call(f, list(a), k))
            if not isinstance(g, AIter):
                raise Unsupported("context manager of this form")
            return AInst(gcm, g)

        return Native("contextmanager", make)

    mod("contextlib", {})
    ctx = m.exec_module("contextlib", "<model contextlib>", ast.parse(PYCTX))
    ctx.c["contextmanager"] = Native("contextmanager", contextmanager)


# --------------------------------------------------------------------------- zlib
def _checksum(name):
    def f(m, d, v=0):
        d = m.as_bytes(d)
        if isinstance(d, bytes) and type(v) is int:
            return getattr(_zl, name)(d, v)
        raise Unsupported(name + " of abstract data")

    return f


def zlib_compress(m, data, level=-1, wbits=15, **kw):
    data = m.as_bytes(data)
    k = bkey(data)
    lab = m.zlabels.get(k)
    if lab is None:
        lab = f"deflate#{len(m.zlabels)}"
        m.zlabels[k] = lab
        m.zlib[lab] = (data, 17 + 2 * len(m.zlabels))
    return mkbytes([OSeg(lab, 0, m.zlib[lab][1])])


class _CObj(Obj):
    __slots__ = ()


def _zcobj(m, *a, **k):
    buf = AByteArray(b"")
    o = AInst(_opaque_class(m, "object~"))
    o.c["compress"] = Native("compress", lambda m, d: (m.setc(buf, bcat(m.con(buf), m.as_bytes(d))), b"")[1])
    o.c["flush"] = Native("flush", lambda m, *a: zlib_compress(m, m.con(buf)))
    return o


def _zstart(m, data):
    """(payload, consumed) when data starts with a complete compressed stream; None if possibly incomplete"""
    segs = bsegs(data)
    if not segs:
        return None
    s = segs[0]
    if type(s) is OSeg and s.label in m.zlib and s.off == 0:
        payload, n = m.zlib[s.label]
        if s.n >= n:
            return payload, n
        if s.n == blen(data):
            return None
    m.throw(m.classes["zlib.error"], "Error -3 while decompressing data: incorrect header check")


def zlib_decompress(m, data, wbits=15, bufsize=0):
    data = m.as_bytes(data)
    r = _zstart(m, data)
    if r is None:
        m.throw(m.classes["zlib.error"], "Error -5 while decompressing data: incomplete or truncated stream")
    return r[0]


def zlib_feed(m, o, data):
    buf, eof, unused = m.con(o)
    data = m.as_bytes(data)
    if eof:
        m.setc(o, (buf, True, bcat(unused, data)))
        return b""
    buf = bcat(buf, data)
    r = _zstart(m, buf)
    if r is None:
        m.setc(o, (buf, False, b""))
        return b""
    m.setc(o, (buf, True, bslice(buf, r[1], blen(buf))))
    return r[0]


# --------------------------------------------------------------------------- copy
def copy_(m, v):
    v = m.res(v)
    if isinstance(v, AInst):
        f = m.lookup(v.cls, "__copy__")
        if f is not UNBOUND:
            return m.call(m.bind(f, v, v.cls), [])
        o = AInst(v.cls, copy_(m, v.payload) if v.payload is not None else None)
        o.c = dict(m.con(v))
        return o
    if isinstance(v, AList):
        return AList(list(m.con(v)))
    if isinstance(v, ADict):
        d = ADict(dict(m.con(v)))
        d.default, d.kind = v.default, v.kind
        return d
    if isinstance(v, ASet):
        return ASet(dict(m.con(v)), v.frozen)
    if isinstance(v, AByteArray):
        return AByteArray(m.con(v))
    if isinstance(v, (AStream, AIter)):
        raise Unsupported("copy of stream")
    return v


def deepcopy(m, v, memo):
    v = m.res(v)
    if isinstance(v, tuple):
        return tuple(deepcopy(m, x, memo) for x in v)
    if not isinstance(v, Obj) or isinstance(v, (AClass, AModule)):
        return v
    r = memo.get(v)
    if r is not None:
        return r
    if isinstance(v, AInst):
        f = m.lookup(v.cls, "__deepcopy__")
        if f is not UNBOUND:
            r = m.call(m.bind(f, v, v.cls), [ADict()])
            memo[v] = r
            return r
        r = AInst(v.cls)
        memo[v] = r
        if v.payload is not None:
            r.payload = deepcopy(m, v.payload, memo)
        r.c = {k: deepcopy(m, x, memo) for k, x in m.con(v).items()}
        return r
    if isinstance(v, AList):
        r = AList([])
        memo[v] = r
        r.c = [deepcopy(m, x, memo) for x in m.con(v)]
        return r
    if isinstance(v, ADict):
        r = ADict({})
        r.default, r.kind = v.default, v.kind
        memo[v] = r
        for k, x in list(m.con(v).values()):
            m.dict_set(r, deepcopy(m, k, memo), deepcopy(m, x, memo))
        return r
    if isinstance(v, ASet):
        r = ASet({}, v.frozen)
        for x in list(m.con(v).values()):
            r2 = deepcopy(m, x, memo)
            m.set_add(r, r2)
        memo[v] = r
        return r
    if isinstance(v, AByteArray):
        return AByteArray(m.con(v))
    if isinstance(v, (AStream, AIter)):
        m.throw("TypeError", "cannot pickle stream")
    raise Unsupported("deepcopy")


# --------------------------------------------------------------------------- math
MATH = {"pi": _math.pi, "e": _math.e, "inf": _math.inf, "nan": _math.nan, "tau": _math.tau}


def _n(m, v):
    v = m.res(v)
    n = m.num(v)
    if n is None:
        if isinstance(v, AInst):
            f = m.lookup(v.cls, "__float__")
            if f is not UNBOUND:
                return m.call(m.bind(f, v, v.cls), [])
        m.throw("TypeError", f"must be real number, not {m.type_of(v).name}")
    return T.b2i(n)


def _mf(name, lo=-T.INF, hi=T.INF, fold=None):
    def f(m, *a):
        a = [_n(m, x) for x in a]
        if not any(T.is_sym(x) for x in a):
            try:
                return getattr(_math, name)(*a)
            except (ValueError, OverflowError) as e:
                m.throw(type(e).__name__, str(e))
            except TypeError as e:
                m.throw("TypeError", str(e))
        if fold is not None:
            r = fold(m, *a)
            if r is not None:
                return r
        a = [T.tofloat(x) for x in a]
        return T.func(name, a, lo, hi)

    return f


def _fl(name, op):
    def f(m, v):
        v = m.res(v)
        if isinstance(v, AInst) and v.payload is None:
            g = m.lookup(v.cls, f"__{name}__")
            if g is not UNBOUND:
                return m.call(m.bind(g, v, v.cls), [])
        n = _n(m, v)
        if isinstance(n, float) and (n != n or n in (_math.inf, -_math.inf)):
            m.throw("OverflowError" if n == n else "ValueError", "cannot convert float to integer")
        return op(n)

    return f


def _isclose(m, a, b, rel_tol=1e-09, abs_tol=0.0):
    a, b = _n(m, a), _n(m, b)
    if not T.is_sym(a) and not T.is_sym(b):
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = T.abs_(T.sub(a, b))
    if not T.is_sym(d) and d == 0:
        return True
    la, lb = T.abs_(a), T.abs_(b)
    mx = T.ite(T.lt(la, lb), lb, la)
    return T.bor(T.le(d, T.mul(mx, rel_tol)), T.le(d, abs_tol))


def _modf(m, v):
    n = _n(m, v)
    if not T.is_sym(n):
        return _math.modf(n)
    i = T.trunc_(n)
    return (T.sub(n, i), T.tofloat(i))


def _gcd(m, *a):
    return _math.gcd(*[m.idx(x) for x in a])


def _prod(m, it, start=1):
    r = start
    for x in m.iterate(it):
        r = m.binop("mul", r, x)
    return r


MATHF = {
    "floor": _fl("floor", T.floor_), "ceil": _fl("ceil", T.ceil_), "trunc": _fl("trunc", T.trunc_),
    "sqrt": _mf("sqrt", 0), "log": _mf("log"), "log2": _mf("log2"), "log10": _mf("log10"), "exp": _mf("exp", 0),
    "sin": _mf("sin", -1, 1), "cos": _mf("cos", -1, 1), "tan": _mf("tan"), "atan": _mf("atan", -2, 2),
    "asin": _mf("asin", -2, 2), "acos": _mf("acos", 0, 4), "atan2": _mf("atan2", -4, 4),
    "degrees": _mf("degrees"), "radians": _mf("radians"), "hypot": _mf("hypot", 0), "fmod": _mf("fmod"),
    "copysign": _mf("copysign"), "fabs": lambda m, v: T.tofloat(T.abs_(_n(m, v))), "isclose": _isclose,
    "isnan": lambda m, v: (lambda n: n != n if isinstance(n, float) else False)(_n(m, v)),
    "isinf": lambda m, v: (lambda n: _math.isinf(n) if isinstance(n, float) else False)(_n(m, v)),
    "isfinite": lambda m, v: (lambda n: _math.isfinite(n) if not T.is_sym(n) else True)(_n(m, v)),
    "gcd": _gcd, "prod": _prod, "modf": _modf, "pow": lambda m, a, b: T.tofloat(m.binop("pow", a, b)),
    "isqrt": _mf("isqrt"), "dist": lambda m, p, q: MATHF["hypot"](m, *[m.binop("sub", x, y) for x, y in zip(m.iterate(p), m.iterate(q))]),
    "lcm": lambda m, *a: _math.lcm(*[m.idx(x) for x in a]), "fsum": lambda m, it: T.tofloat(m.call(m.builtins["sum"], [it, 0.0])),
}


# --------------------------------------------------------------------------- operator
def _getter(m, *names):
    def one(m, o, n):
        for p in n.split("."):
            o = m.getattr_(o, p)
        return o

    return Native("attrgetter", lambda m, o: one(m, o, names[0]) if len(names) == 1 else tuple(one(m, o, n) for n in names))


OPER = {n: (lambda op: lambda m, a, b: m.binop(op, a, b))(o) for n, o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "truediv"), ("floordiv", "floordiv"), ("mod", "mod"), ("and_", "and"), ("or_", "or"), ("xor", "xor"), ("lshift", "lshift"), ("rshift", "rshift"), ("pow", "pow"))}
OPER |= {
    "eq": lambda m, a, b: m.eqv(a, b), "ne": lambda m, a, b: m.eqv(a, b, True),
    "lt": lambda m, a, b: m.order(ast.Lt, a, b), "le": lambda m, a, b: m.order(ast.LtE, a, b),
    "gt": lambda m, a, b: m.order(ast.Gt, a, b), "ge": lambda m, a, b: m.order(ast.GtE, a, b),
    "neg": lambda m, a: T.neg(m.num(a)), "not_": lambda m, a: T.bnot(m.truth(a)), "truth": lambda m, a: m.truth(a),
    "getitem": lambda m, a, b: m.getitem(a, b), "contains": lambda m, a, b: m.contains(a, b),
    "itemgetter": lambda m, *ks: Native("itemgetter", lambda m, o: m.getitem(o, ks[0]) if len(ks) == 1 else tuple(m.getitem(o, k) for k in ks)),
    "attrgetter": _getter,
    "methodcaller": lambda m, n, *a, **k: Native("methodcaller", lambda m, o: m.call(m.getattr_(o, n), list(a), k)),
    "is_": lambda m, a, b: m.is_(a, b), "is_not": lambda m, a, b: T.bnot(m.is_(a, b)), "index": lambda m, a: m.num(a),
}


# --------------------------------------------------------------------------- struct
_W = {"b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8, "s": 1, "x": 1}


def st_fmt(m, fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "little"
    i = 0
    if fmt and fmt[0] in "<>=!@":
        order = "big" if fmt[0] in ">!" else "little"
        i = 1
    out = []
    n = ""
    for ch in fmt[i:]:
        if ch.isdigit():
            n += ch
        elif ch.isspace():
            continue
        else:
            if ch not in _W:
                raise Unsupported("struct format")
            k = int(n) if n else 1
            n = ""
            if ch in "sx":
                out.append((ch, 1, k))
            else:
                out.extend([(ch, 1, _W[ch])] * k)
    return order, out


def st_pack(m, fmt, *vals):
    order, items = st_fmt(m, fmt)
    vals = list(vals)
    out = []
    for ch, _, w in items:
        if ch == "x":
            out.append(bytes(w))
            continue
        v = vals.pop(0)
        if ch == "s":
            b = m.as_bytes(v)
            out.append(bcat(bslice(b, 0, w), bytes(max(0, w - blen(b)))))
        elif ch in "fd":
            import struct

            n = m.num(v)
            if T.is_sym(n):
                raise Unsupported("struct float")
            out.append(struct.pack(("<" if order == "little" else ">") + ch, n))
        else:
            n = T.b2i(m.num(m.res(v)) if ch != "?" else m.truth(v))
            if n is None:
                m.throw("ValueError", "required argument is not an integer")
            try:
                out.append(m.to_bytes(n, w, order, ch.islower()))
            except Raised as e:
                if e.exc.cls is m.classes["OverflowError"]:
                    m.throw("ValueError", "argument out of range")
                raise
    return bcat(*out) if out else b""


def st_unpack(m, fmt, data):
    order, items = st_fmt(m, fmt)
    data = m.as_bytes(data)
    if blen(data) != sum(w for _, _, w in items):
        m.throw("ValueError", "unpack requires a buffer of another size")
    return _unp(m, order, items, data, 0)


def st_unpack_from(m, fmt, data, offset=0):
    order, items = st_fmt(m, fmt)
    data = m.as_bytes(data)
    if blen(data) - m.idx(offset) < sum(w for _, _, w in items):
        m.throw("ValueError", "unpack_from requires a larger buffer")
    return _unp(m, order, items, data, m.idx(offset))


def _unp(m, order, items, data, p):
    out = []
    for ch, _, w in items:
        b = bslice(data, p, p + w)
        p += w
        if ch == "x":
            continue
        if ch == "s":
            out.append(b)
        elif ch in "fd":
            if not isinstance(b, bytes):
                raise Unsupported("struct float")
            import struct

            out.append(struct.unpack(("<" if order == "little" else ">") + ch, b)[0])
        elif ch == "?":
            out.append(T.truth(m.from_bytes(b, order, False)))
        else:
            out.append(m.from_bytes(b, order, ch.islower()))
    return tuple(out)


# --------------------------------------------------------------------------- abc / dataclasses
def abstract(m, f):
    g = f.f if isinstance(f, (AStatic, AClassMethod)) else f.fget if isinstance(f, AProperty) else f
    if isinstance(g, AFunc):
        g.attrs = dict(g.attrs or {}, __isabstractmethod__=True)
    return f


DCMISSING = TypeGeneric("MISSING")


def dc_field(m, *, default=UNBOUND, default_factory=None, init=True, repr=True, compare=True, hash=None, kw_only=False, metadata=None):
    f = DCField()
    default = UNBOUND if default is DCMISSING else default
    default_factory = None if default_factory is DCMISSING else default_factory
    f.default, f.factory, f.init, f.compare, f.hash, f.kw_only = default, default_factory, init, compare, hash, kw_only
    return f


def dcf(cls):
    for k in cls.mro:
        if k.dcfields is not None:
            return k.dcfields
    return None


def dataclass(m, cls=None, **opt):
    if cls is None:
        return Native("dataclass", lambda m, k: dataclass(m, k, **opt))
    fields = {}
    for b in reversed(cls.mro[1:]):
        if b.dcfields is not None:
            fields.update(b.dcfields)
    ns = cls.c
    for name, ann in ns.get("__annotations__", ()):
        if "ClassVar" in ann or ann.endswith("KW_ONLY"):
            continue
        d = ns.get(name, UNBOUND)
        if isinstance(d, DCField):
            f = d
            if f.default is not UNBOUND:
                ns[name] = f.default
            else:
                del ns[name]
        else:
            f = DCField()
            f.default = d
            if isinstance(d, (AList, ADict, ASet)):
                m.throw("ValueError", f"mutable default {name}")
        fields[name] = f
    cls.dcfields = fields
    if "__init__" not in ns and opt.get("init", True):

        def init(m, self_, *a, **kw):
            names = [n for n, f in fields.items() if f.init]
            pos = [n for n in names if not fields[n].kw_only]
            if len(a) > len(pos):
                m.throw("TypeError", f"__init__() takes {len(pos) + 1} positional arguments but {len(a) + 1} were given")
            vals = dict(zip(pos, a))
            for k, v in kw.items():
                if k not in names:
                    m.throw("TypeError", f"__init__() got an unexpected keyword argument '{k}'")
                if k in vals:
                    m.throw("TypeError", f"multiple values for argument '{k}'")
                vals[k] = v
            for n, f in fields.items():
                if n in vals:
                    v = vals[n]
                elif f.default is not UNBOUND:
                    v = f.default
                elif f.factory is not None:
                    v = m.call(f.factory, [])
                elif f.init:
                    m.throw("TypeError", f"__init__() missing required argument: '{n}'")
                else:
                    continue
                if m.is_frozen(m.res(self_).cls):
                    m.wcon(m.res(self_))[n] = v
                else:
                    m.setattr_(self_, n, v)
            post = m.lookup(m.res(self_).cls, "__post_init__")
            if post is not UNBOUND:
                m.call(m.bind(post, m.res(self_), m.res(self_).cls), [])

        ns["__init__"] = Native("__init__", init, True)
    cmpf = [n for n, f in fields.items() if f.compare]
    tup = lambda m, o: tuple(m.getattr_(o, n) for n in cmpf)  # noqa: E731
    if "__eq__" not in ns and opt.get("eq", True):

        def eq(m, a, b):
            if not isinstance(b, AInst) or a.cls is not b.cls:
                return NotImplemented
            return m.eq(tup(m, a), tup(m, b))

        ns["__eq__"] = Native("__eq__", eq)
    if opt.get("eq", True) and ns.get("__hash__") is None:
        if opt.get("frozen") or opt.get("unsafe_hash"):
            ns["__hash__"] = Native("__hash__", lambda m, o: m.hash_(tup(m, o)))
        else:
            ns["__hash__"] = None
    if opt.get("order"):
        for nm, op in (("__lt__", ast.Lt), ("__le__", ast.LtE), ("__gt__", ast.Gt), ("__ge__", ast.GtE)):
            ns[nm] = Native(nm, (lambda op: lambda m, a, b: m.order(op, tup(m, a), tup(m, b)) if isinstance(b, AInst) and a.cls is b.cls else NotImplemented)(op))
    if "__repr__" not in ns:
        ns["__repr__"] = Native("__repr__", lambda m, o: Unk("str"))
    if opt.get("frozen"):
        ns["__frozen__"] = True
    ns["__match_args__"] = tuple(n for n, f in fields.items() if f.init)
    return cls


def dc_fields(m, o):
    k = o if isinstance(o, AClass) else m.type_of(o)
    fs = dcf(k)
    if fs is None:
        m.throw("TypeError", "must be called with a dataclass type or instance")
    out = []
    kf = _opaque_class(m, "Field")
    missing = DCMISSING
    for n, f in fs.items():
        x = AInst(kf)
        x.c["name"] = n
        x.c["default"] = missing if f.default is UNBOUND else f.default
        x.c["default_factory"] = missing if f.factory is None else f.factory
        x.c["init"], x.c["compare"], x.c["kw_only"] = f.init, f.compare, f.kw_only
        out.append(x)
    return tuple(out)


def _opaque_class(m, name):
    """class of a library object that is modelled in part: what is missing is undecided"""
    k = m.classes.get("~" + name)
    if k is None:
        k = AClass(name, [m.classes["object"]], {})
        m.classes["~" + name] = k
    return k


def dc_asdict(m, o, dict_factory=None):
    def rec(v):
        v = m.res(v)
        if isinstance(v, AInst) and dcf(v.cls) is not None:
            d = ADict()
            for n in dcf(v.cls):
                m.dict_set(d, n, rec(m.getattr_(v, n)))
            return d
        if isinstance(v, tuple):
            return tuple(rec(x) for x in v)
        if isinstance(v, AList):
            return AList([rec(x) for x in m.con(v)])
        if isinstance(v, ADict):
            d = ADict()
            for k, x in m.con(v).values():
                m.dict_set(d, k, rec(x))
            return d
        return deepcopy(m, v, {})

    return rec(o)


def dc_astuple(m, o, tuple_factory=None):
    def rec(v):
        v = m.res(v)
        if isinstance(v, AInst) and dcf(v.cls) is not None:
            return tuple(rec(m.getattr_(v, n)) for n in dcf(v.cls))
        if isinstance(v, tuple):
            return tuple(rec(x) for x in v)
        if isinstance(v, AList):
            return AList([rec(x) for x in m.con(v)])
        return deepcopy(m, v, {})

    return rec(o)


def dc_replace(m, o, **kw):
    fs = dcf(o.cls)
    args = {n: m.getattr_(o, n) for n, f in fs.items() if f.init}
    args.update(kw)
    return m.instantiate(o.cls, [], args)


def namedtuple(m, name, fields, defaults=(), **k):
    if is_str(fields):
        fields = fields.replace(",", " ").split()
    else:
        fields = [str(x) for x in m.iterate(fields)]
    cls = AClass(name, [m.classes["tuple"]], {})
    nt_setup(m, cls, fields, dict(zip(fields[len(fields) - len(m.iterate(defaults)):], m.iterate(defaults))))
    return cls


def nt_setup(m, cls, fields, defaults):
    def make(m, *a, **kw):
        vals = dict(zip(fields, a))
        if len(a) > len(fields):
            m.throw("TypeError", "too many arguments")
        for k, v in kw.items():
            if k not in fields or k in vals:
                m.throw("TypeError", f"unexpected argument {k}")
            vals[k] = v
        for f in fields:
            if f not in vals:
                if f not in defaults:
                    m.throw("TypeError", f"missing argument {f}")
                vals[f] = defaults[f]
        o = AInst(cls, tuple(vals[f] for f in fields))
        o.c = {f: vals[f] for f in fields}
        return o

    cls.c["__construct__"] = Native(cls.name, make, True)
    cls.c["_fields"] = tuple(fields)
    cls.c["__match_args__"] = tuple(fields)
    cls.c["_replace"] = Native("_replace", lambda m, o, **kw: make(m, **{**{f: m.con(o)[f] for f in fields}, **kw}))
    cls.c["_asdict"] = Native("_asdict", lambda m, o: _mkd(m, {f: m.con(o)[f] for f in fields}))
    cls.c["_make"] = AStatic(Native("_make", lambda m, it: make(m, *m.iterate(it))))


def _mkd(m, d):
    r = ADict()
    for k, v in d.items():
        m.dict_set(r, k, v)
    return r


# --------------------------------------------------------------------------- functools / itertools
def mkcache(m, f):
    store = ADict()

    def call(m, *a, **kw):
        key = tuple(a) + tuple(x for kv in sorted(kw.items()) for x in kv)
        v = m.dict_find(store, key)
        if v is UNBOUND:
            v = m.call(f, list(a), kw)
            m.dict_set(store, key, v)
        return v

    return Native(getattr(f, "name", "cached"), call)


def fn_wraps(m, g, f):
    if isinstance(g, AFunc):
        g.attrs = dict(g.attrs or {})
        for n in ("__name__", "__qualname__", "__doc__", "__module__"):
            v = m.getattr_(f, n, UNBOUND)
            if v is not UNBOUND:
                g.attrs[n] = v
        g.attrs["__wrapped__"] = f
    return g


def annotation_of(m, f, i):
    """the class an argument is annotated with"""
    f = m.res(f)
    if isinstance(f, AFunc):
        a = (f.node.args.posonlyargs + f.node.args.args)[i:]
        if a and a[0].annotation is not None:
            c = a[0].annotation
            if isinstance(c, ast.Constant) and isinstance(c.value, str):
                c = ast.parse(c.value, mode="eval").body
            c = m.res(m.ev(c, f.env))
            if isinstance(c, AClass):
                return c
    raise Unsupported("dispatch on this annotation")


def lru_cache(m, f=None, maxsize=128, typed=False):
    if f is not None and not isinstance(f, int):
        return mkcache(m, f)
    return Native("lru_cache", lambda m, g: mkcache(m, g))


def reduce_(m, f, it, init=UNBOUND):
    items = m.iterate(it)
    if init is not UNBOUND:
        r = init
    else:
        if not items:
            m.throw("TypeError", "reduce() of empty iterable with no initial value")
        r, items = items[0], items[1:]
    for x in items:
        r = m.call(f, [r, x])
    return r


def total_ordering(m, cls):
    lt = m.lookup(cls, "__lt__")
    if lt is UNBOUND:
        raise Unsupported("total_ordering without __lt__")
    L = lambda m, a, b: m.truth(m.call(m.bind(lt, a, cls), [b]))  # noqa: E731
    cls.c.setdefault("__gt__", Native("__gt__", lambda m, a, b: T.band(T.bnot(L(m, a, b)), T.bnot(m.eq(a, b)))))
    cls.c.setdefault("__le__", Native("__le__", lambda m, a, b: T.bor(L(m, a, b), m.eq(a, b))))
    cls.c.setdefault("__ge__", Native("__ge__", lambda m, a, b: T.bnot(L(m, a, b))))
    return cls


def it_count(m, start=0, step=1):
    return ACount(lambda p: m.binop("add", start, m.binop("mul", step, p)))


def it_repeat(m, v, n=None):
    if n is None:
        return ACount(lambda p: v)
    return AIter([v] * max(0, m.idx(n)))


def it_cycle(m, it):
    items = m.iterate(it)
    return ACount(lambda p: items[p % len(items)])


def it_islice(m, it, *a):
    it = m.res(it)
    a = [None if x is None else m.idx(x) for x in a]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0] or 0, a[1], a[2] if len(a) > 2 and a[2] else 1)

    def th():
        src = mkiter(m, it)
        out = []
        i = 0
        nxt = start
        while stop is None or i < stop:
            v = m.iter_next(src) if isinstance(src, (AIter, ACount)) else m.call(m.builtins["next"], [src, UNBOUND])
            if v is UNBOUND:
                break
            if i == nxt:
                out.append(v)
                nxt += step
            i += 1
        return out

    return AIter(None, th)


def it_chain(m, *its):
    return AIter(None, lambda: [x for it in its for x in m.iterate(it)])


def it_product(m, *its, repeat=1):
    import itertools

    return AIter(None, lambda: list(itertools.product(*([m.iterate(i) for i in its] * m.idx(repeat)))))


def _comb(fn):
    import itertools

    def f(m, it, r=None):
        l = m.iterate(it)
        rr = len(l) if r is None else m.idx(r)
        return AIter(list(getattr(itertools, fn)(l, rr)))

    return f


def it_groupby(m, it, key=None):
    def th():
        out = []
        ck = UNBOUND
        for x in m.iterate(it):
            k = m.call(key, [x]) if key is not None else x
            if ck is UNBOUND or not m.want(m.eq(k, ck)):
                cur = []
                out.append((k, cur))
                ck = k
            cur.append(x)
        return [(k, AIter(c)) for k, c in out]

    return AIter(None, th)


def it_accumulate(m, it, func=None, initial=UNBOUND):
    def th():
        out = []
        r = initial
        if r is not UNBOUND and r is not None:
            out.append(r)
        else:
            r = UNBOUND
        for x in m.iterate(it):
            r = x if r is UNBOUND else (m.call(func, [r, x]) if func is not None else m.binop("add", r, x))
            out.append(r)
        return out

    return AIter(None, th)


def it_zip_longest(m, *its, fillvalue=None):
    def th():
        ls = [m.iterate(i) for i in its]
        n = max([len(l) for l in ls] or [0])
        return [tuple(l[i] if i < len(l) else fillvalue for l in ls) for i in range(n)]

    return AIter(None, th)


def it_takewhile(m, f, it):
    def th():
        out = []
        it2 = m.res(it)
        src = mkiter(m, it2)
        while True:
            x = m.iter_next(src)
            if x is UNBOUND or not m.want(m.truth(m.call(f, [x]))):
                return out
            out.append(x)
            if len(out) > 20000:
                raise Budget("takewhile does not come to an end", m.site())

    return AIter(None, th)


def it_dropwhile(m, f, it):
    def th():
        l = m.iterate(it)
        i = 0
        while i < len(l) and m.want(m.truth(m.call(f, [l[i]]))):
            i += 1
        return l[i:]

    return AIter(None, th)


def it_filterfalse(m, f, it):
    return AIter(None, lambda: [x for x in m.iterate(it) if not m.want(m.truth(m.call(f, [x]) if f else x))])


def it_tee(m, it, n=2):
    l = m.iterate(it)
    return tuple(AIter(list(l)) for _ in range(m.idx(n)))


def it_pairwise(m, it):
    def th():
        l = m.iterate(it)
        return list(zip(l, l[1:]))

    return AIter(None, th)


def it_batched(m, it, n):
    def th():
        l = m.iterate(it)
        k = m.idx(n)
        return [tuple(l[i : i + k]) for i in range(0, len(l), k)]

    return AIter(None, th)


ITER = {
    "count": it_count, "repeat": it_repeat, "cycle": it_cycle, "islice": it_islice, "chain": it_chain,
    "product": it_product, "combinations": _comb("combinations"), "permutations": _comb("permutations"),
    "combinations_with_replacement": _comb("combinations_with_replacement"), "groupby": it_groupby,
    "accumulate": it_accumulate, "zip_longest": it_zip_longest, "takewhile": it_takewhile, "dropwhile": it_dropwhile,
    "starmap": lambda m, f, it: AIter(None, lambda: [m.call(f, list(m.iterate(a))) for a in m.iterate(it)]),
    "filterfalse": it_filterfalse, "tee": it_tee, "pairwise": it_pairwise, "batched": it_batched,
    "compress": lambda m, d, s: AIter(None, lambda: [x for x, k in zip(m.iterate(d), m.iterate(s)) if m.want(m.truth(k))]),
}


# --------------------------------------------------------------------------- json
def to_json(m, v):
    """value as JSON sees it (fresh structure)"""
    v = m.res(v)
    if v is None or isinstance(v, (bool, T.Bdd)):
        return v
    n = m.num(v)
    if n is not None:
        return n
    if is_str(v):
        return v
    if isinstance(v, Unk):
        return v
    p = m.pay(v)
    if isinstance(p, (tuple, AList)):
        return AList([to_json(m, x) for x in m.iterate(p)])
    if isinstance(p, ADict):
        d = ADict()
        for k, x in list(m.con(p).values()):
            k = m.res(k)
            if not is_str(k):
                if k is None or isinstance(k, (int, float)):
                    k = _json.dumps(k) if not isinstance(k, float) else repr(k)
                else:
                    m.throw("TypeError", "keys must be str, int, float, bool or None")
            m.dict_set(d, k, to_json(m, x))
        return d
    m.throw("TypeError", f"Object of type {m.type_of(v).name} is not JSON serializable")


def _json_opts(m, k):
    """options that change nothing about the content are ignored"""
    for name, v in k.items():
        v = m.res(v)
        if name in ("indent", "separators", "ensure_ascii", "sort_keys", "check_circular") or v is None:
            continue
        if name == "allow_nan" and v is True or name == "skipkeys" and v is False:
            continue
        raise Unsupported("json option " + name)


def json_dumps(m, v, **k):
    _json_opts(m, k)
    v = to_json(m, v)
    if m.res(k.get("sort_keys", False)) is True:
        v = _json_sorted(m, v)
    return JText(v)


def _json_sorted(m, v):
    if isinstance(v, AList):
        return AList([_json_sorted(m, x) for x in m.con(v)])
    if isinstance(v, ADict):
        d = ADict()
        items = list(m.con(v).values())
        if not all(isinstance(k, str) for k, _ in items):
            raise Unsupported("sorting abstract keys")
        for k, x in sorted(items, key=lambda e: e[0]):
            m.dict_set(d, k, _json_sorted(m, x))
        return d
    return v


def json_dump(m, v, fp, **k):
    t = json_dumps(m, v, **k)
    if isinstance(fp, AStream):
        m.stream_write(fp, t)
    else:
        m.call(m.getattr_(fp, "write"), [t])


def json_loads(m, s, **k):
    _json_opts(m, k)
    s = m.res(s)
    if isinstance(s, JText):
        return deepcopy(m, s.v, {})
    if isinstance(s, (str, bytes)):
        try:
            return from_host(m, _json.loads(s))
        except ValueError as e:
            m.throw("JSONDecodeError", str(e))
    raise Unsupported("json of abstract text")


def json_load(m, fp, **k):
    if isinstance(fp, AStream):
        return json_loads(m, m.stream_read(fp, -1), **k)
    return json_loads(m, m.call(m.getattr_(fp, "read"), []), **k)


def from_host(m, v):
    if isinstance(v, list):
        return AList([from_host(m, x) for x in v])
    if isinstance(v, tuple):
        return tuple(from_host(m, x) for x in v)
    if isinstance(v, dict):
        d = ADict()
        for k, x in v.items():
            m.dict_set(d, k, from_host(m, x))
        return d
    return v


# --------------------------------------------------------------------------- file system
def _paths(f):
    """path arguments may be path objects"""

    def g(m, *a, **k):
        out = []
        for x in a:
            x = m.res(x)
            if isinstance(x, AInst):
                x = m.call(m.getattr_(x, "__fspath__"), [])
            if not isinstance(x, str):
                raise Unsupported("path that is not a constant string")
            out.append(x)
        return f(m, *out, **k)

    return g


def fs_replace(m, a, b):
    fs = m.con(m.fs)
    if a not in fs:
        m.throw("FileNotFoundError", a)
    c = m.wcon(m.fs)
    c[b] = c.pop(a)
    m.extra.setdefault("opens", []).append((b, "replace"))


def fs_copy(m, a, b):
    fs = m.con(m.fs)
    if a not in fs:
        m.throw("FileNotFoundError", a)
    m.wcon(m.fs)[b] = fs[a]


def fs_remove(m, a):
    if a not in m.con(m.fs):
        m.throw("FileNotFoundError", a)
    m.wcon(m.fs).pop(a)


def fs_size(m, p):
    fs = m.con(m.fs)
    if p not in fs:
        m.throw("FileNotFoundError", p)
    return m.length(fs[p])


def _tmpname(m, d=None, suffix="", prefix="tmp"):
    i = 0
    fs = m.con(m.fs)
    while True:
        p = _os.path.join(d or "/tmp", f"{prefix or 'tmp'}{i}{suffix or ''}")
        if p not in fs:
            return p
        i += 1


def tmp_named(m, mode="w+b", *a, dir=None, suffix="", prefix="tmp", delete=True, **k):
    return m.open_(_tmpname(m, dir, suffix, prefix), mode)


def tmp_mk(m, suffix="", prefix="tmp", dir=None, text=False):
    p = _tmpname(m, dir, suffix, prefix)
    m.wcon(m.fs)[p] = b""
    fds = m.extra.setdefault("fds", {})
    fds[100 + len(fds)] = p
    return (100 + len(fds) - 1, p)


# --------------------------------------------------------------------------- modules written in Python
PYF = '''
class partial:
    def __init__(self, func, *args, **keywords):
        self.func = func
        self.args = args
        self.keywords = keywords
    def __call__(self, *args, **kw):
        k = dict(self.keywords)
        k.update(kw)
        return self.func(*self.args, *args, **k)

class partialmethod:
    def __init__(self, func, *args, **keywords):
        self.func = func
        self.args = args
        self.keywords = keywords
    def __get__(self, obj, cls=None):
        return partial(self.func, obj, *self.args, **self.keywords)

class cached_property:
    def __init__(self, func):
        self.func = func
        self.name = func.__name__
    def __set_name__(self, owner, name):
        self.name = name
    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        v = self.func(obj)
        setattr(obj, self.name, v)
        return v

class _K:
    def __init__(self, cmp, x):
        self.cmp = cmp
        self.x = x
    def __lt__(self, o):
        return self.cmp(self.x, o.x) < 0
    def __eq__(self, o):
        return self.cmp(self.x, o.x) == 0

def cmp_to_key(cmp):
    return lambda x: _K(cmp, x)
'''
PYABC = '''
from abc import abstractmethod
class Hashable: pass
class Iterable: pass
class Iterator(Iterable):
    def __iter__(self):
        return self
class Generator(Iterator): pass
class Sized: pass
class Container: pass
class Callable: pass
class Collection(Sized, Iterable, Container): pass
class Reversible(Iterable): pass
class ByteString: pass
class Sequence(Collection):
    @abstractmethod
    def __getitem__(self, index): ...
    @abstractmethod
    def __len__(self): ...
    def __iter__(self):
        i = 0
        out = []
        try:
            while True:
                out.append(self[i])
                i += 1
        except IndexError:
            pass
        return iter(out)
    def __contains__(self, value):
        for v in self:
            if v is value or v == value:
                return True
        return False
    def __reversed__(self):
        return iter([self[i] for i in range(len(self) - 1, -1, -1)])
    def index(self, value, start=0, stop=None):
        n = len(self)
        i = start
        while stop is None or i < stop:
            if i >= n:
                break
            v = self[i]
            if v is value or v == value:
                return i
            i += 1
        raise ValueError
    def count(self, value):
        return sum(1 for v in self if v is value or v == value)
class MutableSequence(Sequence):
    @abstractmethod
    def __setitem__(self, index, value): ...
    @abstractmethod
    def __delitem__(self, index): ...
    @abstractmethod
    def insert(self, index, value): ...
    def append(self, value):
        self.insert(len(self), value)
    def clear(self):
        try:
            while True:
                self.pop()
        except IndexError:
            pass
    def reverse(self):
        n = len(self)
        for i in range(n // 2):
            self[i], self[n - i - 1] = self[n - i - 1], self[i]
    def extend(self, values):
        if values is self:
            values = list(values)
        for v in values:
            self.append(v)
    def pop(self, index=-1):
        v = self[index]
        del self[index]
        return v
    def remove(self, value):
        del self[self.index(value)]
    def __iadd__(self, values):
        self.extend(values)
        return self
class Mapping(Collection):
    @abstractmethod
    def __getitem__(self, key): ...
    @abstractmethod
    def __iter__(self): ...
    @abstractmethod
    def __len__(self): ...
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default
    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True
    def keys(self):
        return [k for k in self]
    def items(self):
        return [(k, self[k]) for k in self]
    def values(self):
        return [self[k] for k in self]
    def __eq__(self, other):
        if not isinstance(other, Mapping):
            return NotImplemented
        return dict(self.items()) == dict(other.items())
class MutableMapping(Mapping):
    @abstractmethod
    def __setitem__(self, key, value): ...
    @abstractmethod
    def __delitem__(self, key): ...
    def pop(self, key, *default):
        try:
            value = self[key]
        except KeyError:
            if not default:
                raise
            return default[0]
        del self[key]
        return value
    def clear(self):
        for k in list(self):
            del self[k]
    def update(self, other=(), **kw):
        if isinstance(other, Mapping) or isinstance(other, dict):
            for k in other:
                self[k] = other[k]
        else:
            for k, v in other:
                self[k] = v
        for k, v in kw.items():
            self[k] = v
    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default
class Set(Collection): pass
class MutableSet(Set): pass
class Buffer: pass
'''
PYARG = '''
class Namespace:
    def __init__(self, **kw):
        for k in kw:
            setattr(self, k, kw[k])
    def __contains__(self, k):
        return hasattr(self, k)
class ArgumentTypeError(Exception): pass
class _Action:
    def __init__(self, flags, dest, kw):
        self.flags = flags
        self.dest = dest
        self.kw = kw
class _SubParsers:
    def __init__(self, dest, required):
        self.dest = dest
        self.required = required
        self.parsers = {}
    def add_parser(self, name, **kw):
        p = ArgumentParser(**kw)
        self.parsers[name] = p
        for a in kw.get("aliases", ()):
            self.parsers[a] = p
        return p
class ArgumentParser:
    def __init__(self, *args, **kw):
        self.actions = []
        self.subs = None
        self.description = kw.get("description")
        self.prog = None
        self.defaults = {}
    def add_argument(self, *flags, **kw):
        if "dest" in kw:
            dest = kw["dest"]
        elif flags[0].startswith("-"):
            longs = [f for f in flags if f.startswith("--")]
            dest = (longs or list(flags))[0].lstrip("-").replace("-", "_")
        else:
            dest = flags[0]
        a = _Action(flags, dest, kw)
        self.actions.append(a)
        return a
    def add_argument_group(self, *a, **k):
        return self
    def add_mutually_exclusive_group(self, *a, **k):
        return self
    def set_defaults(self, **kw):
        self.defaults.update(kw)
    def error(self, message):
        raise SystemExit(2)
    def exit(self, status=0, message=None):
        raise SystemExit(status)
    def print_help(self, file=None):
        print("usage: ", file=file)
    def print_usage(self, file=None):
        print("usage: ", file=file)
    def _convert(self, a, text):
        t = a.kw.get("type")
        if t is None:
            v = text
        else:
            try:
                v = t(text)
            except (ValueError, TypeError, ArgumentTypeError):
                raise SystemExit(2)
        ch = a.kw.get("choices")
        if ch is not None and v not in ch:
            raise SystemExit(2)
        return v
    def add_subparsers(self, dest=None, required=False, **kw):
        self.subs = _SubParsers(dest, required)
        return self.subs
    def parse_args(self, argv=None, namespace=None):
        import sys
        if argv is None:
            argv = sys.argv[1:]
        ns = Namespace() if namespace is None else namespace
        if self.subs is not None and self.subs.dest is not None:
            setattr(ns, self.subs.dest, None)
        pos = []
        opts = {}
        for a in self.actions:
            act = a.kw.get("action")
            default = a.kw.get("default")
            if act == "store_true" and "default" not in a.kw:
                default = False
            if act == "store_false" and "default" not in a.kw:
                default = True
            if isinstance(default, str) and a.kw.get("type") is not None:
                default = self._convert(a, default)
            setattr(ns, a.dest, default)
            if a.flags[0].startswith("-"):
                for f in a.flags:
                    opts[f] = a
            else:
                pos.append(a)
        for k, v in self.defaults.items():
            setattr(ns, k, v)
        rest = []
        seen = []
        found = False
        argv = list(argv)
        i = 0
        while i < len(argv):
            w = argv[i]
            i += 1
            val = None
            if w.startswith("--") and "=" in w:
                w, _, val = w.partition("=")
            if w in opts:
                a = opts[w]
                seen.append(a.dest)
                act = a.kw.get("action", "store")
                if act == "store_const":
                    setattr(ns, a.dest, a.kw.get("const"))
                elif act == "store_true":
                    setattr(ns, a.dest, True)
                elif act == "store_false":
                    setattr(ns, a.dest, False)
                elif act == "count":
                    setattr(ns, a.dest, (getattr(ns, a.dest) or 0) + 1)
                else:
                    if val is None:
                        if i >= len(argv):
                            raise SystemExit(2)
                        val = argv[i]
                        i += 1
                    setattr(ns, a.dest, self._convert(a, val))
            elif w.startswith("-") and not w.lstrip("-").replace(".", "").isdigit():
                raise SystemExit(2)
            elif self.subs is not None and len(rest) >= len(pos):
                if w not in self.subs.parsers:
                    raise SystemExit(2)
                if self.subs.dest is not None:
                    setattr(ns, self.subs.dest, w)
                found = True
                self.subs.parsers[w].parse_args(argv[i:], ns)
                i = len(argv)
            else:
                rest.append(w)
        for a in pos:
            n = a.kw.get("nargs")
            if n == "?":
                if rest:
                    setattr(ns, a.dest, self._convert(a, rest.pop(0)))
            elif isinstance(n, int):
                if len(rest) < n:
                    raise SystemExit(2)
                setattr(ns, a.dest, [self._convert(a, x) for x in rest[:n]])
                rest = rest[n:]
            elif n == "*" or n == "+":
                if n == "+" and not rest:
                    raise SystemExit(2)
                setattr(ns, a.dest, [self._convert(a, x) for x in rest])
                rest = []
            else:
                if not rest:
                    raise SystemExit(2)
                setattr(ns, a.dest, self._convert(a, rest.pop(0)))
        if rest:
            raise SystemExit(2)
        if self.subs is not None and self.subs.required and not found:
            raise SystemExit(2)
        for a in self.actions:
            if a.kw.get("required") and a.flags[0].startswith("-") and a.dest not in seen:
                raise SystemExit(2)
        return ns
'''
PYDISP = '''
class singledispatch:
    _skip = 0
    def __init__(self, func):
        self.func = func
        self.registry = {}
    def register(self, cls, func=None):
        if func is None:
            if isinstance(cls, type):
                return lambda f: self.register(cls, f)
            func = cls
            cls = _annotation(func, self._skip)
        self.registry[cls] = func
        return func
    def dispatch(self, cls):
        for c in cls.__mro__:
            if c in self.registry:
                return self.registry[c]
        return self.func
    def __call__(self, *a, **k):
        return self.dispatch(type(a[0]))(*a, **k)
class singledispatchmethod(singledispatch):
    _skip = 1
    def __get__(self, obj, cls=None):
        return lambda *a, **k: self.dispatch(type(a[0]))(obj, *a, **k)
'''
PYLOCK = '''
class Lock:
    def acquire(self, blocking=True, timeout=-1):
        return True
    def release(self):
        return None
    def __enter__(self):
        return True
    def __exit__(self, t, v, tb):
        return None
class RLock(Lock):
    pass
'''
PYSTRUCT = '''
import struct as _s
class Struct:
    def __init__(self, format):
        self.format = format
        self.size = _s.calcsize(format)
    def pack(self, *v):
        return _s.pack(self.format, *v)
    def unpack(self, data):
        return _s.unpack(self.format, data)
    def unpack_from(self, data, offset=0):
        return _s.unpack_from(self.format, data, offset)
    def iter_unpack(self, data):
        return iter_unpack(self.format, data)
def iter_unpack(format, data):
    n = _s.calcsize(format)
    if len(data) % n:
        raise _s.error("iterative unpacking requires a buffer of a multiple of %d bytes" % n)
    return iter([_s.unpack(format, data[i : i + n]) for i in range(0, len(data), n)])
'''
PYCOLL = '''
from collections.abc import MutableMapping, MutableSequence
class UserDict(MutableMapping):
    def __init__(self, dict=None, **kw):
        self.data = {}
        if dict is not None:
            self.update(dict)
        if kw:
            self.update(kw)
    def __len__(self):
        return len(self.data)
    def __getitem__(self, k):
        if k in self.data:
            return self.data[k]
        if hasattr(self.__class__, "__missing__"):
            return self.__class__.__missing__(self, k)
        raise KeyError(k)
    def __setitem__(self, k, v):
        self.data[k] = v
    def __delitem__(self, k):
        del self.data[k]
    def __iter__(self):
        return iter(self.data)
    def __contains__(self, k):
        return k in self.data
class UserList(MutableSequence):
    def __init__(self, initlist=None):
        self.data = list(initlist) if initlist is not None else []
    def __len__(self):
        return len(self.data)
    def __getitem__(self, i):
        return self.data[i]
    def __setitem__(self, i, v):
        self.data[i] = v
    def __delitem__(self, i):
        del self.data[i]
    def insert(self, i, v):
        self.data.insert(i, v)
class ChainMap(MutableMapping):
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]
    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)
    def __contains__(self, k):
        return any(k in m for m in self.maps)
    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            d.update(dict.fromkeys(m))
        return iter(d)
    def __len__(self):
        return len(set().union(*self.maps))
    def __setitem__(self, k, v):
        self.maps[0][k] = v
    def __delitem__(self, k):
        del self.maps[0][k]
'''
PYCTX = '''
class suppress:
    def __init__(self, *excs):
        self.excs = excs
    def __enter__(self):
        return self
    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.excs)
class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result
    def __enter__(self):
        return self.enter_result
    def __exit__(self, *a):
        return None
class closing:
    def __init__(self, thing):
        self.thing = thing
    def __enter__(self):
        return self.thing
    def __exit__(self, *a):
        self.thing.close()
class ExitStack:
    def __init__(self):
        self._cbs = []
    def enter_context(self, cm):
        v = cm.__enter__()
        self._cbs.append(cm.__exit__)
        return v
    def callback(self, f, *a, **k):
        self._cbs.append(lambda t, v, tb: f(*a, **k) and None)
        return f
    def push(self, cm):
        self._cbs.append(cm.__exit__)
        return cm
    def pop_all(self):
        n = ExitStack()
        n._cbs = self._cbs
        self._cbs = []
        return n
    def close(self):
        self.__exit__(None, None, None)
    def __enter__(self):
        return self
    def __exit__(self, t, v, tb):
        done = False
        while self._cbs:
            if self._cbs.pop()(t, v, tb):
                t = v = tb = None
                done = True
        return done
'''
PY = {
    "PIL": """
from PIL import Image
""",
    # an image is where it came from, its size and the steps applied to it; saving it gives a text of that
    "PIL.Image": """
_open = open


size_of = {}  # source -> size, 640 x 480 unless given


class Image:
    mode = "RGBA"

    def __init__(self, source, steps=(), format=None):
        self.source, self.steps, self.format = source, steps, format

    @property
    def size(self):
        return self.steps[-1] if self.steps else size_of.get(self.source, (640, 480))

    @property
    def width(self):
        return self.size[0]

    @property
    def height(self):
        return self.size[1]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass

    def load(self):
        pass

    def copy(self):
        return Image(self.source, self.steps)

    def resize(self, size, resample=None, box=None, reducing_gap=None):
        w, h = size
        # scaling to the size it has copies an image
        return self.copy() if (w, h) == self.size else Image(self.source, self.steps + ((w, h),))

    def save(self, fp, format=None, **params):
        if format is None:
            raise ValueError("unknown file extension")
        data = image_bytes(self.source, self.steps, format)
        if hasattr(fp, "write"):
            fp.write(data)
        else:
            with _open(fp, "wb") as f:
                f.write(data)


def image_bytes(source, steps, format):
    return ("image " + source + " " + str(steps) + " " + format.upper()).encode()


def open(fp, mode="r", formats=None):
    if hasattr(fp, "read"):
        return Image(repr(fp.read()))
    with _open(fp, "rb") as f:
        return Image(repr(f.read()))
""",
    "pathlib": """
import os


class PurePath:
    def __init__(self, *parts):
        self._p = os.path.join(*[os.fspath(p) for p in parts]) if parts else "."

    def __fspath__(self):
        return self._p

    def __str__(self):
        return self._p

    def __eq__(self, other):
        return isinstance(other, PurePath) and other._p == self._p

    def __hash__(self):
        return hash(self._p)

    def __truediv__(self, other):
        return type(self)(self, other)

    def joinpath(self, *others):
        return type(self)(self, *others)

    @property
    def name(self):
        return os.path.basename(self._p)

    @property
    def suffix(self):
        return os.path.splitext(self._p)[1]

    @property
    def stem(self):
        return os.path.splitext(os.path.basename(self._p))[0]

    @property
    def parent(self):
        return type(self)(os.path.dirname(self._p) or ".")

    def with_name(self, name):
        return type(self)(os.path.join(os.path.dirname(self._p), name))

    def with_suffix(self, suffix):
        return type(self)(os.path.splitext(self._p)[0] + suffix)


class Path(PurePath):
    def open(self, mode="r", *args, **kw):
        return open(self._p, mode, *args, **kw)

    def read_bytes(self):
        with open(self._p, "rb") as f:
            return f.read()

    def write_bytes(self, data):
        view = bytes(data)
        with open(self._p, "wb") as f:
            return f.write(view)

    def read_text(self, encoding=None, errors=None):
        with open(self._p, "r", encoding=encoding) as f:
            return f.read()

    def write_text(self, data, encoding=None, errors=None, newline=None):
        if not isinstance(data, str):
            raise TypeError("data must be str")
        with open(self._p, "w", encoding=encoding) as f:
            return f.write(data)

    def exists(self):
        return os.path.exists(self._p)

    def is_file(self):
        return os.path.isfile(self._p)

    def unlink(self, missing_ok=False):
        if missing_ok and not os.path.exists(self._p):
            return
        os.unlink(self._p)

    def replace(self, target):
        os.replace(self._p, target)
        return type(self)(target)

    rename = replace

    def resolve(self, strict=False):
        return type(self)(os.path.abspath(self._p))

    absolute = resolve
    expanduser = resolve


PosixPath = Path
PurePosixPath = PurePath
""",
    "_dm_io": """
import io


class BufferedWriter_(io.BufferedIOBase):
    def __init__(self, raw):
        if not raw.writable():
            raise OSError("File or stream is not writable.")
        self.raw = raw
        self._buf = b""

    def _check(self):
        if self.raw is None:
            raise ValueError("raw stream has been detached")
        if self.raw.closed:
            raise ValueError("write to closed file")

    def writable(self):
        return True

    def write(self, data):
        self._check()
        self._buf += bytes(data)
        return len(data)

    def flush(self):
        self._check()
        while self._buf:
            n = self.raw.write(self._buf)
            self._buf = self._buf[n:]

    def tell(self):
        self._check()
        return self.raw.tell() + len(self._buf)

    def seek(self, pos, whence=0):
        self.flush()
        return self.raw.seek(pos, whence)

    def detach(self):
        self.flush()
        raw = self.raw
        self.raw = None
        return raw

    def close(self):
        if self.raw is not None and not self.raw.closed:
            try:
                self.flush()
            finally:
                self.raw.close()

    @property
    def closed(self):
        if self.raw is None:
            raise ValueError("raw stream has been detached")
        return self.raw.closed
""",
    "bisect": '''
def bisect_left(a, x, lo=0, hi=None, key=None):
    if hi is None:
        hi = len(a)
    while lo < hi:
        mid = (lo + hi) // 2
        if (a[mid] if key is None else key(a[mid])) < x:
            lo = mid + 1
        else:
            hi = mid
    return lo
def bisect_right(a, x, lo=0, hi=None, key=None):
    if hi is None:
        hi = len(a)
    while lo < hi:
        mid = (lo + hi) // 2
        if x < (a[mid] if key is None else key(a[mid])):
            hi = mid
        else:
            lo = mid + 1
    return lo
bisect = bisect_right
def insort(a, x):
    a.insert(bisect_right(a, x), x)
''',
    "logging": '''
class _L:
    def debug(self, *a, **k): pass
    info = warning = error = exception = critical = debug
def getLogger(name=None):
    return _L()
def debug(*a, **k): pass
info = warning = error = debug
DEBUG = 10
INFO = 20
WARNING = 30
''',
    "heapq": '''
def heappush(h, x):
    h.append(x)
    h.sort()
def heappop(h):
    return h.pop(0)
def heapify(h):
    h.sort()
''',
    "traceback": '''
def print_exc(*a, **k): pass
def format_exc(*a, **k): return ""
''',
}
