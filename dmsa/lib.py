"""Models of the Python builtins and of the parts of the standard library the analysed programs use."""

from __future__ import annotations

import ast
import os
import re
import sys
import zlib as _zlib

from . import terms as T
from .values import *  # noqa: F401,F403
from .interp import Machine, Budget, host_module, unmodelled, _Live, _Auto, R, N, X, Raised, SplitRequest, Unsupported  # noqa: F401

EXC = """
BaseException: object
Exception: BaseException
KeyboardInterrupt: BaseException
SystemExit: BaseException
GeneratorExit: BaseException
_GenBreak: GeneratorExit
_GenReturn: GeneratorExit
_GenRaise: GeneratorExit
ArithmeticError: Exception
ZeroDivisionError: ArithmeticError
OverflowError: ArithmeticError
FloatingPointError: ArithmeticError
AssertionError: Exception
AttributeError: Exception
BufferError: Exception
EOFError: Exception
ImportError: Exception
ModuleNotFoundError: ImportError
LookupError: Exception
IndexError: LookupError
KeyError: LookupError
MemoryError: Exception
NameError: Exception
UnboundLocalError: NameError
OSError: Exception
FileNotFoundError: OSError
FileExistsError: OSError
PermissionError: OSError
IsADirectoryError: OSError
NotADirectoryError: OSError
BlockingIOError: OSError
RuntimeError: Exception
NotImplementedError: RuntimeError
RecursionError: RuntimeError
StopIteration: Exception
SyntaxError: Exception
TypeError: Exception
ValueError: Exception
UnicodeError: ValueError
UnicodeDecodeError: UnicodeError
UnicodeEncodeError: UnicodeError
Warning: Exception
DeprecationWarning: Warning
UserWarning: Warning
RuntimeWarning: Warning
"""


def plain_number(v):
    return type(v) in (int, float, bool) or (type(v) is tuple and all(map(plain_number, v)))


class ACount(Obj):
    """itertools.count / cycle: endless iterator; c: position"""

    __slots__ = ("at",)

    def __init__(self, at):
        Obj.__init__(self, 0)
        self.at = at


class ADecomp(Obj):
    """zlib.decompressobj; c: (input rope, eof, unused)"""

    __slots__ = ()


class _Next:
    def __init__(self, it):
        self.it = it

    def next(self, m):
        return m.iter_next(self.it)


class _InstNext:
    def __init__(self, o):
        self.o = o

    def next(self, m):
        try:
            return m.call(m.getattr_(self.o, "__next__"), [])
        except Raised as e:
            if e.exc.cls is m.classes["StopIteration"]:
                return UNBOUND
            raise


def is_str(v):
    return isinstance(v, (str, SStr))


def is_bytes(v):
    return isinstance(v, (bytes, Rope))


class Analyzer(Machine):
    def __init__(self, repo, prelude=None):
        Machine.__init__(self)
        self.repo = repo
        self.repo_prefix = os.path.join(repo, "")
        self.search = [repo]
        self.sources = {}
        self.fs = AFs({})
        self.stdout = None
        self.zlabels = {}
        self.mk_builtins()
        from . import models

        models.install(self)

    # ------------------------------------------------------------------ modules
    def parse(self, path):
        t = self.sources.get(path)
        if t is None:
            with open(path, "r", encoding="utf-8") as f:
                src = f.read()
            t = ast.parse(src, path)
            self.sources[path] = t
        return t

    def load_module(self, name):
        rel = name.split(".")
        for base in self.search:
            p = os.path.join(base, *rel)
            for cand in (os.path.join(p, "__init__.py"), p + ".py"):
                if os.path.isfile(cand):
                    if len(rel) > 1:
                        self.import_(".".join(rel[:-1]))
                        m = self.modules.get(name)
                        if m is not None:
                            return m
                    return self.exec_module(name, cand, self.parse(cand))
        if name in self.no_module:
            self.throw("ModuleNotFoundError", f"No module named {name!r}")
        if name in self.pymodels:
            src = self.pymodels[name]
            return self.exec_module(name, f"<model {name}>", ast.parse(src))
        if rel[0] in sys.stdlib_module_names and host_module(name) is not None:
            # only what is really used of it is undecidable
            m = AModule(name, f"<model {name}>", {"__name__": name, "__doc__": None})
            self.modules[name] = m
            return m
        raise Unsupported(f"module {name} is not modelled")

    def exec_module(self, name, path, tree):
        m = AModule(name, path, {"__name__": name, "__doc__": None})
        self.modules[name] = m
        env = Env(None, m, None, "module")
        env.fn = name
        env.c = m.c
        o = self.exec_block_module(tree.body, env)
        if o is not None:
            raise Unsupported("module body outcome")
        return m

    def exec_block_module(self, body, env):
        from .values import AFunc

        pseudo = AFunc(None, env, env.module, "<module>", "<module>", None)
        self.stack.append((pseudo, self.line))
        try:
            return self.exec_block(body, env)
        finally:
            self.stack.pop()

    def namedtuple_class(self, name, ns, module, node):
        from . import models

        ann = [a for a, _ in ns.get("__annotations__", ())]
        cls = AClass(name, [self.classes["tuple"]], {k: v for k, v in ns.items() if k not in ann}, module)
        cls.node = node
        for v in cls.c.values():
            f = v.f if isinstance(v, (AStatic, AClassMethod)) else v
            if isinstance(f, AFunc) and f.cls is None:
                f.cls = cls
        models.nt_setup(self, cls, ann, {a: ns[a] for a in ann if a in ns})
        return cls

    def all_classes(self):
        return self.all_

    # ------------------------------------------------------------------ types
    def type_of(self, v):
        t = type(v)
        c = self.classes
        if t is AInst:
            return v.cls
        if t is bool or t is T.Bdd:
            return c["bool"]
        if t is int or t is T.BV:
            return c["int"]
        if t is float:
            return c["float"]
        if t is T.Op:
            return c["float"] if v.sort == "f" else c["int"]
        if t is str or t is SStr:
            return c["str"]
        if t is bytes or t is Rope:
            return c["bytes"]
        if t is tuple:
            return c["tuple"]
        if t is AList:
            return c["list"]
        if t is ADict:
            return c[v.kind]
        if t is ASet:
            return c["frozenset" if v.frozen else "set"]
        if t is AByteArray:
            return c["bytearray"]
        if v is None:
            return c["NoneType"]
        if t is AClass:
            return v.meta if isinstance(v.meta, AClass) else c["type"]
        if t is AFunc or t is Native:
            return c["function"]
        if t is AMethod:
            return c["method"]
        if t is AModule:
            return c["module"]
        if t is EnumMember or t is EnumTerm:
            return v.cls
        if t is AStream:
            return c[v.kind]
        if t is ARange:
            return c["range"]
        if t is AIter or t is ACount:
            return c["generator" if t is AIter and v.gen else "iterator"]
        if t is AProperty:
            return c["property"]
        if t is AStatic:
            return c["staticmethod"]
        if t is AClassMethod:
            return c["classmethod"]
        if t is Unk:
            return c[v.kind] if v.kind in c else c["object"]
        if t is slice:
            return c["slice"]
        if t is Choice:
            return self.type_of(self.res(v))
        if v is NotImplemented:
            return c["NotImplementedType"]
        return c["object"]

    def conc(self, v, limit=80):
        """host value of a scalar; the case is partitioned over its values if they are few"""
        v = self.res(v)
        n = self.num(v)
        if n is None:
            if isinstance(v, AInst):
                f = self.lookup(v.cls, "__index__")
                if f is not UNBOUND:
                    return self.conc(self.call(self.bind(f, v, v.cls), []))
            self.throw("TypeError", f"{self.type_of(v).name} object cannot be interpreted as an integer")
        if not T.is_sym(n):
            return n
        n = T.b2i(n)
        if T.sort_of(n) == "f":
            raise Unsupported("concrete value of an abstract float")
        lo, hi = T.lo_hi(n)
        if hi - lo > limit:
            # look for a constant under the current assumption
            raise Unsupported(f"concrete value of {T.tstr(n)[:80]}")
        for k in range(int(lo), int(hi) + 1):
            if self.want(T.eq(n, k)):
                return k
        raise Unsupported("no concrete value")

    def idx(self, v):
        n = self.conc(v)
        if isinstance(n, float):
            self.throw("TypeError", "'float' object cannot be interpreted as an integer")
        return int(n)

    # ------------------------------------------------------------------ hashing
    def hkey(self, v):
        v = self.res(v)
        t = type(v)
        if t in (int, float, str, bytes, bool) or v is None:
            return v
        if t is T.Bdd:
            return SymKey(("n", id(T.b2i(v))))
        if t is T.BV or t is T.Op:
            return SymKey(("n", id(v)))
        if t is tuple:
            ks = [self.hkey(x) for x in v]
            if any(isinstance(k, SymKey) for k in ks):
                return SymKey(("T",) + tuple(ks))
            return tuple(ks)
        if t is EnumMember:
            return v.value if v.cls.c["_intlike_"] else v
        if t is EnumTerm:
            return SymKey(("n", id(v.term))) if T.is_sym(v.term) else v.term
        if t is Rope:
            return bkey(v)
        if t is SStr:
            return SymKey(("s", bkey(v.rope)))
        if t is AInst:
            h = self.lookup(v.cls, "__hash__")
            e = self.lookup(v.cls, "__eq__")
            if h is None:
                self.throw("TypeError", f"unhashable type: '{v.cls.name}'")
            if h is UNBOUND:
                if v.payload is not None:
                    return self.hkey(v.payload)
                return SymKey(("id", v.serial)) if e is not UNBOUND else ("id", v.serial)
            self.call(self.bind(h, v, v.cls), [])
            return SymKey(("inst", v.serial))
        if t in (AList, ADict, AByteArray) or (t is ASet and not v.frozen):
            self.throw("TypeError", f"unhashable type: '{self.type_of(v).name}'")
        if t is ASet:
            return SymKey(("fs",) + tuple(sorted((repr(self.hkey(k)) for k in self.con(v).values()))))
        if t is AMethod:
            return ("m", id(v.func), id(v.self_))
        if t is slice:
            self.throw("TypeError", "unhashable type: 'slice'")
        if t is Unk:
            raise Unsupported("hash of unknown")
        return v

    def hashparts(self, v, out):
        v = self.res(v)
        t = type(v)
        if t in (int, float, bool) or t in (T.Bdd, T.BV, T.Op):
            out.append(int(v) if t is float and v.is_integer() else T.b2i(v))
        elif t in (EnumMember, EnumTerm) and self.num(v) is not None:
            out.append(T.b2i(self.num(v)))
        elif t in (str, bytes):
            out.append(repr(v))
        elif t is tuple:
            out.append(f"({len(v)}")
            for x in v:
                self.hashparts(x, out)
        elif t is Rope or t is SStr:
            r = v if t is Rope else v.rope
            out.append(f"{'b' if t is Rope else 's'}{blen(r)}")
            for s in r.segs:
                if type(s) is OSeg:
                    out.append(repr(s))
                elif type(s) is bytes:
                    out.append(repr(s))
                else:
                    out.extend(s)
        elif t is AInst:
            h = self.lookup(v.cls, "__hash__")
            if h is None:
                self.throw("TypeError", f"unhashable type: '{v.cls.name}'")
            if h is UNBOUND:
                if v.payload is not None:
                    self.hashparts(v.payload, out)
                else:
                    out.append(f"id{v.serial}")
            else:
                out.append(self.call(self.bind(h, v, v.cls), []))
        elif t is ASet and v.frozen:
            sub = []
            for k in self.con(v).values():
                one = []
                self.hashparts(k, one)
                sub.append(self.mkhash(one))
            if any(T.is_sym(x) for x in sub):
                sub.sort(key=lambda x: (T.skeleton(x), id(x) if T.is_sym(x) else 0))
            else:
                sub.sort()
            out.append("fs")
            out.extend(sub)
        elif t in (AList, ADict, ASet, AByteArray):
            self.throw("TypeError", f"unhashable type: '{self.type_of(v).name}'")
        else:
            out.append(f"obj{self.hkey(v)!r}"[:200])

    def mkhash(self, parts):
        if len(parts) == 1 and isinstance(parts[0], int):
            return hash(parts[0])
        if len(parts) == 1 and isinstance(parts[0], float) and parts[0].is_integer():
            return int(parts[0])
        if not any(T.is_sym(p) for p in parts):
            # numbers with equal hashes (-1 and -2, say) give equal hashes of what contains them
            return _zlib.crc32(repr(tuple(hash(p) if type(p) in (int, float) else p for p in parts)).encode())
        if len(parts) == 1 and T.is_sym(parts[0]):
            p = parts[0]
            if T.sort_of(p) == "i" and T.lo_hi(p)[0] >= 0 and T.lo_hi(p)[1] < 2**60:
                return p
        return T.mkop("hash", tuple(parts), "i", 0, 2**61)

    def hash_(self, v):
        out = []
        self.hashparts(v, out)
        if len(out) == 1 and T.is_sym(out[0]) and isinstance(out[0], T.Op) and out[0].op == "hash":
            return out[0]
        return self.mkhash(out)

    # ------------------------------------------------------------------ dict / set
    def _scan(self, c, k, hk, keyof):
        """key of the entry equal to k, or UNBOUND"""
        if hk in c:
            return hk
        sym = isinstance(hk, SymKey)
        for h2 in c:
            if not sym and not isinstance(h2, SymKey):
                continue
            e = self.eq(keyof(c[h2]), k)
            if e is False:
                continue
            if self.want(e):
                return h2
        return UNBOUND

    def dict_slot(self, d, k):
        c = self.con(d)
        return self._scan(c, k, self.hkey(k), lambda e: e[0])

    def dict_find(self, d, k):
        h = self.dict_slot(d, k)
        return UNBOUND if h is UNBOUND else self.con(d)[h][1]

    def dict_set(self, d, k, v):
        k = self.res(k)
        h = self.dict_slot(d, k)
        c = self.wcon(d)
        if h is UNBOUND:
            c[self.hkey(k)] = (k, v)
        else:
            c[h] = (c[h][0], v)
        if d.owner is not None:
            self.wcon(d.owner)[k] = v

    def dict_del(self, d, k):
        h = self.dict_slot(d, k)
        if h is UNBOUND:
            self.throw("KeyError", k)
        v = self.con(d)[h][1]
        del self.wcon(d)[h]
        if d.owner is not None:
            self.wcon(d.owner).pop(k, None)
        return v

    def dict_get(self, d, k):
        v = self.dict_find(d, k)
        if v is UNBOUND:
            if d.default is not None:
                v = self.call(d.default, [])
                self.dict_set(d, k, v)
                return v
            if d.kind == "Counter":
                return 0
            self.throw("KeyError", k)
        return v

    def to_host(self, v):
        """constant as a host value, UNBOUND if it is none"""
        v = self.res(v)
        if v is None or type(v) in (int, float, bool, str, bytes):
            return v
        if type(v) is tuple or type(v) is AList:
            out = [self.to_host(x) for x in (v if type(v) is tuple else self.con(v))]
            return UNBOUND if any(x is UNBOUND for x in out) else tuple(out) if type(v) is tuple else out
        return UNBOUND

    def of_host(self, v):
        if v is None or type(v) in (int, float, bool, str, bytes):
            return v
        if type(v) is tuple:
            return tuple(self.of_host(x) for x in v)
        if type(v) is list:
            return AList([self.of_host(x) for x in v])
        if type(v) is re.Match:
            return self.match_object(v)
        raise Unsupported("result of a library function")

    def match_object(self, r):
        o = AInst(self.classes["object"])
        for n in ("group", "groups", "start", "end", "span"):
            o.c[n] = Native(n, lambda m, *a, n=n: m.of_host(getattr(r, n)(*[m.to_host(x) for x in a])))
        o.c["string"] = r.string
        return o

    def attr_dict(self, o):
        """the attributes of an object as a dict; what is stored there goes to the object"""
        d = ADict()
        for k, v in self.con(o).items():
            if type(v) is Choice and (v.a is UNBOUND or v.b is UNBOUND):
                v = self.res(v)
            if v is not UNBOUND:
                self.dict_set(d, k, v)
        d.owner = o
        return d

    def pay(self, o):
        return o.payload if isinstance(o, AInst) and o.payload is not None else o

    def dict_items(self, o):
        o = self.pay(self.res(o))
        if isinstance(o, ADict):
            return list(self.con(o).values())
        ks = self.call(self.getattr_(o, "keys"), [])
        return [(k, self.getitem(o, k)) for k in self.iterate(ks)]

    def dict_update(self, d, o):
        o = self.res(o)
        p = self.pay(o)
        if isinstance(p, ADict) or (isinstance(o, AInst) and self.lookup(o.cls, "keys") is not UNBOUND):
            for k, v in self.dict_items(o):
                self.dict_set(d, k, v)
        else:
            for kv in self.iterate(o):
                kv = list(self.iterate(kv))
                if len(kv) != 2:
                    self.throw("ValueError", "dictionary update sequence element has wrong length")
                self.dict_set(d, kv[0], kv[1])

    def set_add(self, s, v):
        v = self.res(v)
        h = self._scan(self.con(s), v, self.hkey(v), lambda e: e)
        if h is UNBOUND:
            self.wcon(s)[self.hkey(v)] = v

    # ------------------------------------------------------------------ iteration
    def iter_next(self, it):
        if isinstance(it, ACount):
            p = self.con(it)
            self.setc(it, p + 1)
            return it.at(p)
        items, pos = self.con(it)
        if items is None and it.step is not None:
            self.setc(it, (None, pos + 1))
            v = it.step(pos)
            if v is UNBOUND:
                self.setc(it, ((), 0))
            return v
        if items is None:
            items = it.thunk()
            self.setc(it, (items, 0))
            pos = 0
        if isinstance(items, _Live):
            if pos >= items.size(self):
                return UNBOUND
            v = items.at(self, pos)
        else:
            if pos >= len(items):
                return UNBOUND
            v = items[pos]
        self.setc(it, (items, pos + 1))
        return v

    def drain(self, it):
        items, pos = self.con(it)
        if items is None and it.step is not None:
            out = []
            while True:
                v = self.iter_next(it)
                if v is UNBOUND:
                    return out
                out.append(v)
                if len(out) > 300_000:
                    raise Budget("iteration does not come to an end", self.site())
        if items is None:
            items = it.thunk()
            pos = 0
        if isinstance(items, _Live):
            items = [items.at(self, i) for i in range(items.size(self))]
        self.setc(it, (items, len(items)))
        return list(items[pos:])

    def iter_items(self, v, lazy=True):
        v = self.res(v)
        if lazy and isinstance(v, AList):
            return _LiveList(v)
        if lazy and isinstance(v, (AIter, ACount)):
            if isinstance(v, AIter):
                items, pos = self.con(v)
                if items is None and v.step is None:
                    items = v.thunk()
                    self.setc(v, (items, 0))
            return _Next(v)
        if isinstance(v, AInst) and v.payload is None:
            return self._inst_iter(v)
        return self.iterate(v)

    def _inst_iter(self, v):
        f = self.lookup(v.cls, "__iter__")
        if f is not UNBOUND:
            it = self.res(self.call(self.bind(f, v, v.cls), []))
            if isinstance(it, AInst) and it.payload is None:
                return _InstNext(it)
            return self.iter_items(it)
        if self.lookup(v.cls, "__getitem__") is not UNBOUND:
            return _GetNext(v)
        self.type_error(f"'{v.cls.name}' object is not iterable", v)

    def view_set(self, v):
        if isinstance(v, AList) and v.view:
            s = ASet()
            for x in self.con(v):
                self.set_add(s, x)
            return s
        return v

    def set_order(self, c):
        """the members of a set in the order a walk meets them: numbers as Python orders them; anything else is met in
        an order that depends on the hash seed or on addresses, so the last entered comes first (or the other way round,
        when a rule asks for it with hash_order)"""
        vals = list(c.values())
        if len(vals) > 1:
            if all(map(plain_number, vals)):
                return list(set(vals))
            if not self.extra.get("hash_order"):
                vals.reverse()
        return vals

    def iterate(self, v):
        """all items as a host list"""
        v = self.res(v)
        t = type(v)
        if t is tuple:
            return list(v)
        if t is AList:
            return list(self.con(v))
        if t is ADict:
            return [k for k, _ in self.con(v).values()]
        if t is ASet:
            return list(self.con(v).values()) if v.view else self.set_order(self.con(v))
        if t is ARange:
            lo, hi, st = (self.idx(x) for x in (v.start, v.stop, v.step))
            n = len(range(lo, hi, st))
            if n > 300_000:
                raise Budget("range too large", self.site())
            return list(range(lo, hi, st))
        if t is AIter:
            return self.drain(v)
        if t is str:
            return list(v)
        if t is SStr:
            return [mkstr(mkbytes([(x,)])) for x in bitems(v.rope)]
        if t is bytes or t is Rope:
            return bitems(v)
        if t is AByteArray:
            return bitems(self.con(v))
        if t is AClass and v.enum is not None:
            out = []
            for m in v.c["__members__"].values():
                if m not in out:
                    out.append(m)
            return out
        if t is AInst:
            if v.payload is not None and self.lookup(v.cls, "__iter__") is UNBOUND:
                return self.iterate(v.payload)
            it = self._inst_iter(v)
            if isinstance(it, list):
                return it
            if isinstance(it, _LiveList):
                return list(self.con(it.o))
            out = []
            while True:
                x = it.next(self)
                if x is UNBOUND:
                    return out
                out.append(x)
                if len(out) > 20000:
                    raise Budget("iteration does not come to an end", self.site())
        if t is EnumTerm and v.cls.enum == "flag":
            return [m for m in v.cls.c["__members__"].values() if self.want(T.eq(T.i_and(v.term, m.value), m.value))]
        if t is AStream:
            return self.stream_lines(v)
        if t is ACount:
            raise Budget("endless iterator consumed", self.site())
        if t is Unk:
            raise Unsupported("iteration over unknown value")
        self.type_error(f"'{self.type_of(v).name}' object is not iterable", v)

    def stream_lines(self, v):
        d = self.stream_read(v, -1)
        if isinstance(d, str):
            return d.splitlines(True)
        raise Unsupported("lines of a stream")

    def length(self, v):
        v = self.res(v)
        t = type(v)
        if t in (str, bytes, tuple):
            return len(v)
        if t in (AList, ADict, ASet):
            c = v.c
            if type(c) is ChoiceC:
                return self._clen(c)
            return len(c)
        if t is Rope:
            return v.n
        if t is SStr:
            return blen(v.rope)
        if t is AByteArray:
            return blen(self.con(v))
        if t is ARange:
            return len(range(self.idx(v.start), self.idx(v.stop), self.idx(v.step)))
        if t is AClass and v.enum is not None:
            return len(self.iterate(v))
        if t is AInst:
            f = self.lookup(v.cls, "__len__")
            if f is not UNBOUND:
                return self.call(self.bind(f, v, v.cls), [])
            if v.payload is not None:
                return self.length(v.payload)
        if t is Unk:
            raise Unsupported("length of unknown value")
        self.type_error(f"object of type '{self.type_of(v).name}' has no len()", v)

    def _clen(self, c):
        if type(c) is not ChoiceC:
            return len(c)
        d = self.decide(c.cond)
        if d is not None:
            return self._clen(c.a if d else c.b)
        return T.ite(c.cond, self._clen(c.a), self._clen(c.b))

    # ------------------------------------------------------------------ subscripts
    def slice_ix(self, s, n):
        f = lambda x: None if x is None else self.idx(x)  # noqa: E731
        try:
            return slice(f(s.start), f(s.stop), f(s.step)).indices(n)
        except ValueError as e:
            self.throw("ValueError", str(e))

    def seq_index(self, k, n, what="list"):
        """host index or abstract index term in range"""
        k = self.res(k)
        kn = self.num(k)
        if kn is None and isinstance(k, AInst):
            kn = self.conc(k)
        if kn is None or T.sort_of(kn) == "f":
            self.throw("TypeError", f"{what} indices must be integers or slices, not {self.type_of(k).name}")
        if not T.is_sym(kn):
            kn = int(kn)
            if kn < 0:
                kn += n
            if not 0 <= kn < n:
                self.throw("IndexError", f"{what} index out of range")
            return kn
        kn = T.b2i(kn)
        if T.lo_hi(kn)[0] < 0 and self.want(T.lt(kn, 0)):
            kn = T.add(kn, n)
        ok = T.band(T.le(0, kn), T.lt(kn, n))
        if not self.want(ok):
            self.throw("IndexError", f"{what} index out of range")
        cands = [i for i in range(n) if self.decide(T.eq(kn, i)) is not False] if n <= 300 else None
        if cands is None:
            raise Unsupported("abstract index into a long sequence")
        if len(cands) == 1:
            return cands[0]
        return kn, cands

    def pick(self, items, k, what="list"):
        i = self.seq_index(k, len(items), what)
        if isinstance(i, int):
            return items[i]
        kn, cands = i
        r = items[cands[-1]]
        for j in reversed(cands[:-1]):
            r = self.merge(T.eq(kn, j), items[j], r)
        return r

    def getitem(self, o, k):
        o = self.res(o)
        t = type(o)
        if t is ADict:
            return self.dict_get(o, k)
        if t is AInst:
            f = self.lookup(o.cls, "__getitem__")
            if f is not UNBOUND:
                return self.call(self.bind(f, o, o.cls), [k])
            if o.payload is not None:
                p = o.payload
                if isinstance(p, ADict):
                    v = self.dict_find(p, k)
                    if v is UNBOUND:
                        miss = self.lookup(o.cls, "__missing__")
                        if miss is not UNBOUND:
                            return self.call(self.bind(miss, o, o.cls), [k])
                    return self.dict_get(p, k)
                return self.getitem(p, k)
            self.type_error(f"'{o.cls.name}' object is not subscriptable", o)
        if t is AClass:
            if o.enum is not None:
                m = o.c["__members__"].get(self.res(k))
                if m is None:
                    self.throw("KeyError", k)
                return m
            f = self.lookup(o, "__class_getitem__")
            if f is not UNBOUND and not isinstance(f, Native):
                return self.call(f.f if isinstance(f, AClassMethod) else f, [o, k])
            return o
        if t is TypeGeneric:
            return o
        k = self.res(k)
        if t is tuple or t is AList:
            items = o if t is tuple else self.con(o)
            if isinstance(k, slice):
                a, b, s = self.slice_ix(k, len(items))
                r = items[slice(a, b if not (s < 0 and b < 0) else None, s)]
                return r if t is tuple else AList(list(r))
            return self.pick(items, k, "tuple" if t is tuple else "list")
        if t is bytes or t is Rope or t is AByteArray:
            b = self.con(o) if t is AByteArray else o
            n = blen(b)
            if isinstance(k, slice):
                a, e, s = self.slice_ix(k, n)
                if s == 1:
                    r = bslice(b, a, max(a, e))
                else:
                    r = mkbytes([tuple(bget(b, i) for i in range(a, e, s))])
                return r if t is not AByteArray else AByteArray(r)
            i = self.seq_index(k, n, "index") if n <= 300 or not T.is_sym(self.num(k)) else None
            if isinstance(i, int):
                return bget(b, i)
            return self.pick(bitems(b), k, "index")
        if t is str:
            if isinstance(k, slice):
                a, e, s = self.slice_ix(k, len(o))
                return o[slice(a, e if not (s < 0 and e < 0) else None, s)]
            return self.pick(o, k, "string")
        if t is SStr:
            if isinstance(k, slice):
                a, e, s = self.slice_ix(k, blen(o.rope))
                if s == 1:
                    return mkstr(bslice(o.rope, a, max(a, e)))
                return mkstr(mkbytes([tuple(bget(o.rope, i) for i in range(a, e, s))]))
            i = self.seq_index(k, blen(o.rope), "string")
            if isinstance(i, int):
                return mkstr(bslice(o.rope, i, i + 1))
            raise Unsupported("abstract index into an abstract string")
        if t is ARange:
            items = self.iterate(o)
            if isinstance(k, slice):
                a, e, s = self.slice_ix(k, len(items))
                r = range(self.idx(o.start), self.idx(o.stop), self.idx(o.step))[slice(a, e if not (s < 0 and e < 0) else None, s)]
                return ARange(r.start, r.stop, r.step)
            return self.pick(items, k, "range object")
        if t is Unk:
            raise Unsupported("subscript of unknown value")
        if t in (AFunc, Native):
            return o
        self.type_error(f"'{self.type_of(o).name}' object is not subscriptable", o)

    def setitem(self, o, k, v):
        o = self.res(o)
        t = type(o)
        if t is ADict:
            self.dict_set(o, k, v)
            return
        if t is AInst:
            f = self.lookup(o.cls, "__setitem__")
            if f is not UNBOUND:
                self.call(self.bind(f, o, o.cls), [k, v])
                return
            if o.payload is not None:
                self.setitem(o.payload, k, v)
                return
        if t is AList:
            k = self.res(k)
            items = self.con(o)
            if isinstance(k, slice):
                new = self.iterate(v)
                a, e, s = self.slice_ix(k, len(items))
                l = list(items)
                try:
                    l[slice(a, e if not (s < 0 and e < 0) else None, s)] = new
                except ValueError as ex:
                    self.throw("ValueError", str(ex))
                self.setc(o, l)
                return
            i = self.seq_index(k, len(items), "list assignment")
            c = self.wcon(o)
            if isinstance(i, int):
                c[i] = v
            else:
                kn, cands = i
                for j in cands:
                    c[j] = self.merge(T.eq(kn, j), v, c[j])
            return
        if t is AByteArray:
            b = self.con(o)
            k = self.res(k)
            if isinstance(k, slice):
                a, e, s = self.slice_ix(k, blen(b))
                if s != 1:
                    raise Unsupported("bytearray step assignment")
                self.setc(o, bcat(bslice(b, 0, a), self.as_bytes(v), bslice(b, max(a, e), blen(b))))
                return
            i = self.seq_index(k, blen(b), "bytearray")
            v = self.byteval(v)
            if isinstance(i, int):
                self.setc(o, mkbytes(list(bsegs(bslice(b, 0, i))) + [(v,)] + list(bsegs(bslice(b, i + 1, blen(b))))))
            else:
                items = bitems(b)
                for j in i[1]:
                    items[j] = T.ite(T.eq(i[0], j), v, items[j])
                self.setc(o, mkbytes([tuple(items)]))
            return
        self.type_error(f"'{self.type_of(o).name}' object does not support item assignment", o)

    def delitem(self, o, k):
        o = self.res(o)
        if isinstance(o, AInst):
            f = self.lookup(o.cls, "__delitem__")
            if f is not UNBOUND:
                self.call(self.bind(f, o, o.cls), [k])
                return
            if o.payload is not None:
                o = o.payload
        if isinstance(o, ADict):
            self.dict_del(o, k)
            return
        if isinstance(o, AList):
            k = self.res(k)
            items = self.con(o)
            if isinstance(k, slice):
                a, e, s = self.slice_ix(k, len(items))
                l = list(items)
                del l[slice(a, e if not (s < 0 and e < 0) else None, s)]
                self.setc(o, l)
                return
            i = self.seq_index(k, len(items), "list assignment")
            if not isinstance(i, int):
                i = self.idx(i[0])
            l = list(items)
            del l[i]
            self.setc(o, l)
            return
        if isinstance(o, AByteArray):
            b = self.con(o)
            k = self.res(k)
            if isinstance(k, slice):
                a, e, s = self.slice_ix(k, blen(b))
            else:
                a = self.seq_index(k, blen(b), "bytearray")
                e = a + 1
            self.setc(o, bcat(bslice(b, 0, a), bslice(b, max(a, e), blen(b))))
            return
        self.type_error(f"'{self.type_of(o).name}' object doesn't support item deletion", o)

    def contains(self, c, v):
        c = self.res(c)
        t = type(c)
        if t is AInst:
            f = self.lookup(c.cls, "__contains__")
            if f is not UNBOUND:
                return self.truth(self.call(self.bind(f, c, c.cls), [v]))
            if c.payload is not None:
                c = c.payload
                t = type(c)
        if t is ADict or t is ASet:
            v = self.res(v)
            hk = self.hkey(v)
            cc = self.con(c)
            if hk in cc:
                return True
            r = False
            sym = isinstance(hk, SymKey)
            for h2, e in cc.items():
                if sym or isinstance(h2, SymKey):
                    r = T.bor(r, self.eq(e[0] if t is ADict else e, v))
                    if r is True:
                        return True
            return r
        if t is str or t is SStr:
            v = self.res(v)
            if not is_str(v):
                self.throw("TypeError", "'in <string>' requires string as left operand")
            if t is str and isinstance(v, str):
                return v in c
            if t is str and blen(srope(v)) == 1:
                x = bget(srope(v), 0)
                r = False
                for ch in set(c):
                    r = T.bor(r, T.eq(x, ord(ch)))
                return r
            return self._subrope(srope(c), srope(v))
        if t in (bytes, Rope, AByteArray):
            b = self.con(c) if t is AByteArray else c
            v = self.res(v)
            n = self.num(v)
            if n is not None:
                r = False
                for x in bitems(b):
                    r = T.bor(r, T.eq(x, n))
                return r
            if isinstance(b, bytes) and isinstance(v, bytes):
                return v in b
            return self._subrope(b, self.as_bytes(v))
        if t is ARange:
            n = self.num(self.res(v))
            if n is None:
                return False
            lo, hi, st = (self.idx(x) for x in (c.start, c.stop, c.step))
            if not T.is_sym(n):
                return n in range(lo, hi, st)
            if T.sort_of(n) == "f":
                raise Unsupported("float in range")
            if st == 1:
                return T.band(T.le(lo, n), T.lt(n, hi))
            r = False
            for x in range(lo, hi, st):
                r = T.bor(r, T.eq(n, x))
            return r
        if t is AClass and c.enum is not None:
            v = self.res(v)
            r = False
            for m in c.c["__members__"].values():
                r = T.bor(r, self.eq(m, v))
            return r
        if t in (EnumMember, EnumTerm) and c.cls.enum in ("flag", "pflag"):
            v = self.res(v)
            x = v.value if type(v) is EnumMember else self.num(v)
            y = c.value if t is EnumMember else c.term
            return T.eq(T.i_and(x, y), x)
        r = False
        for x in self.iterate(c):
            e = True if x is v else self.eq(x, v)
            r = T.bor(r, e)
            if r is True:
                return True
        return r

    def _subrope(self, b, p):
        n, k = blen(b), blen(p)
        if n > 400:
            raise Unsupported("substring search in a long abstract string")
        r = False
        for i in range(n - k + 1):
            r = T.bor(r, beq(bslice(b, i, i + k), p))
        return r

    # ------------------------------------------------------------------ bytes
    def byteval(self, v):
        v = self.res(v)
        n = self.num(v)
        if n is None or T.sort_of(n) == "f":
            self.throw("TypeError", f"'{self.type_of(v).name}' object cannot be interpreted as an integer")
        n = T.b2i(n)
        if not T.is_sym(n):
            if not 0 <= n <= 255:
                self.throw("ValueError", "bytes must be in range(0, 256)")
            return n
        lo, hi = T.lo_hi(n)
        if lo < 0 or hi > 255:
            if not self.want(T.band(T.le(0, n), T.le(n, 255))):
                self.throw("ValueError", "bytes must be in range(0, 256)")
            return T.mkbv(T.low_bits(n, 8))
        return n

    def as_bytes(self, v):
        v = self.res(v)
        if isinstance(v, (bytes, Rope)):
            return v
        if isinstance(v, AByteArray):
            return self.con(v)
        if isinstance(v, AInst) and v.payload is not None:
            return self.as_bytes(v.payload)
        if isinstance(v, Unk):
            raise Unsupported("unknown bytes")
        self.throw("TypeError", f"a bytes-like object is required, not '{self.type_of(v).name}'")

    def mkbytes_from(self, args, kw):
        args = list(args) or ([kw["source"]] if "source" in kw else [])
        if not args:
            return b""
        v = self.res(args[0])
        enc = self.res(args[1]) if len(args) > 1 else self.res(kw.get("encoding"))
        errors = self.res(args[2]) if len(args) > 2 else self.res(kw.get("errors"))
        if is_str(v):
            if enc is None:
                self.throw("TypeError", "string argument without an encoding")
            return self.encode(v, enc, errors or "strict")
        if (enc is not None or errors is not None) and not isinstance(v, Unk):
            self.throw("TypeError", "encoding without a string argument")
        n = self.num(v)
        if n is not None:
            if T.sort_of(n) == "f":
                self.throw("TypeError", "cannot convert 'float' object to bytes")
            n = self.idx(n)
            if n < 0:
                self.throw("ValueError", "negative count")
            return bytes(n)
        if isinstance(v, (bytes, Rope, AByteArray)):
            return self.as_bytes(v)
        if isinstance(v, AInst):
            f = self.lookup(v.cls, "__bytes__")
            if f is not UNBOUND:
                return self.call(self.bind(f, v, v.cls), [])
        return mkbytes([tuple(self.byteval(x) for x in self.iterate(v))])

    def encode(self, s, enc="utf-8", errors="strict"):
        if isinstance(s, str):
            try:
                return s.encode(enc, errors)
            except UnicodeEncodeError as e:
                self.throw("UnicodeEncodeError", str(e))
            except LookupError as e:
                self.throw("LookupError", str(e))
        if isinstance(s, Unk):
            raise Unsupported("encode unknown string")
        e = enc.lower().replace("_", "-")
        lim = 255 if e in ("latin1", "latin-1", "iso-8859-1", "l1") else 127
        out = []
        for seg in s.rope.segs:
            if type(seg) is OSeg:
                if lim == 255:
                    out.append(seg)
                    continue
                seg = tuple(T.obyte(seg.label, seg.off + k) for k in range(seg.n))
            for x in seg:
                if self.want(T.le(x, lim)):
                    out.append((x,))
                elif lim == 255 or e == "ascii":
                    self.throw("UnicodeEncodeError", "ordinal not in range")
                elif T.lo_hi(x)[1] <= 0x7FF:
                    out.append((T.i_or(0xC0, T.i_shr(x, 6)), T.i_or(0x80, T.i_and(x, 0x3F))))
                else:
                    raise Unsupported("encoding of abstract text")
        return mkbytes(out)

    def decode(self, b, enc="utf-8", errors="strict"):
        if isinstance(b, bytes):
            try:
                return b.decode(enc, errors)
            except UnicodeDecodeError as e:
                self.throw("UnicodeDecodeError", str(e))
            except LookupError as e:
                self.throw("LookupError", str(e))
        e = enc.lower().replace("_", "-")
        if e in ("latin1", "latin-1", "iso-8859-1", "l1"):
            return mkstr(b)
        items = bitems(b)
        out = []
        for x in items:
            if self.want(T.le(x, 127)):
                out.append(x)
            elif e == "ascii":
                self.throw("UnicodeDecodeError", "ordinal not in range(128)")
            else:
                raise Unsupported("utf-8 decoding of abstract bytes")
        return mkstr(mkbytes([tuple(out)]))

    # ------------------------------------------------------------------ sequences and operators
    def seqop(self, op, a, b):
        if op == "add":
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, AList) and isinstance(b, AList):
                return AList(list(self.con(a)) + list(self.con(b)))
            if is_str(a) and is_str(b):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return mkstr(bcat(srope(a), srope(b)))
            if (is_bytes(a) or isinstance(a, AByteArray)) and (is_bytes(b) or isinstance(b, AByteArray)):
                r = bcat(self.as_bytes(a), self.as_bytes(b))
                return AByteArray(r) if isinstance(a, AByteArray) else r
        elif op == "mul":
            if self.num(a) is not None:
                a, b = b, a
            n = self.num(b)
            if n is not None and T.sort_of(n) != "f" and (isinstance(a, (tuple, AList, AByteArray)) or is_str(a) or is_bytes(a)):
                k = max(0, self.idx(n))
                if isinstance(a, (tuple, str, bytes)):
                    return a * k
                if isinstance(a, AList):
                    return AList(list(self.con(a)) * k)
                if isinstance(a, Rope):
                    return bcat(*[a] * k)
                if isinstance(a, SStr):
                    return mkstr(bcat(*[a.rope] * k))
                return AByteArray(bcat(*[self.con(a)] * k))
        elif op == "mod" and is_str(a):
            return self.percent(a, b)
        elif op == "mod" and is_bytes(a):
            raise Unsupported("bytes formatting")
        elif op == "or" and isinstance(a, ADict) and isinstance(b, ADict):
            d = ADict(dict(self.con(a)))
            self.dict_update(d, b)
            return d
        elif op in ("or", "and", "sub", "xor") and any(isinstance(x, ASet) or (isinstance(x, AList) and x.view) for x in (a, b)):
            a, b = self.view_set(a), self.view_set(b)
            if op == "or":
                s = ASet(dict(self.con(a)) if isinstance(a, ASet) else {}, getattr(a, "frozen", False))
                if not isinstance(a, ASet):
                    for x in self.iterate(a):
                        self.set_add(s, x)
                for x in self.iterate(b):
                    self.set_add(s, x)
                return s
            s = ASet({}, getattr(a, "frozen", False))
            la, lb = self.iterate(a), self.iterate(b)
            if op == "and":
                for x in la:
                    if self.want(self.contains(b, x)):
                        self.set_add(s, x)
            else:
                for x in la:
                    if not self.want(self.contains(b, x)):
                        self.set_add(s, x)
                if op == "xor":
                    for x in lb:
                        if not self.want(self.contains(a, x)):
                            self.set_add(s, x)
            return s
        elif op == "or" and (isinstance(a, (AClass, TypeGeneric)) or isinstance(b, (AClass, TypeGeneric))):
            return (a if isinstance(a, tuple) else (a,)) + (b if isinstance(b, tuple) else (b,)) if all(
                isinstance(x, (AClass, tuple)) or x is None for x in (a, b)
            ) else TypeGeneric("Union")
        return UNBOUND

    def percent(self, a, b):
        args = b if isinstance(b, tuple) else (b,)
        args = tuple(self.res(x) for x in args)
        if isinstance(a, str) and "%r" not in a and "%a" not in a:
            # members of integer enumerations format as their value
            args = tuple(x.value if type(x) is EnumMember and x.cls.enum == "int" else x for x in args)
            if not isinstance(b, ADict) and any(not isinstance(x, (int, float, str)) for x in args):
                spec = re.findall(r"%[^a-zA-Z%]*[a-zA-Z%]", a)
                spec = [x for x in spec if x != "%%"]
                if len(spec) == len(args):
                    args = tuple(self.str_(x) if p == "%s" else x for p, x in zip(spec, args))
        if isinstance(a, str) and all(isinstance(x, (int, float, str)) for x in args):
            try:
                return a % tuple(args)
            except (TypeError, ValueError) as e:
                self.throw(type(e).__name__, str(e))
        return Unk("str")

    # ------------------------------------------------------------------ text
    def str_(self, v):
        v = self.res(v)
        if is_str(v):
            return v
        if isinstance(v, AInst):
            f = self.lookup(v.cls, "__str__")
            if f is not UNBOUND:
                return self.call(self.bind(f, v, v.cls), [])
            if v.cls.isexc:
                a = self.con(v).get("args", ())
                if len(a) == 1 and self.classes["KeyError"] in v.cls.mro:
                    return self.repr_(a[0])
                return "" if not a else self.str_(a[0]) if len(a) == 1 else self.repr_(a)
            if v.payload is not None and self.lookup(v.cls, "__repr__") is UNBOUND:
                return self.str_(v.payload)
        return self.repr_(v)

    def repr_(self, v):
        v = self.res(v)
        t = type(v)
        if t in (int, float, str, bytes, bool) or v is None:
            return repr(v)
        if t is AInst:
            f = self.lookup(v.cls, "__repr__")
            if f is not UNBOUND:
                return self.call(self.bind(f, v, v.cls), [])
            return Unk("str")
        if t is EnumMember:
            return f"<{v.cls.name}.{v.name}: {v.value!r}>" if v.cls.enum not in ("int", "flag") else f"<{v.cls.name}.{v.name}: {v.value!r}>"
        if t is AClass:
            return f"<class '{v.name}'>"
        if t in (tuple, AList):
            its = [self.repr_(x) for x in (v if t is tuple else self.con(v))]
            if all(isinstance(x, str) for x in its):
                if t is tuple:
                    return "(" + ", ".join(its) + ("," if len(its) == 1 else "") + ")"
                return "[" + ", ".join(its) + "]"
        if t is ADict:
            its = [(self.repr_(k), self.repr_(x)) for k, x in self.dict_items(v)]
            if all(isinstance(x, str) for p in its for x in p):
                return "{" + ", ".join(k + ": " + x for k, x in its) + "}"
        return Unk("str")

    def format_(self, v, spec=""):
        v = self.res(v)
        if isinstance(v, (EnumMember,)) and v.cls.c["_intlike_"]:
            v = v.value
        if isinstance(v, (int, float, str)) and isinstance(spec, str):
            try:
                return format(v, spec)
            except ValueError as e:
                self.throw("ValueError", str(e))
        if spec == "":
            return self.str_(v)
        return Unk("str")

    # ------------------------------------------------------------------ streams
    def sdata(self, s):
        data, pos, closed = self.con(s)
        if closed:
            self.throw("ValueError", "I/O operation on closed file.")
        if s.path is not None:
            fs = self.con(self.fs)
            data = fs.get(s.path, b"")
            data = self.res(data)
        return data, pos

    def sput(self, s, data, pos):
        if s.path is not None:
            self.wcon(self.fs)[s.path] = data
            self.setc(s, (b"", pos, False))
        else:
            self.setc(s, (data, pos, False))

    def stream_read(self, s, n=-1):
        data, pos = self.sdata(s)
        if "r" not in s.mode and "+" not in s.mode:
            self.throw("UnsupportedOperation", "not readable")
        n = None if n is None else self.idx(n)
        if is_str(data) or isinstance(data, JText):
            if isinstance(data, JText):
                self.setc(s, (self.con(s)[0], 1 << 20, False))
                return data if pos == 0 else ""
            r = data[pos:] if n is None or n < 0 else data[pos : pos + n]
            self.setc(s, (self.con(s)[0], pos + len(r), False))
            return r
        end = blen(data)
        e = end if n is None or n < 0 else min(end, pos + n)
        r = bslice(data, min(pos, end), max(e, min(pos, end)))
        self.setc(s, (self.con(s)[0], pos + blen(r), False))
        return r

    def stream_write(self, s, b):
        data, pos = self.sdata(s)
        if "w" not in s.mode and "+" not in s.mode and "a" not in s.mode and "x" not in s.mode:
            self.throw("UnsupportedOperation", "not writable")
        if s.kind in ("StringIO", "TextIOWrapper"):
            return self.text_write(s, data, pos, b)
        b = self.as_bytes(b)
        n, k = blen(data), blen(b)
        if k == 0:
            return 0
        if pos == n:
            nd = bappend(data, b)
        elif pos > n:
            nd = bcat(data, bytes(pos - n), b)
        else:
            nd = bcat(bslice(data, 0, pos), b, bslice(data, pos + k, n))
        self.sput(s, nd, pos + k)
        return k

    def text_write(self, s, data, pos, b):
        if isinstance(b, (JText, Unk)) or isinstance(data, (JText, Unk)):
            if data in ("", b"") or (isinstance(data, JText) and isinstance(b, str) and b.strip() == ""):
                self.sput(s, b if isinstance(b, (JText, Unk)) else data, 1)
            else:
                self.sput(s, Unk("str"), 1)
            return 1
        if not is_str(b):
            self.throw("TypeError", "write() argument must be str")
        data = "" if data == b"" else data
        self.sput(s, self.seqop("add", data, b), pos + self.length(b))
        return self.length(b)

    def open_(self, path, mode="r", *a, **kw):
        path = self.res(path)
        if isinstance(path, AInst):
            path = self.call(self.getattr_(path, "__fspath__"), [])
        if not isinstance(path, str):
            raise Unsupported("path")
        fs = self.con(self.fs)
        text = "b" not in mode
        if "r" in mode:
            if path not in fs:
                self.throw("FileNotFoundError", path)
        elif "x" in mode:
            if path in fs:
                self.throw("FileExistsError", path)
            self.wcon(self.fs)[path] = b""
        elif "w" in mode:
            self.wcon(self.fs)[path] = b""
        elif "a" in mode and path not in fs:
            self.wcon(self.fs)[path] = b""
        self.extra.setdefault("opens", []).append((path, mode))
        s = AStream(b"", path, mode, "TextIOWrapper" if text else ("BufferedRandom" if "+" in mode else "BufferedReader" if "r" in mode else "BufferedWriter"))
        if "a" in mode:
            d = self.con(self.fs)[path]
            s.c = (b"", len(d) if isinstance(d, str) else blen(d), False)
        return s

    # ------------------------------------------------------------------ attributes of builtin values
    def native_attr(self, o, name, self_):
        t = type(o)
        if t is AStream and name in ("closed", "name", "mode", "raw", "buffer"):
            if name == "closed":
                return self.con(o)[2]
            if name == "name":
                return o.path
            if name == "mode":
                return o.mode
            return o
        if t is ARange and name in ("start", "stop", "step"):
            return getattr(o, name)
        if t is slice and name == "indices":
            return Native("indices", lambda m, n: o.indices(m.idx(n)) if all(x is None or type(x) is int for x in (o.start, o.stop, o.step)) else unmodelled("slice.indices").fn(m))
        if t is slice and name in ("start", "stop", "step"):
            return getattr(o, name)
        if t is ADecomp and name in ("eof", "unused_data", "unconsumed_tail"):
            d, eof, unused = self.con(o)[:3]
            return eof if name == "eof" else unused if name == "unused_data" else b""
        if name == "__class__":
            return self.type_of(self_)
        if name == "__doc__":
            return None
        n = self.num(o) if t not in (EnumMember, EnumTerm) or o.cls.c["_intlike_"] else None
        if n is not None:
            s = T.sort_of(n)
            if name in ("real", "numerator"):
                return T.b2i(n)
            if name in ("imag",):
                return 0
            if name == "denominator" and s != "f":
                return 1
            tab = self.methods["float" if s == "f" else "int"]
        else:
            tab = self.methods.get(self._tname(o))
        if tab is not None:
            f = tab.get(name)
            if f is not None:
                return Native(name, lambda m, *a, **k: f(m, o, *a, **k), name in RAW)
        d = DUNDER.get(name)
        if d is not None and self._has_dunder(o, name):
            return Native(name, lambda m, *a: d(m, o, *a))
        return UNBOUND

    def _tname(self, o):
        t = type(o)
        return {
            str: "str", SStr: "str", bytes: "bytes", Rope: "bytes", tuple: "tuple", AList: "list", ADict: "dict",
            ASet: "set", AByteArray: "bytearray", AStream: "stream", AIter: "iter", ACount: "iter", ADecomp: "decomp",
            ARange: "range", float: "float", slice: "slice",
        }.get(t)

    def _has_dunder(self, o, name):
        n = self._tname(o)
        if name in ("__len__", "__iter__", "__contains__"):
            return n in ("str", "bytes", "tuple", "list", "dict", "set", "bytearray", "range")
        if name in ("__getitem__",):
            return n in ("str", "bytes", "tuple", "list", "dict", "bytearray", "range")
        if name in ("__setitem__", "__delitem__"):
            return n in ("list", "dict", "bytearray")
        return True

    def native_class_attr(self, cls, name):
        nat = cls.native
        if nat == "bytes" and name == "fromhex":
            return Native("fromhex", lambda m, s: bytes.fromhex(s))
        if nat == "int" and name == "from_bytes":
            return Native("from_bytes", lambda m, b, byteorder="big", signed=False: m.from_bytes(b, byteorder, signed))
        if nat == "dict" and name == "fromkeys":

            def fromkeys(m, ks, v=None):
                d = ADict()
                for k in m.iterate(ks):
                    m.dict_set(d, k, v)
                return d

            return Native("fromkeys", fromkeys)
        if nat == "str" and name == "maketrans":
            raise Unsupported("maketrans")
        tabs = {"frozenset": "set", "BytesIO": "stream", "StringIO": "stream", "bool": "int"}
        tab = self.methods.get(tabs.get(nat, nat))
        if tab is not None and name in tab:
            f = tab[name]
            return Native(name, lambda m, o, *a, **k: f(m, m.pay(o), *a, **k), name in RAW)
        d = DUNDER.get(name)
        if d is not None:
            return Native(name, lambda m, o, *a: d(m, m.pay(o), *a))
        if name == "__init__":
            return Native(name, lambda m, o, *a, **k: m.native_init(o, a, k))
        if name == "__new__":
            return Native(name, lambda m, c, *a, **k: m.native_new(c, list(a), k))
        return UNBOUND

    def native_init(self, o, a, k):
        return None

    def from_bytes(self, b, order="big", signed=False):
        b = self.res(b)
        items = bitems(self.as_bytes(b)) if not isinstance(b, (AList, tuple, AIter)) else [self.byteval(x) for x in self.iterate(b)]
        if order == "big":
            items.reverse()
        elif order != "little":
            self.throw("ValueError", "byteorder must be either 'little' or 'big'")
        if not any(T.is_sym(x) for x in items):
            return int.from_bytes(bytes(items), "little", signed=bool(signed))
        bits = []
        for x in items:
            bits.extend(T.low_bits(x, 8))
        sign = False
        if self.want(self.truth(signed)) and bits:
            sign = bits.pop()
        return T.mkbv(bits, sign)

    def to_bytes(self, v, n=1, order="big", signed=False):
        n = self.idx(n)
        v = T.b2i(self.num(v))
        signed = self.want(self.truth(signed))
        if n < 0:
            self.throw("ValueError", "length argument must be non-negative")
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed and n else (0, (1 << (8 * n)) - 1)
        if not T.is_sym(v):
            try:
                return int(v).to_bytes(n, order, signed=signed)
            except OverflowError as e:
                self.throw("OverflowError", str(e))
        a, b = T.lo_hi(v)
        if a < lo or b > hi:
            if not self.want(T.band(T.le(lo, v), T.le(v, hi))):
                self.throw("OverflowError", "int too big to convert")
        bits = T.low_bits(v, 8 * n)
        items = [T.mkbv(bits[8 * i : 8 * i + 8]) for i in range(n)]
        if order == "big":
            items.reverse()
        return mkbytes([tuple(items)])

    # ------------------------------------------------------------------ construction
    def native_new(self, cls, args, kw):
        nat = cls.native
        if nat is None:
            o = AInst(cls)
            if cls.isexc:
                o.c["args"] = tuple(args)
            return o
        user = cls is not self.classes.get(nat)
        f = self.ctors.get(nat)
        if f is None:
            if nat in ("object", "iface"):
                o = AInst(cls)
                return o
            raise Unsupported(f"construction of {nat}")
        if user:
            init = self.lookup(cls, "__init__")
            if init is not UNBOUND and not isinstance(init, Native) and nat in ("dict", "list", "set"):
                p = f(self)
            else:
                p = f(self, *args, **kw)
            return AInst(cls, p)
        return f(self, *args, **kw)

    def mk_builtins(self):
        from . import builtins_

        builtins_.install(self)


class _LiveList(_Live, list):
    def __init__(self, o):
        list.__init__(self)
        self.o = o


class _GetNext:
    """iteration through __getitem__"""

    def __init__(self, o):
        self.o = o
        self.pos = AIter([], None)

    def next(self, m):
        i = m.con(self.pos)[1]
        try:
            v = m.getitem(self.o, i)
        except Raised as e:
            if m.classes["IndexError"] in e.exc.cls.mro:
                return UNBOUND
            raise
        m.setc(self.pos, ([], i + 1))
        return v


class JText:
    """JSON text of a value (kept as the value it denotes)"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def bappend(a, b):
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a + b
    sa, sb = bsegs(a), bsegs(b)
    if not sa:
        return b
    if not sb:
        return a
    mid = mkbytes([sa[-1]] + list(sb))
    segs = tuple(sa[:-1]) + tuple(bsegs(mid))
    return Rope(segs, blen(a) + blen(b)) if not (len(segs) == 1 and type(segs[0]) is bytes) else segs[0]


RAW = {"append", "insert", "setdefault", "extend", "fromkeys"}
DUNDER = {
    "__len__": lambda m, o: m.length(o),
    "__getitem__": lambda m, o, k: m.getitem(o, k),
    "__setitem__": lambda m, o, k, v: m.setitem(o, k, v),
    "__delitem__": lambda m, o, k: m.delitem(o, k),
    "__contains__": lambda m, o, k: m.contains(o, k),
    "__iter__": lambda m, o: m.mkiter(o),
    "__eq__": lambda m, o, x: m.eqv(o, x),
    "__ne__": lambda m, o, x: m.eqv(o, x, True),
    "__hash__": lambda m, o: m.hash_(o),
    "__repr__": lambda m, o: m.repr_(o),
    "__str__": lambda m, o: m.str_(o),
    "__add__": lambda m, o, x: m.binop("add", o, x),
    "__mul__": lambda m, o, x: m.binop("mul", o, x),
    "__sub__": lambda m, o, x: m.binop("sub", o, x),
    "__lt__": lambda m, o, x: m.order(ast.Lt, o, x),
    "__le__": lambda m, o, x: m.order(ast.LtE, o, x),
    "__gt__": lambda m, o, x: m.order(ast.Gt, o, x),
    "__ge__": lambda m, o, x: m.order(ast.GtE, o, x),
}
