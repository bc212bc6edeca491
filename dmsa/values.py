"""Abstract values of the analysed program (everything except scalars, see terms.py)."""

from __future__ import annotations

from . import terms as T


class Unsupported(Exception):
    """The analysis does not model a construct; the case is reported as undecided."""


class SplitRequest(Exception):
    """A decision is needed on an undetermined condition: the innermost statement is analysed per side."""

    def __init__(self, cond):
        super().__init__("split")
        self.cond = cond


class Raised(Exception):
    """An exception of the analysed program propagates."""

    def __init__(self, exc, site=None):
        super().__init__("raised")
        self.exc = exc
        self.site = site


# --------------------------------------------------------------------------- heap
SERIAL = [0]


class Obj:
    __slots__ = ("serial", "c")

    def __init__(self, c):
        SERIAL[0] += 1
        self.serial = SERIAL[0]
        self.c = c

    def snap(self):
        c = self.c
        t = type(c)
        if t is dict:
            return dict(c)
        if t is list:
            return list(c)
        return c


class AList(Obj):
    """c: host list; view: the pairs of a dict (compared and combined like a set)"""

    __slots__ = ("view",)

    def __init__(self, c, view=False):
        Obj.__init__(self, c)
        self.view = view


class ADict(Obj):
    """c: host dict  hkey -> (key, value); owner: the object or module whose attributes these are"""

    __slots__ = ("default", "kind", "owner")

    def __init__(self, c=None):
        Obj.__init__(self, {} if c is None else c)
        self.default = None
        self.kind = "dict"
        self.owner = None


class ASet(Obj):
    """c: host dict hkey -> key; view: the keys of a dict, walked in order"""

    __slots__ = ("frozen", "view")

    def __init__(self, c=None, frozen=False, view=False):
        Obj.__init__(self, {} if c is None else c)
        self.frozen = frozen
        self.view = view


class AByteArray(Obj):
    """c: rope / bytes"""

    __slots__ = ()


class AIter(Obj):
    """c: (items | None, pos); thunk produces the items on first use, step(pos) one after the other (UNBOUND at the end);
    drive(hook) runs the body of a generator and calls the hook at each yield"""

    __slots__ = ("thunk", "gen", "step", "drive")

    def __init__(self, items, thunk=None, gen=False, step=None, drive=None):
        Obj.__init__(self, (items, 0))
        self.thunk = thunk
        self.gen = gen
        self.step = step
        self.drive = drive


class AStream(Obj):
    """binary/text stream; c: (data, pos, closed)"""

    __slots__ = ("path", "mode", "kind", "buffered")

    def __init__(self, data=b"", path=None, mode="r+b", kind="BytesIO"):
        Obj.__init__(self, (data, 0, False))
        self.path, self.mode, self.kind = path, mode, kind
        self.buffered = True


class AFs(Obj):
    """abstract file system; c: {path: data}"""

    __slots__ = ()


class AInst(Obj):
    __slots__ = ("cls", "payload")

    def __init__(self, cls, payload=None):
        Obj.__init__(self, {})
        self.cls = cls
        self.payload = payload

    def __repr__(self):
        return f"<{self.cls.name}>"


class AClass(Obj):
    __slots__ = ("name", "bases", "mro", "module", "node", "native", "enum", "meta", "dcfields", "isexc", "qual")

    def __init__(self, name, bases, ns, module=None):
        Obj.__init__(self, ns)
        self.name = self.qual = name
        self.bases = bases
        self.module = module
        self.native = None
        self.enum = None
        self.meta = None
        self.dcfields = None
        self.node = None
        self.mro = c3(self)
        self.isexc = any(b.isexc for b in bases)
        for b in self.mro[1:]:
            if b.native is not None and self.native is None:
                self.native = b.native
            if b.enum is not None and self.enum is None:
                self.enum = b.enum

    def __repr__(self):
        return f"<class {self.name}>"


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported("inconsistent mro")
        out.append(h)
        for s in seqs:
            if s[0] is h:
                del s[0]


class AModule(Obj):
    __slots__ = ("name", "path")

    def __init__(self, name, path, ns):
        Obj.__init__(self, ns)
        self.name, self.path = name, path

    def __repr__(self):
        return f"<module {self.name}>"


class Env(Obj):
    __slots__ = ("parent", "fn", "kind", "module", "yields", "hook", "info")

    def __init__(self, parent, module, info, kind="f"):
        Obj.__init__(self, {})
        self.parent, self.module, self.info, self.kind = parent, module, info, kind
        self.fn = None
        self.yields = None
        self.hook = None


class AFunc:
    __slots__ = ("node", "env", "defaults", "kwdefaults", "module", "name", "qual", "cls", "info", "attrs", "isgen")

    def __init__(self, node, env, module, name, qual, info):
        self.node, self.env, self.module, self.name, self.qual, self.info = node, env, module, name, qual, info
        self.defaults = []
        self.kwdefaults = {}
        self.cls = None
        self.attrs = None
        self.isgen = False

    def __repr__(self):
        return f"<function {self.qual}>"


class AMethod:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Native:
    __slots__ = ("name", "fn", "raw")

    def __init__(self, name, fn, raw=False):
        self.name, self.fn, self.raw = name, fn, raw

    def __repr__(self):
        return f"<native {self.name}>"


class AProperty:
    __slots__ = ("fget", "fset", "fdel", "doc")

    def __init__(self, fget=None, fset=None, fdel=None, doc=None):
        self.fget, self.fset, self.fdel, self.doc = fget, fset, fdel, doc


class AStatic:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class AClassMethod:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ASuper:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ARange:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class EnumMember:
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class EnumTerm:
    """member of an integer enumeration given by an abstract number"""

    __slots__ = ("cls", "term")

    def __init__(self, cls, term):
        self.cls, self.term = cls, term

    def __repr__(self):
        return f"{self.cls.name}({T.tstr(self.term)})"


class Choice:
    """guarded value: a if cond else b"""

    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return f"Choice({self.a!r}|{self.b!r})"


class ChoiceC(Choice):
    """guarded content of a heap object"""

    __slots__ = ()


class _Sing:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNBOUND = _Sing("<unbound>")


class Unk:
    """a value about which nothing is known beyond its kind"""

    __slots__ = ("kind",)

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return f"<some {self.kind}>"


class TypeGeneric:
    """typing constructs: subscriptable, callable, inert"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"typing.{self.name}"


# --------------------------------------------------------------------------- byte ropes
class OSeg:
    """bytes [off, off+n) of the opaque byte string `label`"""

    __slots__ = ("label", "off", "n")

    def __init__(self, label, off, n):
        self.label, self.off, self.n = label, off, n

    def __len__(self):
        return self.n

    def __repr__(self):
        return f"{self.label}[{self.off}:{self.off + self.n}]"


class Rope:
    """segments: host bytes | OSeg | tuple of abstract bytes"""

    __slots__ = ("segs", "n")

    def __init__(self, segs, n):
        self.segs, self.n = segs, n

    def __repr__(self):
        return "b<" + "+".join(repr(s) for s in self.segs[:12]) + (f"...({self.n})" if len(self.segs) > 12 else "") + ">"


def _norm(segs):
    out = []
    for s in segs:
        if len(s) == 0:
            continue
        if type(s) is tuple:
            run = []
            for x in s:
                if T.is_sym(x):
                    run.append(x)
                else:
                    if run:
                        _push(out, tuple(run))
                        run = []
                    if isinstance(x, (int, bool)) and 0 <= x <= 255:
                        _push(out, bytes((int(x),)))
                    else:
                        _push(out, (x,))
            if run:
                _push(out, tuple(run))
        else:
            _push(out, s)
    return out


def _push(out, s):
    if type(s) is tuple:
        # recognise whole opaque bytes
        if any(T.obyte_of(x) is not None for x in s):
            for x in s:
                ob = T.obyte_of(x)
                if ob is not None:
                    _push2(out, OSeg(ob[0], ob[1], 1))
                else:
                    _push2(out, (x,))
            return
    _push2(out, s)


def _push2(out, s):
    if out:
        p = out[-1]
        if type(p) is type(s):
            if type(s) is bytes or type(s) is tuple:
                out[-1] = p + s
                return
            if p.label == s.label and p.off + p.n == s.off:
                out[-1] = OSeg(p.label, p.off, p.n + s.n)
                return
    out.append(s)


def mkbytes(segs):
    segs = _norm(segs)
    if not segs:
        return b""
    if len(segs) == 1 and type(segs[0]) is bytes:
        return segs[0]
    return Rope(tuple(segs), sum(len(s) for s in segs))


def bsegs(b):
    if isinstance(b, bytes):
        return (b,) if b else ()
    return b.segs


def blen(b):
    return len(b) if isinstance(b, bytes) else b.n


def bcat(*bs):
    segs = []
    for b in bs:
        segs.extend(bsegs(b))
    return mkbytes(segs)


def bslice(b, i, j):
    if isinstance(b, bytes):
        return b[i:j]
    n = b.n
    i = max(0, min(i, n))
    j = max(i, min(j, n))
    if i == 0 and j == n:
        return b
    out = []
    p = 0
    for s in b.segs:
        m = len(s)
        lo, hi = max(i - p, 0), min(j - p, m)
        if lo < hi:
            if type(s) is OSeg:
                out.append(OSeg(s.label, s.off + lo, hi - lo))
            else:
                out.append(s[lo:hi])
        p += m
        if p >= j:
            break
    return mkbytes(out)


def bget(b, i):
    if isinstance(b, bytes):
        return b[i]
    p = 0
    for s in b.segs:
        m = len(s)
        if i < p + m:
            if type(s) is OSeg:
                return T.obyte(s.label, s.off + i - p)
            return s[i - p]
        p += m
    raise IndexError


def bitems(b):
    if isinstance(b, bytes):
        return list(b)
    if b.n > 20000:
        raise Unsupported("byte-wise use of a large opaque string")
    out = []
    for s in b.segs:
        if type(s) is OSeg:
            out.extend(T.obyte(s.label, s.off + k) for k in range(s.n))
        else:
            out.extend(s)
    return out


def bkey(b):
    """canonical host-hashable key of a byte string"""
    if isinstance(b, bytes):
        return b
    k = []
    for s in b.segs:
        if type(s) is bytes:
            k.append(s)
        elif type(s) is OSeg:
            k.append(("o", s.label, s.off, s.n))
        else:
            k.append(("t",) + tuple(id(x) if T.is_sym(x) else x for x in s))
    return SymKey(k)


class SymKey(tuple):
    """host key of a value that contains abstract parts"""

    __slots__ = ()

    def __new__(cls, parts):
        return tuple.__new__(cls, parts)


def beq(a, b):
    """equality of byte strings as an abstract boolean"""
    if blen(a) != blen(b):
        return False
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a == b
    if bkey(a) == bkey(b):
        return True
    r = True
    i = 0
    n = blen(a)
    sa, sb = list(bsegs(a)), list(bsegs(b))
    ia = ib = oa = ob = 0
    while i < n:
        p, q = sa[ia], sb[ib]
        m = min(len(p) - oa, len(q) - ob)
        if type(p) is OSeg and type(q) is OSeg and p.label == q.label and p.off + oa == q.off + ob:
            pass
        elif type(p) is bytes and type(q) is bytes:
            if p[oa : oa + m] != q[ob : ob + m]:
                return False
        else:
            for k in range(min(m, 16)):
                x = T.obyte(p.label, p.off + oa + k) if type(p) is OSeg else p[oa + k]
                y = T.obyte(q.label, q.off + ob + k) if type(q) is OSeg else q[ob + k]
                r = T.band(r, T.eq(x, y))
                if r is False:
                    return False
            # beyond 16 bytes two unrelated segments are compared through their first bytes only
            if m > 16:
                x = T.obyte(p.label, p.off + oa + m - 1) if type(p) is OSeg else p[oa + m - 1]
                y = T.obyte(q.label, q.off + ob + m - 1) if type(q) is OSeg else q[ob + m - 1]
                r = T.band(r, T.eq(x, y))
                r = T.band(r, T.atom("u", ("beq", str(p)[:80], oa, str(q)[:80], ob), "beq"))
        i += m
        oa += m
        ob += m
        if oa == len(p):
            ia += 1
            oa = 0
        if ob == len(q):
            ib += 1
            ob = 0
    return r


class SStr:
    """string with abstract characters: rope of code points"""

    __slots__ = ("rope",)

    def __init__(self, rope):
        self.rope = rope

    def __repr__(self):
        return f"s{self.rope!r}"


def mkstr(rope):
    if isinstance(rope, bytes):
        return rope.decode("latin1")
    if all(type(s) is bytes or (type(s) is tuple and not any(T.is_sym(x) for x in s)) for s in rope.segs):
        return "".join(s.decode("latin1") if type(s) is bytes else "".join(map(chr, s)) for s in rope.segs)
    return SStr(rope)


def srope(s):
    if isinstance(s, SStr):
        return s.rope
    try:
        return s.encode("latin1")
    except UnicodeEncodeError:
        return mkbytes([tuple(ord(c) for c in s)])
