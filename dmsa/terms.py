"""Scalar abstract domain.

Elements
  * host ``bool`` / ``int`` / ``float``          - constants
  * ``Bdd``                                       - boolean functions of atoms (reduced, ordered, hash-consed)
  * ``BV``                                        - integers as two's complement bit vectors, every bit a boolean
                                                    function (bit provenance domain); width unbounded
  * ``Op``                                        - other numeric terms (hash-consed), with an interval
All constructors normalise; two equal host objects (``is``) denote the same function of the inputs.
Nothing here looks at a program: the module only builds, normalises and compares terms.
"""

from __future__ import annotations

import math
from fractions import Fraction
from typing import Any, Dict, List, Optional, Tuple

INF = math.inf


class Limit(Exception):
    """A size bound of the domain was exceeded."""


# --------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("idx", "kind", "data", "name")

    def __init__(self, idx, kind, data, name):
        self.idx, self.kind, self.data, self.name = idx, kind, data, name

    def __repr__(self):
        return self.name


class Ctx:
    """Intern tables; one per analysis process."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.atoms: List[Atom] = []
        self.atom_tab: Dict[Any, Atom] = {}
        self.bdd_tab: Dict[Any, "Bdd"] = {}
        self.ite_memo: Dict[Any, Any] = {}
        self.bv_tab: Dict[Any, "BV"] = {}
        self.op_tab: Dict[Any, "Op"] = {}
        self.lin_of: Dict[int, Any] = {}
        self.words: Dict[str, "Word"] = {}
        self.reals: Dict[str, "Op"] = {}
        self.opaque: Dict[str, int] = {}
        self.cap = BDD_LIMIT


BDD_LIMIT = 400_000
CTX = Ctx()


def bounded(n, f, *a):
    """f(*a) if it needs at most n new decision nodes, else None"""
    old = CTX.cap
    CTX.cap = min(old, len(CTX.bdd_tab) + n)
    try:
        return f(*a)
    except Limit:
        return None
    finally:
        CTX.cap = old


class Word:
    """A declared input integer: its bits are atoms ('w', name, i)."""

    def __init__(self, name, nbits, signed, lo, hi):
        self.name, self.nbits, self.signed, self.lo, self.hi = name, nbits, signed, lo, hi


def _akey(x):
    return id(x) if isinstance(x, (Bdd, BV, Op)) else (type(x).__name__, x)


def atom(kind, data, name) -> "Bdd":
    key = (kind,) + tuple(_akey(d) for d in data)
    a = CTX.atom_tab.get(key)
    if a is None:
        a = Atom(len(CTX.atoms), kind, data, name)
        CTX.atoms.append(a)
        CTX.atom_tab[key] = a
    return mk(a.idx, True, False)


# --------------------------------------------------------------------------- BDD
class Bdd:
    __slots__ = ("var", "hi", "lo")

    def __init__(self, var, hi, lo):
        self.var, self.hi, self.lo = var, hi, lo

    def __repr__(self):
        return bstr(self)

    def __bool__(self):
        raise TypeError("host truth value of an abstract boolean")


def mk(var, hi, lo):
    if hi is lo:
        return hi
    key = (var, id(hi) if hi is not True and hi is not False else hi, id(lo) if lo is not True and lo is not False else lo)
    n = CTX.bdd_tab.get(key)
    if n is None:
        if len(CTX.bdd_tab) > CTX.cap:
            raise Limit("bdd")
        n = Bdd(var, hi, lo)
        CTX.bdd_tab[key] = n
    return n


def _bk(x):
    return x if x is True or x is False else id(x)


def bite(f, g, h):
    """if-then-else on booleans"""
    if f is True:
        return g
    if f is False:
        return h
    if g is h:
        return g
    if g is True and h is False:
        return f
    key = (id(f), _bk(g), _bk(h))
    r = CTX.ite_memo.get(key)
    if r is not None:
        return r
    v = f.var
    if isinstance(g, Bdd) and g.var < v:
        v = g.var
    if isinstance(h, Bdd) and h.var < v:
        v = h.var

    def cof(x, b):
        if isinstance(x, Bdd) and x.var == v:
            return x.hi if b else x.lo
        return x

    r = mk(v, bite(cof(f, True), cof(g, True), cof(h, True)), bite(cof(f, False), cof(g, False), cof(h, False)))
    CTX.ite_memo[key] = r
    return r


def bnot(a):
    if a is True:
        return False
    if a is False:
        return True
    return bite(a, False, True)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return bite(a, b, False)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return bite(a, True, b)


def bxor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True:
        return bnot(b)
    if b is True:
        return bnot(a)
    return bite(a, bnot(b), b)


def bsupport(f, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [f]
    while st:
        x = st.pop()
        if isinstance(x, Bdd) and id(x) not in seen:
            seen.add(id(x))
            acc.add(x.var)
            st.append(x.hi)
            st.append(x.lo)
    return acc


def bstr(f, depth=0):
    if f is True or f is False:
        return str(int(f))
    nm = CTX.atoms[f.var].name
    if f.hi is True and f.lo is False:
        return nm
    if f.hi is False and f.lo is True:
        return "!" + nm
    if depth > 4:
        return "..."
    return f"({nm}?{bstr(f.hi, depth + 1)}:{bstr(f.lo, depth + 1)})"


# --------------------------------------------------------------------------- ints
class BV:
    """value = sum(bits[i] << i) - (sign << len(bits)); bits trimmed of sign copies."""

    __slots__ = ("bits", "sign", "lo", "hi")

    def __init__(self, bits, sign):
        self.bits, self.sign = bits, sign
        lo = hi = 0
        for i, b in enumerate(bits):
            if b is True:
                lo += 1 << i
                hi += 1 << i
            elif b is not False:
                hi += 1 << i
        n = 1 << len(bits)
        if sign is True:
            lo -= n
            hi -= n
        elif sign is not False:
            lo -= n
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return tstr(self)

    def __bool__(self):
        raise TypeError("host truth value of an abstract int")


class Op:
    __slots__ = ("op", "args", "sort", "lo", "hi")

    def __init__(self, op, args, sort, lo, hi):
        self.op, self.args, self.sort, self.lo, self.hi = op, args, sort, lo, hi

    def __repr__(self):
        return tstr(self)

    def __bool__(self):
        raise TypeError("host truth value of an abstract number")


NUM = (int, float, BV, Op)


def is_sym(x):
    return isinstance(x, (Bdd, BV, Op))


def sort_of(x):
    if isinstance(x, (bool, Bdd)):
        return "b"
    if isinstance(x, int) or isinstance(x, BV):
        return "i"
    if isinstance(x, float):
        return "f"
    if isinstance(x, Op):
        return x.sort
    return None


def tstr(x, depth=0):
    if isinstance(x, Bdd):
        return bstr(x)
    if isinstance(x, BV):
        # name a whole word
        names = []
        for b in x.bits:
            names.append(bstr(b, 3))
        w = _as_word(x)
        if w:
            return w
        s = "" if x.sign is False else f"|s={bstr(x.sign, 3)}"
        return "<" + ",".join(reversed(names)) + s + ">"
    if isinstance(x, Op):
        if x.op == "real":
            return x.args[0]
        if depth > 5:
            return "..."
        if x.op == "lin":
            parts = [f"{c}*{tstr(t, depth + 1)}" for t, c in x.args[0]]
            return "(" + " + ".join(parts + [str(x.args[1])]) + ")"
        return f"{x.op}({', '.join(tstr(a, depth + 1) for a in x.args)})"
    return repr(x)


def _as_word(x: BV):
    if not x.bits:
        return None
    b0 = x.bits[0]
    if not (isinstance(b0, Bdd) and b0.hi is True and b0.lo is False):
        return None
    a = CTX.atoms[b0.var]
    if a.kind not in ("w", "ob"):
        return None
    base = a.data[:-1]
    for i, b in enumerate(x.bits):
        if not (isinstance(b, Bdd) and b.hi is True and b.lo is False):
            return None
        c = CTX.atoms[b.var]
        if c.kind != a.kind or c.data[:-1] != base or c.data[-1] != a.data[-1] + i:
            return None
    nm = a.name.rsplit(".", 1)[0]
    s = "" if x.sign is False else "s"
    return f"{nm}[{a.data[-1]}:{a.data[-1] + len(x.bits)}{s}]"


def mkbv(bits, sign=False):
    """normalising constructor: returns host int, Op (reassembled) or BV"""
    bits = list(bits)
    while bits and bits[-1] is sign:
        bits.pop()
    if (sign is True or sign is False) and all(b is True or b is False for b in bits):
        v = 0
        for i, b in enumerate(bits):
            if b:
                v |= 1 << i
        if sign:
            v -= 1 << len(bits)
        return v
    # reassemble an opaque term from its own bits
    if bits:
        b0 = bits[0]
        if isinstance(b0, Bdd) and b0.hi is True and b0.lo is False:
            a = CTX.atoms[b0.var]
            if a.kind == "bit" and a.data[1] == 0:
                t = a.data[0]
                tb, ts = to_bits(t)
                if len(tb) == len(bits) and ts is sign and all(p is q for p, q in zip(tb, bits)):
                    return t
    key = (tuple(_bk(b) for b in bits), _bk(sign))
    r = CTX.bv_tab.get(key)
    if r is None:
        r = BV(tuple(bits), sign)
        CTX.bv_tab[key] = r
    return r


def lo_hi(x):
    if isinstance(x, (BV, Op)):
        return x.lo, x.hi
    if isinstance(x, Bdd):
        return 0, 1
    return x, x


MAXBITS = 4096


def to_bits(x) -> Tuple[list, Any]:
    """(bits, sign) of an integer term"""
    if isinstance(x, bool):
        return [x], False
    if isinstance(x, Bdd):
        return [x], False
    if isinstance(x, int):
        n = x.bit_length()
        neg = x < 0
        if neg:
            n = (~x).bit_length()
        return [bool((x >> i) & 1) for i in range(n)], neg
    if isinstance(x, BV):
        return list(x.bits), x.sign
    if isinstance(x, Op):
        if x.lo == -INF or x.hi == INF:
            raise Limit("unbounded term has no bit form")
        n = max(int(x.hi).bit_length(), (~int(x.lo)).bit_length() if x.lo < 0 else 0)
        if n > MAXBITS:
            raise Limit("bits")
        nm = tstr(x, 3)
        bits = [atom("bit", (x, i), f"{nm}.{i}") for i in range(n)]
        sign = False if x.lo >= 0 else (True if x.hi < 0 else lt(x, 0))
        return bits, sign
    raise TypeError(f"no bits of {type(x)}")


def bitwise(x, y, f):
    xb, xs = to_bits(x)
    yb, ys = to_bits(y)
    n = max(len(xb), len(yb))
    xb += [xs] * (n - len(xb))
    yb += [ys] * (n - len(yb))
    return mkbv([f(p, q) for p, q in zip(xb, yb)], f(xs, ys))


def low_bits(x, n):
    """list of the n low two's complement bits"""
    if isinstance(x, Op) and (x.lo == -INF or x.hi == INF or True):
        try:
            b, s = to_bits(x)
        except Limit:
            nm = tstr(x, 3)
            return [atom("bit", (x, i), f"{nm}.{i}") for i in range(n)]
    else:
        b, s = to_bits(x)
    return (b + [s] * (n - len(b)))[:n]


def i_and(x, y):
    if isinstance(x, int) and not isinstance(y, int):
        x, y = y, x
    if isinstance(y, int) and y >= 0:
        n = y.bit_length()
        b = low_bits(x, n)
        return mkbv([band(p, bool((y >> i) & 1)) for i, p in enumerate(b)])
    return bitwise(x, y, band)


def i_or(x, y):
    return bitwise(x, y, bor)


def i_xor(x, y):
    return bitwise(x, y, bxor)


def i_inv(x):
    b, s = to_bits(x)
    return mkbv([bnot(p) for p in b], bnot(s))


def i_shl(x, k):
    if isinstance(k, int):
        if k > MAXBITS:
            raise Limit("shift")
        if isinstance(x, Op) and (x.lo == -INF or x.hi == INF):
            return mul(x, 1 << k)
        b, s = to_bits(x)
        r = mkbv([False] * k + b, s)
        if isinstance(x, BV) and k:
            p, c = lin_parts(x)
            _note(r, {i: (t, co << k) for i, (t, co) in p.items()}, c << k)
        return r
    if isinstance(x, int) and lo_hi(k)[0] >= 0 and lo_hi(k)[1] <= 64:
        # constant shifted by an abstract amount: choose
        lo, hi = lo_hi(k)
        r = x << hi
        for v in range(int(hi) - 1, int(lo) - 1, -1):
            r = ite(eq(k, v), x << v, r)
        return r
    raise Limit("shift by abstract amount")


def i_shr(x, k):
    if isinstance(k, int):
        if isinstance(x, Op) and k:
            r = _exact_div(x, 1 << k)
            if r is not None:
                return r
        if isinstance(x, Op) and (x.lo == -INF or x.hi == INF):
            return floordiv(x, 1 << k)
        b, s = to_bits(x)
        r = mkbv(b[k:], s)
        if isinstance(r, BV) and k and id(x) in CTX.lin_of:
            d = 1 << k
            p, c = lin_parts(x)
            if c % d == 0 and all(v[1] % d == 0 for v in p.values()):
                _note(r, {i: (t, co // d) for i, (t, co) in p.items()}, c // d)
        return r
    lo, hi = lo_hi(k)
    if lo >= 0 and hi <= 64:
        r = i_shr(x, int(hi))
        for v in range(int(hi) - 1, int(lo) - 1, -1):
            r = ite(eq(k, v), i_shr(x, v), r)
        return r
    raise Limit("shift by abstract amount")


def _support_bits(x):
    s = set()
    if isinstance(x, BV):
        for b in x.bits:
            bsupport(b, s)
        bsupport(x.sign, s)
    elif isinstance(x, Bdd):
        bsupport(x, s)
    return s


def ripple(x, y):
    xb, xs = to_bits(x)
    yb, ys = to_bits(y)
    n = max(len(xb), len(yb)) + 1
    xb += [xs] * (n - len(xb))
    yb += [ys] * (n - len(yb))
    out = []
    c: Any = False
    for p, q in zip(xb, yb):
        pq = bxor(p, q)
        out.append(bxor(pq, c))
        c = bor(band(p, q), band(c, pq))
    sign = bxor(bxor(xs, ys), c)
    return mkbv(out, sign)


def disjoint(x, y):
    xb, xs = to_bits(x)
    yb, ys = to_bits(y)
    if xs is not False and ys is not False:
        return None
    if xs is not False:
        xb, xs, yb, ys = yb, ys, xb, xs
    # x non-negative
    if len(xb) > len(yb) and ys is not False:
        for p in xb[len(yb):]:
            if p is not False:
                return None
    for p, q in zip(xb, yb):
        if p is not False and q is not False:
            return None
    n = max(len(xb), len(yb))
    xb += [False] * (n - len(xb))
    yb += [ys] * (n - len(yb))
    return mkbv([bor(p, q) for p, q in zip(xb, yb)], ys)


def _is_bitlike(x):
    return isinstance(x, (int, Bdd, BV))


def lin_parts(x):
    """x as ({id:(term,coef)}, const)"""
    if isinstance(x, Op) and x.op == "lin":
        return {id(t): (t, c) for t, c in x.args[0]}, x.args[1]
    if isinstance(x, int):
        return {}, int(x)
    r = CTX.lin_of.get(id(x))
    if r is not None:
        return r
    return {id(x): (x, 1)}, 0


def _note(r, parts, const):
    """remember the linear form a bit vector was computed from"""
    if isinstance(r, BV) and id(r) not in CTX.lin_of:
        parts = {k: v for k, v in parts.items() if v[1] != 0}
        if len(parts) <= 12 and id(r) not in parts:
            CTX.lin_of[id(r)] = (parts, const)
    return r


def _sum_parts(p, q):
    p = dict(p)
    for k, (t, co) in q.items():
        p[k] = (t, p[k][1] + co) if k in p else (t, co)
    return p


def _pb_zero(x):
    """decides lin == 0 by expanding its bit vectors into bits, None when too large"""
    coef = {}
    const = 0
    todo = [(x, 1, True)]
    steps = 0
    while todo:
        t, c, g = todo.pop()
        steps += 1
        if steps > 200:
            return None
        if isinstance(t, Op) and t.op == "lin":
            todo.extend((s, c * d, g) for s, d in t.args[0])
            t = t.args[1]
        elif isinstance(t, Op) and t.op == "ite":
            todo.append((t.args[1], c, band(g, t.args[0])))
            todo.append((t.args[2], c, band(g, bnot(t.args[0]))))
            continue
        elif not isinstance(t, (BV, int)):
            return None
        bits, sign = to_bits(t)
        n = len(bits)
        for i, b in enumerate(bits + [sign]):
            k = c << i if i < n else -(c << n)
            b = band(b, g)
            if b is True:
                const += k
            elif b is not False:
                old = coef.get(id(b))
                coef[id(b)] = (b, k + (old[1] if old else 0))
    items = [(b, k) for b, k in coef.values() if k]
    if not items:
        return const == 0
    sup = set()
    for b, _ in items:
        bsupport(b, sup)
    if len(sup) > 14 or len(items) > 60:
        return None

    def run():
        r = const
        for b, k in items:
            r = ripple(r, bv_const(b, k))
        xb, xs = to_bits(r)
        z = bnot(xs)
        for b in xb:
            z = band(z, bnot(b))
        return z

    return bounded(20000, run)


def bv_const(b, k):
    """k if b else 0"""
    kb, ks = to_bits(k)
    return mkbv([b if q else False for q in kb], b if ks else False)


def mklin(parts, const):
    items = [(t, c) for t, c in parts.values() if c != 0]
    if not items:
        return const
    if len(items) == 1 and const == 0 and items[0][1] == 1:
        return items[0][0]
    if len(items) == 1 and isinstance(items[0][0], BV):
        t, c = items[0]
        if len(t.bits) <= 64:
            # constant multiple / offset of one bit vector
            try:
                r = _bvmul(t, c)
                if r is not None:
                    return _note(ripple(r, const) if const else r, {id(t): (t, c)}, const)
            except Limit:
                pass
    items.sort(key=lambda p: id(p[0]))
    lo = hi = const
    for t, c in items:
        a, b = lo_hi(t)
        a, b = a * c, b * c
        lo += min(a, b)
        hi += max(a, b)
    key = ("lin", tuple((id(t), c) for t, c in items), const)
    r = CTX.op_tab.get(key)
    if r is None:
        r = Op("lin", (tuple(items), const), "i", lo, hi)
        CTX.op_tab[key] = r
    return r


def _bvmul(t, c):
    if c == 1:
        return t
    if c == -1:
        return ripple(i_inv(t), 1)
    neg = c < 0
    a = abs(c)
    if a & (a - 1) == 0:
        r = i_shl(t, a.bit_length() - 1)
        return ripple(i_inv(r), 1) if neg else r
    if len(_support_bits(t)) <= 12 and a < (1 << 16):
        r = 0
        k = 0
        while a:
            if a & 1:
                r = ripple(r, i_shl(t, k))
            a >>= 1
            k += 1
        return ripple(i_inv(r), 1) if neg else r
    return None


def _exact_div(x, d):
    """x / d when the linear form of x is divisible by d"""
    if isinstance(x, int):
        return x // d if x % d == 0 else None
    if not (id(x) in CTX.lin_of or isinstance(x, Op) and x.op == "lin"):
        return None
    p, c = lin_parts(x)
    if c % d or any(v[1] % d for v in p.values()):
        return None
    return mklin({k: (t, co // d) for k, (t, co) in p.items()}, c // d)


def b2i(x):
    """booleans take part in arithmetic as 0/1"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Bdd):
        return mkbv([x])
    return x


def fsafe(f, *a):
    try:
        return f(*a)
    except (OverflowError, ValueError, ZeroDivisionError):
        return None


# dyadic fixed point: Op('fix', (I, k)) = I / 2**k exactly, |I| < 2**53
def mkfix(i, k):
    i = b2i(i)
    if isinstance(i, int):
        return i / (1 << k) if k >= 0 else float(i << -k)
    while k > 0:
        if isinstance(i, Op):
            r = _exact_div(i, 2)
            if r is None:
                break
            i = r
            k -= 1
            if isinstance(i, int):
                return i / (1 << k)
            continue
        lb = low_bits(i, 1)[0]
        if lb is False:
            i = i_shr(i, 1)
            k -= 1
            if isinstance(i, int):
                return i / (1 << k)
        else:
            break
    lo, hi = lo_hi(i)
    if max(abs(lo), abs(hi)) > (1 << 53):
        return None
    return mkop("fix", (i, k), "f", lo / (1 << k), hi / (1 << k))


def as_fix(x):
    """(I, k) when x is exactly I / 2**k"""
    if isinstance(x, bool):
        return int(x), 0
    if isinstance(x, int):
        return x, 0
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            return None
        n, d = x.as_integer_ratio()
        k = d.bit_length() - 1
        if k > 60 or abs(n) > (1 << 53):
            return None
        return n, k
    if isinstance(x, Bdd):
        return b2i(x), 0
    if isinstance(x, BV):
        return x, 0
    if isinstance(x, Op):
        if x.op == "fix":
            return x.args
        if x.sort == "i" and x.lo != -INF and x.hi != INF:
            return x, 0
    return None


def mkop(op, args, sort, lo=-INF, hi=INF):
    key = (op, sort) + tuple(_akey(a) for a in args)
    r = CTX.op_tab.get(key)
    if r is None:
        if len(CTX.op_tab) > 2_000_000:
            raise Limit("terms")
        r = Op(op, args, sort, lo, hi)
        CTX.op_tab[key] = r
    return r


def is_f(x):
    return sort_of(x) == "f"


def _fixpair(x, y):
    a, b = as_fix(x), as_fix(y)
    if a is None or b is None:
        return None
    (i, k), (j, m) = a, b
    n = max(k, m)
    return _up(b2i(i), n - k), _up(b2i(j), n - m), n


def _up(x, k):
    if k == 0:
        return x
    return mul(x, 1 << k) if isinstance(x, Op) else i_shl(x, k)


def add(x, y):
    x, y = b2i(x), b2i(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return x + y
    if is_f(x) or is_f(y):
        if (isinstance(x, (int, float)) and x == 0 and is_f(y)):
            return y
        if (isinstance(y, (int, float)) and y == 0 and is_f(x)):
            return x
        p = _fixpair(x, y)
        if p is not None:
            r = mkfix(add(p[0], p[1]), p[2])
            if r is not None:
                return r
        a, b = lo_hi(x), lo_hi(y)
        if isinstance(x, (int, float)):
            x, y = y, x
        return mkop("add", (x, y), "f", a[0] + b[0], a[1] + b[1])
    if isinstance(x, int) and x == 0:
        return y
    if isinstance(y, int) and y == 0:
        return x
    if _is_bitlike(x) and _is_bitlike(y):
        r = disjoint(x, y)
        if r is None and (isinstance(x, int) or isinstance(y, int) or len(_support_bits(x) | _support_bits(y)) <= 12):
            if max(_width(x), _width(y)) <= 80:
                r = ripple(x, y)
        if r is not None:
            p, c = lin_parts(x)
            q, d = lin_parts(y)
            return _note(r, _sum_parts(p, q), c + d)
    p, c = lin_parts(x)
    q, d = lin_parts(y)
    return mklin(_sum_parts(p, q), c + d)


def _width(x):
    if isinstance(x, int):
        return x.bit_length()
    if isinstance(x, BV):
        return len(x.bits)
    return 1


def neg(x):
    x = b2i(x)
    if isinstance(x, (int, float)):
        return -x
    if is_f(x):
        p = as_fix(x)
        if p is not None:
            # -0.0 is identified with 0.0 (documented abstraction)
            r = mkfix(neg(p[0]), p[1])
            if r is not None:
                return r
        return mkop("neg", (x,), "f", -x.hi, -x.lo)
    if isinstance(x, BV):
        p, c = lin_parts(x)
        return _note(ripple(i_inv(x), 1), {k: (t, -co) for k, (t, co) in p.items()}, -c)
    p, c = lin_parts(x)
    return mklin({k: (t, -co) for k, (t, co) in p.items()}, -c)


def sub(x, y):
    x, y = b2i(x), b2i(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return x - y
    if is_f(x) or is_f(y):
        if x is y:
            return 0.0
        if isinstance(y, Op) and y.op == "floor" and y.args[0] is x:
            return mkop("frac", (x,), "f", 0.0, 1.0)
        if isinstance(y, (int, float)) and y == 0 and is_f(x):
            return x
        p = _fixpair(x, y)
        if p is not None:
            r = mkfix(sub(p[0], p[1]), p[2])
            if r is not None:
                return r
        # x - floor(x) where floor was taken as a bit slice
        a, b = lo_hi(x), lo_hi(y)
        return mkop("sub", (x, y), "f", a[0] - b[1], a[1] - b[0])
    if x is y:
        return 0
    if isinstance(x, BV) and isinstance(y, BV):
        # subtracting a sub-vector (x - (x & m))
        if _subvector(y, x):
            return bitwise(x, y, lambda p, q: band(p, bnot(q)))
    return add(x, neg(y))


def _subvector(y, x):
    yb, ys = to_bits(y)
    xb, xs = to_bits(x)
    if ys is not False and ys is not xs:
        return False
    if ys is xs and ys is not False and len(yb) < len(xb):
        yb = yb + [ys] * (len(xb) - len(yb))
    if len(yb) > len(xb):
        return False
    return all(q is False or q is p for p, q in zip(xb, yb))


def mul(x, y):
    x, y = b2i(x), b2i(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        r = fsafe(lambda: x * y)
        return r
    if is_f(x) or is_f(y):
        if isinstance(x, (int, float)) and not isinstance(y, (int, float)):
            x, y = y, x
        if isinstance(y, (int, float)):
            if y == 1 and is_f(x):
                return x
            if y == 0:
                return 0.0
            p, q = as_fix(x), as_fix(y)
            if p is not None and q is not None:
                m = mul(p[0], q[0])
                if not (isinstance(m, Op) and m.op in ("mul",)):
                    r = mkfix(m, p[1] + q[1])
                    if r is not None:
                        return r
        else:
            for p, q in ((x, y), (y, x)):
                f = as_fix(p)
                if f is not None and _single_atom(f[0]) is not None:
                    return _shannon(f[0], lambda v: mul(truediv(float(v), float(1 << f[1])), q))
        a, b = lo_hi(x), lo_hi(y)
        lo, hi = _imul(a, b)
        if not isinstance(y, (int, float)) and id(x) > id(y):
            x, y = y, x
        return mkop("mul", (x, y), "f", lo, hi)
    if isinstance(x, int):
        x, y = y, x
    if isinstance(y, int):
        if y == 0:
            return 0
        p, c = lin_parts(x)
        if isinstance(x, BV) and len(p) > 1 and len(x.bits) <= 64:
            r = _bvmul(x, y)
            if r is not None:
                return _note(r, {k: (t, co * y) for k, (t, co) in p.items()}, c * y)
        return mklin({k: (t, co * y) for k, (t, co) in p.items()}, c * y)
    if _single_atom(x) is not None:
        return _shannon(x, lambda v: mul(v, y))
    if _single_atom(y) is not None:
        return _shannon(y, lambda v: mul(x, v))
    lo, hi = _imul(lo_hi(x), lo_hi(y))
    if id(x) > id(y):
        x, y = y, x
    return mkop("mul", (x, y), "i", lo, hi)


def _imul(a, b):
    v = []
    for p in a:
        for q in b:
            if (p == 0 and abs(q) == INF) or (q == 0 and abs(p) == INF):
                v.append(0)
            else:
                v.append(p * q)
    return min(v), max(v)


def _single_atom(x):
    """guard g such that x takes one value where g holds and one where it does not"""
    if isinstance(x, BV) and len(x.bits) <= 8:
        g = n = None
        for p in list(x.bits) + [x.sign]:
            if isinstance(p, bool):
                continue
            if g is None:
                g, n = p, bnot(p)
            elif p is not g and p is not n:
                return None
        return g
    return None


def _shannon(x, f):
    g = _single_atom(x)

    def cof(b):
        return mkbv([p if isinstance(p, bool) else b if p is g else not b for p in x.bits],
                    x.sign if isinstance(x.sign, bool) else b if x.sign is g else not b)

    return ite(g, f(cof(True)), f(cof(False)))


def truediv(x, y):
    x, y = b2i(x), b2i(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return x / y
    if isinstance(y, (int, float)) and y != 0:
        q = as_fix(y)
        p = as_fix(x)
        if p is not None and q is not None and isinstance(q[0], int) and q[0] > 0 and (q[0] & (q[0] - 1)) == 0:
            e = q[0].bit_length() - 1 - q[1]
            r = mkfix(p[0], p[1] + e) if p[1] + e >= 0 else mkfix(_up(p[0], -(p[1] + e)), 0)
            if r is not None:
                return r
        if p is not None and q is not None and isinstance(q[0], int) and abs(q[0]) > 1:
            r = _exact_div(p[0], q[0])
            if r is not None:
                e = p[1] - q[1]
                r = mkfix(r, e) if e >= 0 else mkfix(_up(r, -e), 0)
                if r is not None:
                    return r
        if y == 1 and is_f(x):
            return x
        a = lo_hi(x)
        v = (a[0] / y, a[1] / y)
        return mkop("div", (x, y), "f", min(v), max(v))
    return mkop("div", (x, y), "f")


def floordiv(x, y):
    x, y = b2i(x), b2i(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return x // y
    if is_f(x) or is_f(y):
        return mkop("floordiv", (x, y), "f", *( (x.lo // y if abs(x.lo) != INF else -INF, x.hi // y if abs(x.hi) != INF else INF) if isinstance(y, (int, float)) and y > 0 and is_sym(x) else (-INF, INF)))
    if isinstance(y, int) and y > 0:
        if y & (y - 1) == 0 and not (isinstance(x, Op) and (x.lo == -INF or x.hi == INF)):
            return i_shr(x, y.bit_length() - 1)
        lo, hi = lo_hi(x)
        lo = lo // y if abs(lo) != INF else lo
        hi = hi // y if abs(hi) != INF else hi
        if lo == hi:
            return int(lo)
        r = _exact_div(x, y)
        if r is not None:
            return r
        if isinstance(x, BV) and len(_support_bits(x)) <= 12:
            r = _enum(x, lambda v: v // y)
            if r is not None:
                return r
        return mkop("floordiv", (x, y), "i", lo, hi)
    return mkop("floordiv", (x, y), "i")


def _enum(x, f):
    """table of a function of a small-support bit vector"""
    sup = sorted(_support_bits(x))

    def rec(bits, sign, i):
        if (sign is True or sign is False) and all(b is True or b is False for b in bits):
            return f(mkbv(bits, sign))
        v = sup[i]

        def cof(q, b):
            if isinstance(q, Bdd) and q.var == v:
                return q.hi if b else q.lo
            return q

        h = rec([cof(b, True) for b in bits], cof(sign, True), i + 1)
        l = rec([cof(b, False) for b in bits], cof(sign, False), i + 1)
        return ite(mk(v, True, False), h, l)

    return rec(list(x.bits), x.sign, 0)


def mod(x, y):
    x, y = b2i(x), b2i(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return x % y
    if is_f(x) or is_f(y):
        if isinstance(y, (int, float)) and y > 0:
            if y == 1:
                p = as_fix(x)
                if p is not None:
                    r = mkfix(i_and(p[0], (1 << p[1]) - 1), p[1])
                    if r is not None:
                        return r
            return mkop("mod", (x, y), "f", 0.0, float(y))
        return mkop("mod", (x, y), "f")
    if isinstance(y, int) and y > 0:
        if y & (y - 1) == 0:
            return mkbv(low_bits(x, y.bit_length() - 1))
        lo, hi = lo_hi(x)
        if 0 <= lo and hi < y:
            return x
        if isinstance(x, BV) and len(_support_bits(x)) <= 12:
            r = _enum(x, lambda v: v % y)
            if r is not None:
                return r
        return mkop("mod", (x, y), "i", 0, y - 1)
    return mkop("mod", (x, y), "i")


def floor_(x):
    """integer floor"""
    x = b2i(x)
    if isinstance(x, (int, float)):
        return math.floor(x)
    if not is_f(x):
        return x
    p = as_fix(x)
    if p is not None:
        return i_shr(p[0], p[1])
    lo = math.floor(x.lo) if abs(x.lo) != INF else -INF
    hi = math.floor(x.hi) if abs(x.hi) != INF else INF
    return mkop("floor", (x,), "i", lo, hi)


def ceil_(x):
    return neg(floor_(neg(x)))


def trunc_(x):
    x = b2i(x)
    if isinstance(x, (int, float)):
        return int(x)
    if not is_f(x):
        return x
    lo, hi = lo_hi(x)
    if lo >= 0:
        p = as_fix(x)
        if p is not None:
            return i_shr(p[0], p[1])
        return mkop("floor", (x,), "i", math.floor(lo), math.floor(hi) if hi != INF else INF)
    p = as_fix(x)
    if p is not None:
        f = i_shr(p[0], p[1])
        if p[1] == 0:
            return f
        return ite(lt(x, 0), neg(i_shr(neg(p[0]), p[1])), f)
    if x.op in ("floordiv",):
        return mkop("trunc", (x,), "i", lo, hi)
    if isinstance(x, Op) and x.op == "round":
        return mkop("trunc", (x,), "i", lo, hi)
    return mkop("trunc", (x,), "i", math.trunc(lo) if abs(lo) != INF else lo, math.trunc(hi) if abs(hi) != INF else hi)


def _chain(x):
    """(integer term, [(op, constant), ...]) of a float term that scales a bounded integer by constants"""
    ops = []
    while isinstance(x, Op) and x.op in ("mul", "div") and x.sort == "f":
        a, b = x.args
        if isinstance(b, (int, float)) and b != 0 and abs(b) != INF:
            ops.append((x.op, b))
            x = a
        else:
            return None
    if isinstance(x, Op) and x.op == "tofloat":
        x = x.args[0]
    else:
        f = as_fix(x)
        if f is None:
            return None
        if f[1]:
            ops.append(("div", float(1 << f[1])))
        x = f[0]
    if not ops or isinstance(x, int) or len(ops) > 4:
        return None
    lo, hi = lo_hi(x)
    if lo < -(1 << 46) or hi > (1 << 46):
        return None
    return x, ops[::-1]


def _chain_at(ops, n):
    for o, c in ops:
        n = n * c if o == "mul" else n / c
    return n


def _chain_factor(ops):
    f = Fraction(1)
    for o, c in ops:
        f = f * Fraction(c) if o == "mul" else f / Fraction(c)
    return f


def _chain_cmp(kind, x, y):
    """comparison of scaled integers: the scaling is strictly monotonic below 2**46"""
    p, q = _chain(x), _chain(y)
    if p is not None and q is not None and p[1] == q[1]:
        up = _chain_factor(p[1]) > 0
        if kind == "eq":
            return eq(p[0], q[0])
        return lt(p[0], q[0]) if up else lt(q[0], p[0])
    if isinstance(x, (int, float)) and q is not None:
        p, q, x, y, swap = q, p, y, x, True
    else:
        swap = False
    if p is None or not isinstance(y, (int, float)) or y != y or abs(y) > 1e15:
        return None
    i, ops = p
    f = _chain_factor(ops)
    n = round(Fraction(y) / f)
    if abs(n) > 1 << 48:
        return None
    if kind == "eq":
        for k in (n - 1, n, n + 1):
            if _chain_at(ops, k) == y:
                return eq(i, k)
        return False
    if f < 0:
        return None
    if swap:
        # y < chain(i): smallest k with chain(k) > y
        k = n - 2
        while not _chain_at(ops, k) > y:
            k += 1
        return le(k, i)
    k = n + 2
    while not _chain_at(ops, k) < y:
        k -= 1
    return le(i, k)


def round_(x, nd=None):
    x = b2i(x)
    if isinstance(x, (int, float)) and (nd is None or isinstance(nd, int)):
        return round(x) if nd is None else round(x, nd)
    if not is_f(x):
        return x
    if nd is not None:
        return mkop("roundn", (x, nd), "f", x.lo - 1, x.hi + 1)
    p = as_fix(x)
    if p is not None and p[1] == 0:
        return p[0]
    lo, hi = lo_hi(x)
    ch = _chain(x)
    if ch is not None:
        f = _chain_factor(ch[1])
        n = round(f)
        m = max(abs(v) for v in lo_hi(ch[0]))
        if n and abs(f - n) * m + abs(f) * m * Fraction(len(ch[1]) + 1, 1 << 52) < Fraction(1, 4):
            return mul(ch[0], n)
    return mkop("round", (x,), "i", round(lo) if abs(lo) != INF else lo, round(hi) if abs(hi) != INF else hi)


def tofloat(x):
    x = b2i(x)
    if isinstance(x, (int, float)):
        return float(x)
    if is_f(x):
        return x
    p = as_fix(x)
    if p is not None:
        r = mkfix(p[0], p[1])
        if r is not None:
            return r
    return mkop("tofloat", (x,), "f", x.lo, x.hi)


def abs_(x):
    x = b2i(x)
    if isinstance(x, (int, float)):
        return abs(x)
    lo, hi = lo_hi(x)
    if lo >= 0:
        return x
    if hi <= 0:
        return neg(x)
    if isinstance(x, Op) and x.op not in ("fix",):
        return mkop("abs", (x,), x.sort, 0, max(-lo, hi))
    return ite(lt(x, 0), neg(x), x)


def func(name, args, lo=-INF, hi=INF, sort="f"):
    if all(isinstance(a, (int, float)) for a in args):
        return evalfn(name, args)
    return mkop(name, tuple(args), sort, lo, hi)


def pow_(x, y):
    x, y = b2i(x), b2i(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return x ** y
    if isinstance(y, int) and not isinstance(y, bool) and 0 <= y <= 4:
        r = 1
        for _ in range(y):
            r = mul(r, x)
        return r
    if isinstance(x, int) and x == 2 and sort_of(y) == "i" and lo_hi(y)[0] >= 0:
        return i_shl(1, y)
    return mkop("pow", (x, y), "f")


# --------------------------------------------------------------------------- comparisons
def lt(x, y):
    x, y = b2i(x), b2i(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return x < y
    if x is y:
        return False
    (a, b), (c, d) = lo_hi(x), lo_hi(y)
    strict_hi = isinstance(x, Op) and x.op in ("frac",) or (isinstance(x, Op) and x.op == "mod" and x.sort == "f")
    if b < c or (strict_hi and b <= c):
        return True
    if a >= d:
        return False
    if not is_f(x) and not is_f(y):
        if _is_bitlike(x) and _is_bitlike(y):
            if isinstance(x, int) or isinstance(y, int) or len(_support_bits(x) | _support_bits(y)) <= 14:
                return _bvlt(x, y)
            if _support_bits(x) == _support_bits(y):
                r = bounded(4000, _bvlt, x, y)
                if r is not None:
                    return r
        dlt = sub(x, y)
        if isinstance(dlt, int):
            return dlt < 0
        if isinstance(dlt, BV):
            return dlt.sign
        (a, b) = lo_hi(dlt)
        if b < 0:
            return True
        if a >= 0:
            return False
        return atom("lt0", (dlt,), f"({tstr(dlt, 3)}<0)")
    p = _fixpair(x, y)
    if p is not None:
        return lt(p[0], p[1])
    r = _chain_cmp("lt", x, y)
    if r is not None:
        return r
    return atom("lt", (x, y), f"({tstr(x, 3)}<{tstr(y, 3)})")


def _bveq(xb, yb):
    r: Any = True
    for p, q in zip(xb, yb):
        r = band(r, bnot(bxor(p, q)))
    return r


def _bvlt(x, y):
    xb, xs = to_bits(x)
    yb, ys = to_bits(y)
    n = max(len(xb), len(yb))
    xb += [xs] * (n - len(xb))
    yb += [ys] * (n - len(yb))
    r: Any = False
    for p, q in zip(xb, yb):
        r = bor(band(bnot(p), q), band(bnot(bxor(p, q)), r))
    # signs: negative < positive
    return bor(band(xs, bnot(ys)), band(bnot(bxor(xs, ys)), r))


def le(x, y):
    return bnot(lt(y, x))


def eq(x, y):
    if isinstance(x, (bool, Bdd)) and isinstance(y, (bool, Bdd)):
        return bnot(bxor(x, y))
    x, y = b2i(x), b2i(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return x == y
    if x is y:
        return True
    (a, b), (c, d) = lo_hi(x), lo_hi(y)
    if b < c or d < a:
        return False
    if not is_f(x) and not is_f(y):
        if _is_bitlike(x) and _is_bitlike(y):
            xb, xs = to_bits(x)
            yb, ys = to_bits(y)
            n = max(len(xb), len(yb))
            xb += [xs] * (n - len(xb))
            yb += [ys] * (n - len(yb))
            xb.append(xs)
            yb.append(ys)
            r: Any = True
            small = isinstance(x, int) or isinstance(y, int) or len(_support_bits(x) | _support_bits(y)) <= 20
            if small or all(
                p is q or p is True or p is False or q is True or q is False for p, q in zip(xb, yb)
            ):
                for p, q in zip(xb, yb):
                    r = band(r, bnot(bxor(p, q)))
                    if r is False:
                        return False
                return r
            if _support_bits(x) == _support_bits(y):
                r = bounded(4000, _bveq, xb, yb)
                if r is not None:
                    return r
            p, c = lin_parts(x)
            q, d = lin_parts(y)
            if len(p) == len(q) and c == d and all(k in q and q[k][1] == v[1] for k, v in p.items()):
                return True
            # two different wide words: conflicting constant bits decide, else opaque
            for p, q in zip(xb, yb):
                if isinstance(p, bool) and isinstance(q, bool) and p != q:
                    return False
        else:
            dlt = sub(x, y)
            if isinstance(dlt, int):
                return dlt == 0
            r = _pb_zero(dlt)
            if r is not None:
                return r
    else:
        p = _fixpair(x, y)
        if p is not None:
            return eq(p[0], p[1])
        r = _chain_cmp("eq", x, y)
        if r is not None:
            return r
    if id(x) > id(y):
        x, y = y, x
    r = atom("eq", (x, y), f"({tstr(x, 3)}=={tstr(y, 3)})")
    if isinstance(x, Op) and isinstance(y, Op) and x.op == y.op == "hash" and len(x.args) == len(y.args):
        # hashes of equal parts are equal
        same: Any = True
        for p, q in zip(x.args, y.args):
            if isinstance(p, str) or isinstance(q, str):
                same = same if p == q else False
            else:
                same = band(same, eq(p, q))
            if same is False:
                return r
        return bor(same, r)
    return r


def skeleton(x):
    """shape of a term with its unknowns left out"""
    if isinstance(x, Op):
        return x.op + "(" + ",".join(skeleton(a) for a in x.args) + ")"
    return "?" if is_sym(x) else repr(x)


def truth(x):
    if isinstance(x, Bdd):
        return x
    if isinstance(x, BV):
        r: Any = x.sign
        for b in x.bits:
            r = bor(r, b)
        return r
    if isinstance(x, Op):
        return bnot(eq(x, 0))
    return bool(x)


def ite(c, a, b):
    """gated merge of two numbers/booleans"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (bool, Bdd)) and isinstance(b, (bool, Bdd)):
        return bite(c, a, b)
    a, b = b2i(a), b2i(b)
    if type(a) is type(b) and isinstance(a, (int, float)) and a == b and math.copysign(1, a) == math.copysign(1, b):
        return a
    if not is_f(a) and not is_f(b):
        if _is_bitlike(a) and _is_bitlike(b):
            xb, xs = to_bits(a)
            yb, ys = to_bits(b)
            n = max(len(xb), len(yb))
            xb += [xs] * (n - len(xb))
            yb += [ys] * (n - len(yb))
            return mkbv([bite(c, p, q) for p, q in zip(xb, yb)], bite(c, xs, ys))
        # wrap-around idioms on opaque integers: (t<0 ? t+2^n : t)
        r = _wrap(c, a, b)
        if r is not None:
            return r
        (p, q), (r_, s) = lo_hi(a), lo_hi(b)
        if min(p, r_) != -INF and max(q, s) != INF and False:
            pass
        return mkop("ite", (c, a, b), "i", min(p, r_), max(q, s))
    fa, fb = as_fix(a), as_fix(b)
    if fa is not None and fb is not None and _is_bitlike(fa[0]) and _is_bitlike(fb[0]) and is_f(a) and is_f(b):
        i, j, n = _fixpair(a, b)
        r = mkfix(ite(c, i, j), n)
        if r is not None:
            return r
    (p, q), (r_, s) = lo_hi(a), lo_hi(b)
    return mkop("ite", (c, a, b), "f", min(p, r_), max(q, s))


def _wrap(c, a, b):
    """ite(t < 0, t + 2**n, t) -> low n bits of t (t opaque, -2**n <= t < 2**n)"""
    if isinstance(b, Op) and b.lo >= -INF:
        d = sub(a, b)
        if isinstance(d, int) and d > 0 and d & (d - 1) == 0 and b.lo >= -d and b.hi < d and b.lo != -INF:
            if c is lt(b, 0):
                return mkbv(low_bits(b, d.bit_length() - 1))
    return None


# --------------------------------------------------------------------------- declared inputs
def word(name, nbits, signed=False, lo=None, hi=None):
    """declare an integer input; returns (term, constraint)"""
    if name not in CTX.words:
        CTX.words[name] = Word(name, nbits, signed, lo, hi)
    n = nbits - 1 if signed else nbits
    bits = [atom("w", (name, i), f"{name}.{i}") for i in range(n)]
    sign = atom("w", (name, nbits - 1), f"{name}.sign") if signed else False
    t = mkbv(bits, sign)
    care: Any = True
    if lo is not None:
        care = band(care, le(lo, t))
    if hi is not None:
        care = band(care, le(t, hi))
    return t, care


def flag(name):
    if name not in CTX.words:
        CTX.words[name] = Word(name, 1, False, None, None)
    return atom("w", (name, 0), name)


def real(name, lo, hi):
    t = mkop("real", (name,), "f", float(lo), float(hi))
    CTX.reals[name] = t
    return t


def obyte(label, k):
    """k-th byte of the opaque byte string `label`"""
    return mkbv([atom("ob", (label, k, i), f"{label}[{k}].{i}") for i in range(8)])


def obyte_of(x):
    """inverse of obyte: (label, k) or None"""
    if isinstance(x, BV) and len(x.bits) == 8 and x.sign is False:
        b0 = x.bits[0]
        if isinstance(b0, Bdd) and b0.hi is True and b0.lo is False:
            a = CTX.atoms[b0.var]
            if a.kind == "ob" and a.data[2] == 0 and obyte(a.data[0], a.data[1]) is x:
                return a.data[0], a.data[1]
    return None


# --------------------------------------------------------------------------- valuation (term semantics)
def evalfn(name, args):
    if name == "atan2":
        return math.atan2(*args)
    if name == "sqrt":
        return math.sqrt(*args)
    if name == "log":
        return math.log(*args)
    if name == "hypot":
        return math.hypot(*args)
    if name in ("sin", "cos", "tan", "exp", "atan", "asin", "acos", "degrees", "radians", "log2", "log10", "fabs"):
        return getattr(math, name)(*args)
    if name == "fmod":
        return math.fmod(*args)
    if name == "copysign":
        return math.copysign(*args)
    if name == "hash":
        return hash(tuple(args))
    raise KeyError(name)


class Valuation:
    """assignment of input words/reals/opaque bytes; evaluates terms"""

    def __init__(self, words, reals, obytes):
        self.words, self.reals, self.ob = words, reals, obytes
        self.memo: Dict[int, Any] = {}

    def atom(self, idx):
        a = CTX.atoms[idx]
        k = a.kind
        if k == "w":
            return bool((self.words[a.data[0]] >> a.data[1]) & 1)
        if k == "ob":
            return bool((self.ob(a.data[0], a.data[1]) >> a.data[2]) & 1)
        if k == "bit":
            return bool((int(self.ev(a.data[0])) >> a.data[1]) & 1)
        if k == "lt0":
            return self.ev(a.data[0]) < 0
        if k == "lt":
            return self.ev(a.data[0]) < self.ev(a.data[1])
        if k == "eq":
            return self.ev(a.data[0]) == self.ev(a.data[1])
        if k == "u":
            return bool(hash((a.data, tuple(sorted(self.words.items())))) & 1)
        raise KeyError(k)

    def b(self, f):
        while isinstance(f, Bdd):
            key = -1 - f.var
            v = self.memo.get(key)
            if v is None:
                v = self.memo[key] = self.atom(f.var)
            f = f.hi if v else f.lo
        return f

    def ev(self, x):
        if isinstance(x, Bdd):
            return self.b(x)
        if isinstance(x, BV):
            v = 0
            for i, b in enumerate(x.bits):
                if self.b(b):
                    v |= 1 << i
            if self.b(x.sign):
                v -= 1 << len(x.bits)
            return v
        if not isinstance(x, Op):
            return x
        r = self.memo.get(id(x))
        if r is None:
            r = self.memo[id(x)] = self._op(x)
        return r

    def _op(self, x):
        o, a = x.op, x.args
        if o == "real":
            return self.reals[a[0]]
        if o == "lin":
            return sum(self.ev(t) * c for t, c in a[0]) + a[1]
        if o == "ite":
            return self.ev(a[1]) if self.b(a[0]) else self.ev(a[2])
        v = [self.ev(t) for t in a]
        if o == "fix":
            return v[0] / (1 << v[1])
        if o == "add":
            return v[0] + v[1]
        if o == "sub":
            return v[0] - v[1]
        if o == "mul":
            return v[0] * v[1]
        if o == "div":
            return v[0] / v[1]
        if o == "floordiv":
            return v[0] // v[1]
        if o == "mod":
            return v[0] % v[1]
        if o == "pow":
            return v[0] ** v[1]
        if o == "neg":
            return -v[0]
        if o == "abs":
            return abs(v[0])
        if o == "floor":
            return math.floor(v[0])
        if o == "frac":
            return v[0] - math.floor(v[0])
        if o == "trunc":
            return math.trunc(v[0])
        if o == "round":
            return round(v[0])
        if o == "roundn":
            return round(v[0], v[1])
        if o == "tofloat":
            return float(v[0])
        return evalfn(o, v)


def constants_in(x, acc, seen):
    """integer constants occurring in comparisons inside a term (boundary values for valuations)"""
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, Bdd):
        for v in bsupport(x):
            a = CTX.atoms[v]
            if a.kind in ("bit", "lt0", "lt", "eq"):
                for d in a.data:
                    constants_in(d, acc, seen)
    elif isinstance(x, BV):
        for b in x.bits:
            constants_in(b, acc, seen)
    elif isinstance(x, Op):
        if x.op == "lin":
            acc.add(x.args[1])
            for t, _ in x.args[0]:
                constants_in(t, acc, seen)
        else:
            for a in x.args:
                constants_in(a, acc, seen)
    elif isinstance(x, (int, float)) and not isinstance(x, bool):
        acc.add(x)


def support_of(x, words, reals, obs, seen):
    """names of inputs a term depends on"""
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, Bdd):
        for v in bsupport(x):
            a = CTX.atoms[v]
            if a.kind == "w":
                words.add(a.data[0])
            elif a.kind == "ob":
                obs.add((a.data[0], a.data[1]))
            elif a.kind != "u":
                for d in a.data:
                    support_of(d, words, reals, obs, seen)
    elif isinstance(x, BV):
        for b in x.bits:
            support_of(b, words, reals, obs, seen)
        support_of(x.sign, words, reals, obs, seen)
    elif isinstance(x, Op):
        if x.op == "real":
            reals.add(x.args[0])
        elif x.op == "lin":
            for t, _ in x.args[0]:
                support_of(t, words, reals, obs, seen)
        else:
            for a in x.args:
                support_of(a, words, reals, obs, seen)


def bdd_paths(f, limit=64):
    """satisfying partial assignments {var: bool} of a boolean function"""
    out = []

    def rec(x, d):
        if len(out) >= limit or x is False:
            return
        if x is True:
            out.append(dict(d))
            return
        for b, nxt in ((True, x.hi), (False, x.lo)):
            d[x.var] = b
            rec(nxt, d)
            del d[x.var]

    rec(f, {})
    return out


def force(x, v, wv, rv, ob, val, depth):
    """change the inputs so that the term x takes the value v, where x is simple enough to be inverted"""
    if depth > 12:
        return False
    if isinstance(x, BV):
        if v != int(v):
            return False
        v = int(v)
        n = len(x.bits)
        if not -(1 << n) <= v < (1 << n):
            return False
        for i, b in enumerate(list(x.bits) + [x.sign]):
            want = bool(v >> i & 1)
            if not isinstance(b, Bdd):
                continue
            lit = b.hi is True and b.lo is False or b.hi is False and b.lo is True
            a = CTX.atoms[b.var]
            if not lit or a.kind not in ("w", "ob"):
                continue
            on = want == (b.hi is True)
            if a.kind == "w":
                d = CTX.words[a.data[0]]
                nv = wv.get(a.data[0], 0) & ~(1 << a.data[1]) | (on << a.data[1])
                wv[a.data[0]] = nv
            else:
                k = (a.data[0], a.data[1])
                ob[k] = ob.get(k, 0) & ~(1 << a.data[2]) | (on << a.data[2])
        val.memo.clear()
        return True
    if not isinstance(x, Op):
        return False
    o, a = x.op, x.args
    if o == "real":
        t = CTX.reals[a[0]]
        if not t.lo <= v <= t.hi:
            return False
        rv[a[0]] = float(v)
        val.memo.clear()
        return True
    if o == "lin":
        for t, c in sorted(a[0], key=lambda tc: abs(tc[1])):
            r = v - (val.ev(x) - val.ev(t) * c)
            if r % c == 0 and force(t, r // c, wv, rv, ob, val, depth + 1):
                return True
        return False
    if o == "ite":
        return force(a[1] if val.b(a[0]) else a[2], v, wv, rv, ob, val, depth + 1)
    if o == "fix":
        return force(a[0], v * (1 << a[1]), wv, rv, ob, val, depth + 1)
    if o in ("tofloat", "floor", "trunc", "round"):
        return force(a[0], v, wv, rv, ob, val, depth + 1)
    if o == "neg":
        return force(a[0], -v, wv, rv, ob, val, depth + 1)
    if o == "abs":
        return force(a[0], v if val.ev(a[0]) >= 0 else -v, wv, rv, ob, val, depth + 1)
    if o in ("add", "sub", "mul", "div") and len(a) == 2:
        p, q = val.ev(a[0]), val.ev(a[1])
        if o == "add":
            l, r = v - q, v - p
        elif o == "sub":
            l, r = v + q, p - v
        elif o == "mul":
            l, r = v / q if q else 0, v / p if p else 0
        else:
            l, r = v * q, p / v if v else 0
        return force(a[0], l, wv, rv, ob, val, depth + 1) or force(a[1], r, wv, rv, ob, val, depth + 1)
    return False


def find_valuation(want, rng, tries=400, extra=()):
    """a valuation making the boolean `want` true, or None.

    Purely bit-level conditions are decided exactly from the BDD; conditions with arithmetic atoms are searched at
    boundary values of the constants that occur in them and at pseudo-random points.
    """
    if want is False:
        return None
    words, reals, obs = set(), set(), set()
    seen: set = set()
    support_of(want, words, reals, obs, seen)
    for e in extra:
        support_of(e, words, reals, obs, seen)
    consts: set = set()
    cs: set = set()
    constants_in(want, consts, cs)
    for e in extra:
        constants_in(e, consts, cs)
    cand = set()
    for c in list(consts)[:80]:
        try:
            i = int(c)
        except (OverflowError, ValueError):
            continue
        cand.update((i - 1, i, i + 1, -i, -i - 1, -i + 1))
    cand = sorted(cand)
    paths = bdd_paths(want, 24) if isinstance(want, Bdd) else [{}]
    if not paths:
        return None

    def mkval(i):
        p = paths[i % len(paths)]
        wv: Dict[str, int] = {}
        ob: Dict[Any, int] = {}
        rv: Dict[str, float] = {}
        for w in words:
            d = CTX.words[w]
            m = (1 << d.nbits) - 1
            mode = rng.random()
            if i == 0:
                v = 0
            elif mode < 0.25 and cand:
                v = rng.choice(cand) & m
            elif mode < 0.37:
                v = rng.choice((0, 1, m, m - 1, m >> 1, (m >> 1) + 1, 2, 3)) & m
            elif mode < 0.45 and wv:
                v = rng.choice(sorted(wv.values())) * rng.choice((1, 1, -1)) & m
            elif mode < 0.6:
                v = rng.getrandbits(d.nbits) >> rng.randrange(d.nbits)
            else:
                v = rng.getrandbits(d.nbits)
            if d.lo is not None or d.hi is not None:
                lo = d.lo if d.lo is not None else (-(1 << d.nbits - 1) if d.signed else 0)
                hi = d.hi if d.hi is not None else ((1 << d.nbits - 1) - 1 if d.signed else m)
                sv = v - (1 << d.nbits) if d.signed and v >> (d.nbits - 1) else v
                if not lo <= sv <= hi:
                    sv = rng.choice((lo, hi, rng.randint(lo, hi)))
                v = sv & m
            wv[w] = v
        for o in obs:
            ob[o] = rng.randrange(256)
        for var, b in p.items():
            a = CTX.atoms[var]
            if a.kind == "w":
                bit = 1 << a.data[1]
                wv[a.data[0]] = wv.get(a.data[0], 0) & ~bit | (bit if b else 0)
            elif a.kind == "ob":
                bit = 1 << a.data[2]
                ob[(a.data[0], a.data[1])] = ob.get((a.data[0], a.data[1]), 0) & ~bit | (bit if b else 0)
        for r in reals:
            t = CTX.reals[r]
            mode = rng.random()
            lo, hi = t.lo, t.hi
            if mode < 0.2:
                v = rng.choice((lo, hi, 0.0, 1.0, -1.0, 0.5, -0.5))
            elif mode < 0.4 and cand:
                v = float(rng.choice(cand)) + rng.choice((0.0, 0.25, -0.25, 0.5))
            elif mode < 0.7:
                v = float(round(rng.uniform(lo, hi)))
            else:
                v = rng.uniform(lo, hi)
            if not lo <= v <= hi:
                v = rng.uniform(lo, hi)
            rv[r] = v
        val = Valuation(wv, rv, lambda l, k: ob.get((l, k), (hash((l, k)) >> 3) & 0xFF))
        if i % 3:
            # move the point towards the path's equalities and inequalities
            for var, b in p.items():
                a = CTX.atoms[var]
                if a.kind not in ("eq", "lt", "lt0"):
                    continue
                try:
                    x, y = a.data if a.kind != "lt0" else (a.data[0], 0)
                    if i % 2:
                        x, y = y, x
                    val.memo.clear()
                    now = val.atom(var)
                    if now == b or a.kind == "eq" and not b:
                        continue
                    t = val.ev(y)
                    if a.kind != "eq":
                        up = (not b) ^ bool(i % 2)
                        t += (0 if up and not b or (not up and not b) else 1 if up else -1)
                    force(x, t, wv, rv, ob, val, 0)
                except (ZeroDivisionError, OverflowError, ValueError, KeyError, TypeError):
                    continue
            val.memo.clear()
        return val

    def in_range(val):
        for w, v in val.words.items():
            d = CTX.words[w]
            sv = v - (1 << d.nbits) if d.signed and v >> (d.nbits - 1) else v
            if d.lo is not None and sv < d.lo or d.hi is not None and sv > d.hi:
                return False
        return all(CTX.reals[r].lo <= v <= CTX.reals[r].hi for r, v in val.reals.items())

    pure = True
    if isinstance(want, Bdd):
        for v in bsupport(want):
            if CTX.atoms[v].kind not in ("w", "ob"):
                pure = False
    n = min(tries, len(paths) * 2) if pure else tries
    for i in range(max(n, 1)):
        val = mkval(i)
        try:
            if (val.ev(want) is True or want is True) and in_range(val):
                return val
        except (ZeroDivisionError, OverflowError, ValueError, KeyError, TypeError):
            continue
    return None
