"""Abstract interpreter over Python syntax trees.

The program under analysis is never imported or run: its syntax trees are evaluated over the abstract domain of
terms.py/values.py.  Undetermined conditions fork the abstract state and join it again where control meets (gated
joins); a value that has no join becomes a guarded `Choice`, and a statement that needs to look into one is analysed
once per side (local trace partitioning) and joined afterwards.
"""

from __future__ import annotations

import time
import ast
import builtins
import collections
import collections.abc
import enum
import importlib
import io
import sys

from . import terms as T
from .values import *  # noqa: F401,F403
from .values import _Sing  # noqa: F401


class Budget(Exception):
    """analysis budget exhausted (possible non-termination); carries the loop site"""

    def __init__(self, what, site):
        super().__init__(what)
        self.what, self.site = what, site


class Level:
    __slots__ = ("saved", "start")

    def __init__(self):
        self.saved = {}
        self.start = SERIAL[0]


class Part:
    __slots__ = ("g", "kind", "val", "delta", "site")

    def __init__(self, g, kind, val, delta, site=None):
        self.g, self.kind, self.val, self.delta, self.site = g, kind, val, delta, site


class Parts:
    __slots__ = ("parts", "start")

    def __init__(self, parts, start):
        self.parts, self.start = parts, start


class Info:
    """static scope information of a function-like node"""

    __slots__ = ("locals", "globals", "nonlocals", "isgen", "params")

    def __init__(self):
        self.locals, self.globals, self.nonlocals, self.isgen = set(), set(), set(), False
        self.params = None


class _Scope(ast.NodeVisitor):
    def __init__(self, info):
        self.i = info

    def visit_FunctionDef(self, n):
        self.i.locals.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.i.locals.add(n.name)
        for d in n.decorator_list + n.bases:
            self.visit(d)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    def _comp(self, n):
        # only walrus targets leak
        for s in ast.walk(n):
            if isinstance(s, ast.NamedExpr):
                self.i.locals.add(s.target.id)
            if isinstance(s, (ast.Yield, ast.YieldFrom)):
                pass
        self.visit(n.generators[0].iter)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.i.locals.add(n.id)

    def visit_Global(self, n):
        self.i.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.i.nonlocals.update(n.names)

    def visit_Yield(self, n):
        self.i.isgen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_ExceptHandler(self, n):
        if n.name:
            self.i.locals.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.i.locals.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.i.locals.add(a.asname or a.name)

    def visit_MatchAs(self, n):
        if n.name:
            self.i.locals.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.i.locals.add(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.i.locals.add(n.rest)
        self.generic_visit(n)


def scope_of(node):
    info = getattr(node, "_info", None)
    if info is not None:
        return info
    info = Info()
    sc = _Scope(info)
    if isinstance(node, ast.Lambda):
        sc.visit(node.body)
    elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        for s in node.body:
            sc.visit(s)
    elif isinstance(node, ast.ClassDef):
        for s in node.body:
            sc.visit(s)
    elif isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        for g in node.generators:
            for s in ast.walk(g.target):
                if isinstance(s, ast.Name):
                    info.locals.add(s.id)
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        info.locals.update(names)
        info.params = names
    info.locals -= info.globals | info.nonlocals
    node._info = info
    return info


R, B, C, N, X = "R", "B", "C", "N", "X"
BRK = (B, None)
CNT = (C, None)

_BIN = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
    ast.Pow: "pow", ast.LShift: "lshift", ast.RShift: "rshift", ast.BitAnd: "and", ast.BitOr: "or",
    ast.BitXor: "xor", ast.MatMult: "matmul",
}
_SYM = {
    "add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**", "lshift": "<<",
    "rshift": ">>", "and": "&", "or": "|", "xor": "^", "matmul": "@",
}
_HOST = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "truediv": lambda a, b: a / b,
    "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b, "pow": lambda a, b: a ** b,
    "lshift": lambda a, b: a << b, "rshift": lambda a, b: a >> b, "and": lambda a, b: a & b,
    "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
}
_TERM = {
    "add": T.add, "sub": T.sub, "mul": T.mul, "truediv": T.truediv, "floordiv": T.floordiv, "mod": T.mod,
    "pow": T.pow_, "lshift": T.i_shl, "rshift": T.i_shr, "and": T.i_and, "or": T.i_or, "xor": T.i_xor,
}
_CMPD = {ast.Lt: ("__lt__", "__gt__"), ast.Gt: ("__gt__", "__lt__"), ast.LtE: ("__le__", "__ge__"), ast.GtE: ("__ge__", "__le__")}


class Machine:
    def __init__(self):
        self.levels = []
        self.care = True
        self.steps = 0
        self.max_steps = 4_000_000
        self.deadline = float("inf")
        self.max_loop = 200_000
        self.splits = 0
        self.max_splits = 4000
        self.stack = []  # (AFunc, call site line)
        self.line = 0
        self.modules = {}
        self.builtins = {}
        self.classes = {}
        self.analysed = set()  # repository functions entered
        self.callsites = set()
        self.branches = 0
        self.forks = 0
        self.zlib = {}
        self.fs = None
        self._st = {}
        self._ex = {}
        self.repo_prefix = None
        self.case_fns = {}
        self.extra = {}
        self.all_ = []
        for n in dir(self):
            if n.startswith("st_"):
                self._st[getattr(ast, n[3:])] = getattr(self, n)
            elif n.startswith("ex_"):
                self._ex[getattr(ast, n[3:])] = getattr(self, n)

    # ------------------------------------------------------------------ decisions
    def decide(self, c):
        if c is True or c is False:
            return c
        k = T.band(self.care, c)
        if k is False:
            return False
        if k is self.care:
            return True
        return None

    def want(self, c):
        d = self.decide(c)
        if d is None:
            raise SplitRequest(c)
        return d

    def res(self, v):
        while type(v) is Choice:
            d = self.decide(v.cond)
            if d is None:
                raise SplitRequest(v.cond)
            v = v.a if d else v.b
        return v

    def con(self, o):
        c = o.c
        while type(c) is ChoiceC:
            d = self.decide(c.cond)
            if d is None:
                raise SplitRequest(c.cond)
            c = c.a if d else c.b
        return c

    def wcon(self, o):
        """content for in-place change"""
        c = o.c
        if type(c) is ChoiceC:
            c = self.con(o)
            self.touch(o)
            c = dict(c) if type(c) is dict else list(c) if type(c) is list else c
            o.c = c
            return c
        self.touch(o)
        return o.c

    def setc(self, o, c):
        self.touch(o)
        o.c = c

    # ------------------------------------------------------------------ journal
    def touch(self, o):
        ls = self.levels
        if ls:
            l = ls[-1]
            if o.serial <= l.start and o not in l.saved:
                # the original stays as it is (other paths may refer to it); this path goes on with a copy
                l.saved[o] = o.c
                o.c = o.snap()

    def push(self):
        self.levels.append(Level())

    def commit(self):
        l = self.levels.pop()
        if self.levels:
            p = self.levels[-1]
            for o, s in l.saved.items():
                if o.serial <= p.start and o not in p.saved:
                    p.saved[o] = s

    def rollback(self):
        l = self.levels.pop()
        for o, s in l.saved.items():
            o.c = s
        return l

    def collect(self):
        l = self.levels.pop()
        d = {}
        for o, s in l.saved.items():
            d[o] = o.c
            o.c = s
        return d

    def apply(self, delta):
        for o, c in delta.items():
            self.touch(o)
            o.c = c
            o.c = o.snap()

    # ------------------------------------------------------------------ forks
    def run_fork(self, g, k):
        """k() under the assumption g; returns parts relative to the current state"""
        care = T.band(self.care, g)
        if care is False:
            return [], 0
        self.forks += 1
        if self.forks > 400_000:
            raise Unsupported("too many forks")
        old = self.care
        depth = len(self.levels)
        sd = len(self.stack)
        self.push()
        start = self.levels[-1].start
        self.care = care
        try:
            site = None
            try:
                o = k()
            except Raised as e:
                o = (X, e.exc)
                site = e.site
            delta = self.collect()
        except BaseException:
            while len(self.levels) > depth:
                self.rollback()
            raise
        finally:
            self.care = old
            del self.stack[sd:]
        if type(o) is Parts:
            out = []
            for p in o.parts:
                d = dict(delta)
                d.update(p.delta)
                out.append(Part(T.band(g, p.g), p.kind, p.val, d, p.site))
            return out, start
        kind, val = (N, None) if o is None else o
        return [Part(g, kind, val, delta, site)], start

    def fork_on(self, c, ka, kb):
        self.branches += 1
        pa, s1 = self.run_fork(c, ka)
        pb, s2 = self.run_fork(T.bnot(c), kb)
        start = min(x for x in (s1 or 1 << 60, s2 or 1 << 60))
        return self.mkparts([pa, pb], start)

    def mkparts(self, sides, start):
        """join parts of the same kind; sides: lists of parts that do not share objects created after `start`"""
        red = []
        for s in sides:
            red.append(self._reduce(s, None))
        allp = [p for s in red for p in s]
        if not allp:
            raise Unsupported("no feasible continuation")
        allp = self._reduce(allp, start) if len([s for s in red if s]) > 1 else allp
        if len(allp) == 1:
            p = allp[0]
            self.apply(p.delta)
            if p.kind == X:
                raise Raised(p.val, p.site)
            if p.kind == N:
                return None
            # loops recognise these two by identity
            return CNT if p.kind == C else BRK if p.kind == B else (p.kind, p.val)
        return Parts(allp, start)

    def _reduce(self, parts, start):
        out = []
        for p in parts:
            for i, q in enumerate(out):
                if q.kind == p.kind and (p.kind != X or self._same_exc(p.val, q.val)):
                    out[i] = self._join(q, p, start)
                    break
            else:
                out.append(p)
        return out

    def _same_exc(self, a, b):
        return a is b or (isinstance(a, AInst) and isinstance(b, AInst) and a.cls is b.cls)

    def _join(self, p, q, start):
        g = p.g
        delta = {}
        for o in list(p.delta) + [o for o in q.delta if o not in p.delta]:
            ina, inb = o in p.delta, o in q.delta
            if start is not None and o.serial > start and ina != inb:
                delta[o] = p.delta[o] if ina else q.delta[o]
                continue
            a = p.delta[o] if ina else o.c
            b = q.delta[o] if inb else o.c
            delta[o] = a if a is b else self.merge_content(g, o, a, b)
        if p.kind != X:
            val = self.merge(g, p.val, q.val)
        elif p.val is q.val or not (isinstance(p.val, AInst) and isinstance(q.val, AInst)):
            val = p.val
        else:
            val = AInst(p.val.cls)
            val.c = self.merge_content(g, val, p.delta.get(p.val, p.val.c), q.delta.get(q.val, q.val.c))
        return Part(T.bor(p.g, q.g), p.kind, val, delta, p.site or q.site)

    def cont(self, o, f):
        """continue every part of outcome o with f(kind, val) -> outcome"""
        if type(o) is not Parts:
            kind, val = (N, None) if o is None else o
            return f(kind, val)
        sides = []
        start = o.start
        for p in o.parts:

            def k(p=p):
                self.apply(p.delta)
                if p.kind == X:
                    r = f(p.kind, Raised(p.val, p.site))
                else:
                    r = f(p.kind, p.val)
                return r

            parts, _ = self.run_fork(p.g, k)
            sides.append(parts)
        return self.mkparts(sides, start)

    def capture(self, k):
        """outcome of k with exceptions reified as (X, Raised)"""
        sd = len(self.stack)
        try:
            return k()
        except Raised as e:
            del self.stack[sd:]
            return (X, e)

    def merge_content(self, g, o, a, b):
        if type(a) is ChoiceC or type(b) is ChoiceC:
            return ChoiceC(g, a, b)
        if isinstance(o, (AInst, Env, AClass, AModule)):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                x, y = a.get(k, UNBOUND), b.get(k, UNBOUND)
                out[k] = x if x is y else self.merge(g, x, y)
            return out
        if isinstance(o, AList):
            if len(a) == len(b):
                return [x if x is y else self.merge(g, x, y) for x, y in zip(a, b)]
            return ChoiceC(g, a, b)
        if isinstance(o, ADict):
            if list(a) == list(b):
                return {k: (a[k][0], self.merge(g, a[k][1], b[k][1])) for k in a}
            return ChoiceC(g, a, b)
        if isinstance(o, AStream):
            if a[1] == b[1] and a[2] == b[2]:
                v = self.merge(g, a[0], b[0])
                if type(v) is not Choice:
                    return (v, a[1], a[2])
            return ChoiceC(g, a, b)
        if isinstance(o, AByteArray):
            v = self.merge(g, a, b)
            return ChoiceC(g, a, b) if type(v) is Choice else v
        if isinstance(o, AFs):
            if list(a) == list(b):
                return {k: self.merge(g, a[k], b[k]) for k in a}
            return ChoiceC(g, a, b)
        if a == b:
            return a
        return ChoiceC(g, a, b)

    def merge(self, g, a, b):
        if a is b:
            return a
        ta, tb = type(a), type(b)
        if ta is Choice and ta is tb and a.cond is b.cond:
            return Choice(a.cond, self.merge(g, a.a, b.a), self.merge(g, a.b, b.b))
        sa, sb = T.sort_of(a), T.sort_of(b)
        if sa is not None and sa == sb:
            return T.ite(g, a, b)
        if sa is not None and sb is not None:
            return Choice(g, a, b)
        if ta is tb:
            if ta in (str, bytes):
                if a == b:
                    return a
            elif ta is tuple and len(a) == len(b):
                return tuple(self.merge(g, x, y) for x, y in zip(a, b))
            elif ta is EnumMember and a.cls is b.cls and T.sort_of(a.value) == "i" and T.sort_of(b.value) == "i":
                return self.mkenum(a.cls, T.ite(g, a.value, b.value))
            elif ta is AMethod and a.func is b.func and a.self_ is b.self_:
                return a
        if ta in (EnumMember, EnumTerm) and tb in (EnumMember, EnumTerm) and a.cls is b.cls:
            x = a.value if ta is EnumMember else a.term
            y = b.value if tb is EnumMember else b.term
            if T.sort_of(x) == "i" and T.sort_of(y) == "i":
                return self.mkenum(a.cls, T.ite(g, x, y))
        if ta in (bytes, Rope) and tb in (bytes, Rope) and blen(a) == blen(b) and blen(a) <= 4096:
            if bkey(a) == bkey(b):
                return a
            if blen(a) <= 256:
                return mkbytes([tuple(T.ite(g, x, y) for x, y in zip(bitems(a), bitems(b)))])
        if ta in (str, SStr) and tb in (str, SStr):
            ra, rb = srope(a), srope(b)
            if blen(ra) == blen(rb) and blen(ra) <= 256:
                return mkstr(mkbytes([tuple(T.ite(g, x, y) for x, y in zip(bitems(ra), bitems(rb)))]))
        return Choice(g, a, b)

    # ------------------------------------------------------------------ errors
    def exc(self, name, *args):
        cls = self.classes[name] if isinstance(name, str) else name
        e = AInst(cls)
        e.c["args"] = tuple(args)
        return e

    def throw(self, name, *args):
        raise Raised(self.exc(name, *args), self.site())

    def site(self):
        out = []
        line = self.line
        for fn, ln in reversed(self.stack):
            if fn.module is not None:
                out.append((fn.module.path, line, fn.qual))
            line = ln
        return out

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, env, i=0):
        n = len(stmts)
        while i < n:
            o = self.exec_stmt(stmts[i], env)
            i += 1
            if o is None:
                continue
            if type(o) is Parts:
                if any(p.kind == N for p in o.parts):

                    def f(kind, val, i=i):
                        if kind == N:
                            return self.exec_block(stmts, env, i)
                        if kind == X:
                            raise val
                        return CNT if kind == C else BRK if kind == B else (kind, val)

                    return self.cont(o, f)
                return o
            return o
        return None

    def exec_stmt(self, st, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("statement budget exhausted", self.site())
        if not self.steps & 511 and time.time() > self.deadline:
            raise Budget("time budget exhausted", self.site())
        self.line = st.lineno
        f = self._st.get(type(st))
        if f is None:
            raise Unsupported(f"statement {type(st).__name__} line {st.lineno}")
        self.push()
        try:
            o = f(st, env)
        except SplitRequest as s:
            self.rollback()
            cond = s.cond
        except Raised:
            self.commit()
            raise
        except BaseException:
            self.rollback()
            raise
        else:
            self.commit()
            return o
        self.splits += 1
        if self.splits > self.max_splits:
            raise Unsupported("too many partitions")
        if self.decide(cond) is not None:
            raise Unsupported("split on a decided condition")
        k = lambda: self.exec_stmt(st, env)  # noqa: E731
        return self.fork_on(cond, k, k)

    def st_Expr(self, st, env):
        if env.hook is not None:
            if type(st.value) is ast.Yield:
                return env.hook(None if st.value.value is None else self.ev(st.value.value, env))
            if type(st.value) is ast.YieldFrom:
                return self.delegate(self.ev(st.value.value, env), env.hook)
        if type(st.value) is ast.YieldFrom:
            self.yield_all(self.ev(st.value.value, env), env)
        else:
            self.ev(st.value, env)

    def delegate(self, src, hook):
        """yield from inside a driven generator"""
        src = self.res(src)
        if type(src) is AIter and src.drive is not None and self.con(src) == (None, 0):
            self.setc(src, ((), 0))
            o = self.capture(lambda: src.drive(hook))
            return self.cont(o, lambda kind, val: self.reraise(kind, val) if kind == X else None)
        it = self.iter_items(src, lazy=True)
        live = isinstance(it, _Live)

        def go(i):
            while True:
                if isinstance(it, list) or live:
                    if i >= (it.size(self) if live else len(it)):
                        return None
                    v = it.at(self, i) if live else it[i]
                else:
                    v = it.next(self)
                    if v is UNBOUND:
                        return None
                i += 1
                if i > self.max_loop:
                    raise Budget("loop does not come to an end", self.site())
                o = hook(v)
                if o is None:
                    continue
                return self.loop_parts(o, lambda: go(i))

        return go(0)

    def for_gen(self, st, env, drive):
        """loop over a fresh generator: its body runs with the body of the loop in place of each yield"""

        def leave(kind, val):
            if kind in (N, C):
                return None
            e = self.exc({B: "_GenBreak", R: "_GenReturn", X: "_GenRaise"}[kind])
            e.c["value"] = val.exc if kind == X else val
            raise Raised(e, val.site if kind == X else self.site())

        def hook(v):
            self.assign(st.target, v, env)
            return self.cont(self.capture(lambda: self.exec_block(st.body, env)), leave)

        def after(kind, val):
            if kind != X:
                return self.exec_block(st.orelse, env)
            name = val.exc.cls.name
            if name == "_GenBreak":
                return None
            v = self.con(val.exc).get("value")
            if name == "_GenReturn":
                return (R, v)
            if name == "_GenRaise":
                raise Raised(v, val.site)
            raise val

        return self.cont(self.capture(lambda: drive(hook)), after)

    def with_gen(self, st, env, i, drive):
        """with a @contextmanager generator: its body runs with the body of the statement in place of the yield"""
        item = st.items[i]
        pend = AList([])
        seen = AList([])

        def hook(v):
            if self.con(seen):
                raise Unsupported("context manager that yields twice")
            self.wcon(seen).append(1)

            def body():
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, env)
                return self.with_(st, env, i + 1)

            def resume(kind, val):
                if kind == X:
                    raise val
                if kind != N:
                    self.wcon(pend).append((kind, val))
                return None

            return self.cont(self.capture(body), resume)

        def after(kind, val):
            if kind == X:
                raise val
            if not self.con(seen):
                raise Unsupported("context manager that does not yield")
            p = self.con(pend)
            if not p:
                return None
            kind, val = p[0]
            return CNT if kind == C else BRK if kind == B else (kind, val)

        return self.cont(self.capture(lambda: drive(hook)), after)

    def st_Pass(self, st, env):
        return None

    def st_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if env.kind == "class" and isinstance(st.target, ast.Name):
            ann = env.c.setdefault("__annotations__", ())
            if not any(a == st.target.id for a, _ in ann):
                txt = ast.unparse(st.annotation)
                env.c["__annotations__"] = ann + ((st.target.id, txt),)
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def st_AugAssign(self, st, env):
        t = st.target
        op = _BIN[type(st.op)]
        if isinstance(t, ast.Name):
            cur = self.load(t.id, env)
            self.store(t.id, self.inplace(op, cur, self.ev(st.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.inplace(op, cur, self.ev(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.ev(st.value, env)))
        else:
            raise Unsupported("augmented target")

    def st_Return(self, st, env):
        return (R, None if st.value is None else self.ev(st.value, env))

    def st_Break(self, st, env):
        return BRK

    def st_Continue(self, st, env):
        return CNT

    def st_Global(self, st, env):
        return None

    st_Nonlocal = st_Global

    def st_Assert(self, st, env):
        c = self.truth(self.ev(st.test, env))
        d = self.decide(c)
        if d is True:
            return None

        def fail():
            msg = (self.ev(st.msg, env),) if st.msg is not None else ()
            self.throw("AssertionError", *msg)

        if d is False:
            fail()
        return self.fork_on(c, lambda: None, fail)

    def st_If(self, st, env):
        c = self.truth(self.ev(st.test, env))
        d = self.decide(c)
        if d is True:
            return self.exec_block(st.body, env)
        if d is False:
            return self.exec_block(st.orelse, env)
        return self.fork_on(c, lambda: self.exec_block(st.body, env), lambda: self.exec_block(st.orelse, env))

    def st_While(self, st, env):
        return self.while_(st, env, 0)

    def while_(self, st, env, n):
        while True:
            n += 1
            if n > self.max_loop:
                self.line = st.lineno
                raise Budget("loop does not come to an end", self.site())
            self.line = st.lineno
            self.push()
            try:
                c = self.truth(self.ev(st.test, env))
                d = self.decide(c)
            except SplitRequest as s:
                self.rollback()
                k = lambda: self.while_(st, env, n)  # noqa: E731
                return self.fork_on(s.cond, k, k)
            except BaseException:
                self.commit()
                raise
            self.commit()
            if d is None:
                return self.fork_on(
                    c, lambda: self.while_body(st, env, n), lambda: self.exec_block(st.orelse, env)
                )
            if d is False:
                return self.exec_block(st.orelse, env)
            o = self.exec_block(st.body, env)
            if o is None or o == CNT:
                continue
            if o == BRK:
                return None
            if type(o) is Parts:
                return self.loop_parts(o, lambda: self.while_(st, env, n))
            return o

    def while_body(self, st, env, n):
        o = self.exec_block(st.body, env)
        return self.loop_parts(o, lambda: self.while_(st, env, n))

    def loop_parts(self, o, again):
        # join fall-through and continue first
        def f(kind, val):
            if kind in (N, C):
                return again()
            if kind == B:
                return None
            if kind == X:
                raise val
            return (kind, val)

        if type(o) is Parts:
            parts = [Part(p.g, N if p.kind == C else p.kind, p.val, p.delta, p.site) for p in o.parts]
            parts = self._reduce(parts, None)
            o = Parts(parts, o.start)
        return self.cont(o, f)

    def st_For(self, st, env):
        src = self.res(self.ev(st.iter, env))
        if type(src) is AIter and src.drive is not None and type(st.iter) is ast.Call and self.con(src) == (None, 0):
            self.setc(src, ((), 0))
            return self.for_gen(st, env, src.drive)
        it = self.iter_items(src, lazy=True)
        if isinstance(it, list):
            return self.for_list(st, env, it, 0)
        return self.for_iter(st, env, it, 0)

    def for_list(self, st, env, items, i):
        tgt = st.target
        live = isinstance(items, _Live)
        while True:
            if i >= (items.size(self) if live else len(items)):
                return self.exec_block(st.orelse, env)
            v = items.at(self, i) if live else items[i]
            i += 1
            if i > self.max_loop:
                raise Budget("loop does not come to an end" if live else "finite loop too long", self.site())
            self.line = st.lineno
            self.assign(tgt, v, env)
            o = self.exec_block(st.body, env)
            if o is None or o == CNT:
                continue
            if o == BRK:
                return None
            if type(o) is Parts:
                return self.loop_parts(o, lambda: self.for_list(st, env, items, i))
            return o

    def for_iter(self, st, env, it, n):
        while True:
            n += 1
            if n > self.max_loop:
                raise Budget("loop does not come to an end", self.site())
            self.push()
            try:
                v = it.next(self)
            except SplitRequest as s:
                self.rollback()
                k = lambda: self.for_iter(st, env, it, n)  # noqa: E731
                return self.fork_on(s.cond, k, k)
            except BaseException:
                self.commit()
                raise
            self.commit()
            if v is UNBOUND:
                return self.exec_block(st.orelse, env)
            self.line = st.lineno
            self.assign(st.target, v, env)
            o = self.exec_block(st.body, env)
            if o is None or o == CNT:
                continue
            if o == BRK:
                return None
            if type(o) is Parts:
                return self.loop_parts(o, lambda: self.for_iter(st, env, it, n))
            return o

    def st_With(self, st, env):
        return self.with_(st, env, 0)

    def with_(self, st, env, i):
        if i == len(st.items):
            return self.exec_block(st.body, env)
        item = st.items[i]
        cm = self.res(self.ev(item.context_expr, env))
        cls = self.type_of(cm)
        if cls is self.classes.get("_GeneratorContextManager"):
            gen = cm.payload
            if gen.drive is None or self.con(gen) != (None, 0):
                raise Unsupported("context manager of this form")
            self.setc(gen, ((), 0))
            return self.with_gen(st, env, i, gen.drive)
        ex = self.lookup(cls, "__exit__")
        en = self.lookup(cls, "__enter__")
        if en is UNBOUND or ex is UNBOUND:
            v = self.call(self.getattr_(cm, "__enter__"), [])
            exit_ = self.getattr_(cm, "__exit__")
        else:
            v = self.call(self.bind(en, cm, cls), [])
            exit_ = self.bind(ex, cm, cls)

        def body():
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
            return self.with_(st, env, i + 1)

        o = self.capture(body)

        def f(kind, val):
            if kind == X:
                e = val.exc
                r = self.truth(self.call(exit_, [self.type_of(e), e, None]))
                if self.want(r):
                    return None
                raise val
            self.call(exit_, [None, None, None])
            return None if kind == N else (kind, val)

        return self.cont(o, f)

    def st_Try(self, st, env):
        o = self.capture(lambda: self.exec_block(st.body, env))

        def handle(kind, val):
            if kind == N:
                return self.exec_block(st.orelse, env)
            if kind != X:
                return (kind, val)
            e = val.exc
            for h in st.handlers:
                if h.type is None:
                    ok = True
                else:
                    t = self.res(self.ev(h.type, env))
                    ts = t if isinstance(t, tuple) else (t,)
                    ts = [self.res(x) for x in ts]
                    ok = any(x in self.type_of(e).mro for x in ts)
                    if not ok and any(not isinstance(x, AClass) for x in ts):
                        raise Unsupported("except with a class that is not modelled")
                if ok:
                    if h.name:
                        self.store(h.name, e, env)
                    saved = self.extra.get("handling")
                    self.extra["handling"] = val
                    try:
                        return self.exec_block(h.body, env)
                    finally:
                        self.extra["handling"] = saved
            raise val

        o = self.capture(lambda: self.cont(o, handle))
        if not st.finalbody:
            return self.cont(o, self.reraise)

        def fin(kind, val):
            r = self.exec_block(st.finalbody, env)

            def g(k2, v2):
                if k2 == N:
                    return self.reraise(kind, val)
                if k2 == X:
                    raise v2
                return (k2, v2)

            return self.cont(r, g)

        return self.cont(o, fin)

    st_TryStar = st_Try

    def reraise(self, kind, val):
        if kind == X:
            raise val
        return None if kind == N else (kind, val)

    def st_Raise(self, st, env):
        if st.exc is None:
            h = self.extra.get("handling")
            if h is None:
                self.throw("RuntimeError", "No active exception to reraise")
            raise h
        e = self.res(self.ev(st.exc, env))
        if isinstance(e, AClass):
            e = self.call(e, [])
        cause = None if st.cause is None else self.res(self.ev(st.cause, env))
        if not isinstance(e, AInst) or not e.cls.isexc:
            self.throw("TypeError", "exceptions must derive from BaseException")
        if isinstance(cause, AClass):
            cause = self.call(cause, [])
        if cause is not None:
            self.wcon(e)["__cause__"] = cause
        raise Raised(e, self.site())

    def st_Delete(self, st, env):
        for t in st.targets:
            self.delete(t, env)

    def delete(self, t, env):
        if isinstance(t, ast.Name):
            e = self.find_env(t.id, env)
            self.wcon(e).pop(t.id, None)
        elif isinstance(t, ast.Attribute):
            self.delattr_(self.ev(t.value, env), t.attr)
        elif isinstance(t, ast.Subscript):
            self.delitem(self.ev(t.value, env), self.ev_index(t.slice, env))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x, env)
        else:
            raise Unsupported("del target")

    def st_FunctionDef(self, st, env):
        f = self.mkfunc(st, env, st.name)
        v = f
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d, env), [v])
        self.store(st.name, v, env)

    def mkfunc(self, node, env, name):
        info = scope_of(node)
        qual = name
        if env.kind == "class":
            qual = f"{env.fn}.{name}"
        elif env.kind == "f" and env.fn is not None and isinstance(env.fn, AFunc):
            qual = f"{env.fn.qual}.<locals>.{name}"
        f = AFunc(node, env, env.module, name, qual, info)
        a = node.args
        f.defaults = [self.ev(d, env) for d in a.defaults]
        f.kwdefaults = {x.arg: self.ev(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.isgen = info.isgen
        return f

    def st_ClassDef(self, st, env):
        bases = [self.res(self.ev(b, env)) for b in st.bases if not isinstance(b, ast.Starred)]
        kw = {k.arg: self.res(self.ev(k.value, env)) for k in st.keywords}
        cenv = Env(env, env.module, scope_of(st), "class")
        cenv.fn = st.name if env.kind != "class" else f"{env.fn}.{st.name}"
        cenv.c["__module__"] = env.module.name if env.module else ""
        cenv.c["__qualname__"] = cenv.fn
        doc = ast.get_docstring(st)
        cenv.c["__doc__"] = doc
        o = self.exec_block(st.body, cenv)
        if o is not None:
            raise Unsupported("class body outcome")
        cls = self.make_class(st.name, bases, dict(self.con(cenv)), env.module, kw, st)
        v = cls
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d, env), [v])
        self.store(st.name, v, env)

    def make_class(self, name, bases, ns, module, kw, node=None):
        bases = [self.base_class(b) for b in bases]
        bases = [b for b in bases if b is not None]
        if not bases:
            bases = [self.classes["object"]]
        elif len(bases) > 1 and self.classes["object"] in bases:
            bases = [b for b in bases if b is not self.classes["object"]]
        meta = kw.pop("metaclass", None)
        if isinstance(meta, AClass) and any(n in k.c for k in meta.mro if k.module is not None and not k.module.path.startswith("<model") for n in ("__new__", "__init__", "__call__", "__prepare__")):
            raise Unsupported("metaclass with hooks")
        if "__eq__" in ns and "__hash__" not in ns:
            ns["__hash__"] = None
        if any(b.name == "NamedTuple" and b.native for b in bases):
            return self.namedtuple_class(name, ns, module, node)
        cls = AClass(name, bases, ns, module)
        self.all_.append(cls)
        cls.node = node
        if node is not None:
            cls.qual = ns.get("__qualname__", name)
        cls.meta = meta or next((b.meta for b in bases if b.meta), None)
        for v in list(ns.values()):
            f = v.f if isinstance(v, (AStatic, AClassMethod)) else v
            if isinstance(f, AFunc) and f.cls is None and f.env.kind == "class":
                f.cls = cls
            if isinstance(v, AProperty):
                for g in (v.fget, v.fset, v.fdel):
                    if isinstance(g, AFunc) and g.cls is None and g.env.kind == "class":
                        g.cls = cls
        if cls.enum is not None:
            self.finish_enum(cls)
        for k, v in list(ns.items()):
            if isinstance(v, AInst):
                sn = self.lookup(v.cls, "__set_name__")
                if sn is not UNBOUND:
                    self.call(self.bind(sn, v, v.cls), [cls, k])
        isub = self.lookup_from(cls, 1, "__init_subclass__")
        if isub is not UNBOUND and not isinstance(isub, Native):
            f = isub.f if isinstance(isub, (AClassMethod, AStatic)) else isub
            self.call(f, [cls], kw)
        return cls

    def base_class(self, b):
        if isinstance(b, AClass):
            return b
        if isinstance(b, TypeGeneric):
            return self.classes.get("Protocol") if b.name == "Protocol" else None
        raise Unsupported(f"base class {b!r}")

    def finish_enum(self, cls):
        ns = cls.c
        members = {}
        intlike = cls.enum in ("int", "flag")
        auto = 0
        for k in list(ns):
            v = ns[k]
            if k.startswith("_") or isinstance(v, (AFunc, AProperty, AStatic, AClassMethod, Native, AClass)):
                continue
            if isinstance(v, _Auto):
                if cls.enum in ("flag", "pflag"):
                    v = 1 << auto
                else:
                    v = (max([m.value for m in members.values() if isinstance(m.value, int)] or [0])) + 1
            if isinstance(v, EnumMember):
                v = v.value
            auto += 1
            alias = next((m for m in members.values() if type(m.value) is type(v) and m.value == v), None)
            m = alias or EnumMember(cls, k, v)
            members[k] = m
            ns[k] = m
        ns["__members__"] = members
        ns["_intlike_"] = intlike

    # match statement
    def st_Match(self, st, env):
        subj = self.ev(st.subject, env)
        return self.match_from(st, env, subj, 0)

    def match_from(self, st, env, subj, i):
        while i < len(st.cases):
            cs = st.cases[i]
            c = self.match_pat(cs.pattern, subj, env)
            if c is not False and cs.guard is not None:
                c = T.band(c, self.truth(self.ev(cs.guard, env)))
            d = self.decide(c)
            if d is True:
                return self.exec_block(cs.body, env)
            if d is None:
                return self.fork_on(
                    c,
                    lambda: self.exec_block(cs.body, env),
                    lambda: self.match_from(st, env, subj, i + 1),
                )
            i += 1
        return None

    def match_pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            c = True if p.pattern is None else self.match_pat(p.pattern, v, env)
            if p.name and c is not False:
                self.store(p.name, v, env)
            return c
        if isinstance(p, ast.MatchOr):
            c = False
            for q in p.patterns:
                c = T.bor(c, self.match_pat(q, v, env))
            return c
        if isinstance(p, ast.MatchSequence):
            v = self.res(v)
            if not isinstance(v, tuple) and not isinstance(v, AList):
                return False
            items = list(v) if isinstance(v, tuple) else list(self.con(v))
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star and len(items) != len(p.patterns):
                return False
            pats = list(p.patterns)
            if star:
                i, n = star[0], len(items) - len(pats) + 1
                if n < 0:
                    return False
                if pats[i].name:
                    self.store(pats[i].name, AList(items[i : i + n]), env)
                del pats[i], items[i : i + n]
            c = True
            for q, x in zip(pats, items):
                c = T.band(c, self.match_pat(q, x, env))
            return c
        if isinstance(p, ast.MatchClass):
            v = self.res(v)
            cls = self.res(self.ev(p.cls, env))
            if cls not in self.type_of(v).mro:
                return False
            c = True
            if len(p.patterns) == 1 and cls.native:
                c = self.match_pat(p.patterns[0], v, env)
            elif p.patterns:
                ma = self.getattr_(cls, "__match_args__")
                for q, n in zip(p.patterns, ma):
                    c = T.band(c, self.match_pat(q, self.getattr_(v, n), env))
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                c = T.band(c, self.match_pat(q, self.getattr_(v, n), env))
            return c
        if isinstance(p, ast.MatchMapping) and p.rest is None:
            v = self.res(v)
            if not isinstance(v, ADict):
                if isinstance(v, AInst):
                    raise Unsupported("mapping pattern on an object")
                return False
            c = True
            for k, q in zip(p.keys, p.patterns):
                x = self.dict_find(v, self.ev(k, env))
                if x is UNBOUND:
                    return False
                c = T.band(c, self.match_pat(q, x, env))
            return c
        raise Unsupported("pattern " + type(p).__name__)

    # ------------------------------------------------------------------ imports
    def st_Import(self, st, env):
        for a in st.names:
            m = self.import_(a.name)
            if a.asname:
                self.store(a.asname, m, env)
            else:
                top = a.name.split(".")[0]
                self.store(top, self.import_(top), env)

    def st_ImportFrom(self, st, env):
        base = st.module or ""
        if st.level:
            pkg = env.module.name.split(".")
            if not env.module.path.endswith("__init__.py"):
                pkg = pkg[:-1]
            pkg = pkg[: len(pkg) - (st.level - 1)]
            base = ".".join(pkg + ([base] if base else []))
        m = self.import_(base)
        for a in st.names:
            if a.name == "*":
                for k, v in m.c.items():
                    if not k.startswith("_"):
                        self.store(k, v, env)
                continue
            v = m.c.get(a.name, UNBOUND)
            if v is UNBOUND:
                h = host_module(base) if m.path.startswith("<model") else None
                if h is not None and hasattr(h, a.name) and base + "." + a.name not in self.modules:
                    self.store(a.asname or a.name, unmodelled(f"{base}.{a.name}"), env)
                    continue
                try:
                    v = self.import_(base + "." + a.name)
                except Raised:
                    self.throw("ImportError", f"cannot import name {a.name} from {base}")
            self.store(a.asname or a.name, v, env)

    def import_(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        return self.load_module(name)

    # ------------------------------------------------------------------ names
    def find_env(self, name, env):
        info = env.info
        if env.kind == "module":
            return env.module
        if info is not None:
            if name in info.globals:
                return env.module
            if name in info.nonlocals:
                e = env.parent
                while e is not None:
                    if e.kind == "f" and name in e.info.locals:
                        return e
                    e = e.parent
        return env

    def store(self, name, v, env):
        if env.kind == "comp" and name not in env.info.locals:
            # walrus inside a comprehension binds in the enclosing function
            e = env
            while e.kind == "comp":
                e = e.parent
            env = e
        e = self.find_env(name, env)
        self.wcon(e)[name] = v

    def load(self, name, env):
        e = env
        first = True
        while e is not None:
            if e.kind == "module":
                break
            if e.kind == "class" and not first:
                e = e.parent
                continue
            info = e.info
            if name in info.globals:
                break
            if e.kind == "class":
                v = e.c.get(name, UNBOUND)
                if v is not UNBOUND:
                    return v
            elif name in info.locals:
                v = e.c.get(name, UNBOUND)
                if type(v) is Choice:
                    if v.a is UNBOUND or v.b is UNBOUND:
                        v = self.res(v)
                if v is UNBOUND:
                    self.throw("UnboundLocalError", name)
                return v
            elif name == "__class__" and e.kind == "f" and isinstance(e.fn, AFunc) and e.fn.cls is not None:
                return e.fn.cls
            e = e.parent
            first = False
        m = env.module
        v = m.c.get(name, UNBOUND)
        if type(v) is Choice and (v.a is UNBOUND or v.b is UNBOUND):
            v = self.res(v)
        if v is not UNBOUND:
            return v
        v = self.builtins.get(name, UNBOUND)
        if v is UNBOUND:
            if name in _UNMODELLED or hasattr(builtins, name):
                raise Unsupported(f"builtin {name}")
            self.throw("NameError", f"name '{name}' is not defined")
        return v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.res(v)
            items = list(self.iterate(v))
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(items) < i + after:
                    self.throw("ValueError", "not enough values to unpack")
                for x, y in zip(t.elts[:i], items):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, AList(items[i : len(items) - after]), env)
                for x, y in zip(t.elts[i + 1 :], items[len(items) - after :]):
                    self.assign(x, y, env)
                return
            if len(items) != len(t.elts):
                self.throw("ValueError", "wrong number of values to unpack")
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, AList(list(self.iterate(v))), env)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        f = self._ex.get(type(e))
        if f is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return f(e, env)

    def ex_Constant(self, e, env):
        return e.value

    def ex_Name(self, e, env):
        return self.load(e.id, env)

    def ex_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.store(e.target.id, v, env)
        return v

    def ex_Tuple(self, e, env):
        return tuple(self.ev_list(e.elts, env))

    def ex_List(self, e, env):
        return AList(self.ev_list(e.elts, env))

    def ev_list(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def ex_Set(self, e, env):
        s = ASet()
        for v in self.ev_list(e.elts, env):
            self.set_add(s, v)
        return s

    def ex_Dict(self, e, env):
        d = ADict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.res(self.ev(v, env))
                self.dict_update(d, o)
            else:
                kk = self.ev(k, env)
                self.dict_set(d, kk, self.ev(v, env))
        return d

    def ex_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(_BIN[type(e.op)], a, b)

    def ex_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return T.bnot(self.truth(v))
        v = self.res(v)
        if isinstance(v, AInst):
            nm = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(e.op)]
            return self.call(self.getattr_(v, nm), [])
        if isinstance(e.op, ast.Invert) and type(v) in (EnumMember, EnumTerm) and v.cls.enum == "flag":
            allm = 0
            for m in v.cls.c["__members__"].values():
                allm |= m.value
            return self.mkenum(v.cls, T.i_and(T.i_inv(self.num(v)), allm))
        n = self.num(v)
        if n is None:
            self.throw("TypeError", "bad operand for unary operator")
        if isinstance(e.op, ast.USub):
            return T.neg(n)
        if isinstance(e.op, ast.UAdd):
            return T.b2i(n)
        if T.sort_of(n) == "f":
            self.throw("TypeError", "bad operand for unary ~")
        return T.i_inv(n)

    def ex_BoolOp(self, e, env):
        return self.boolop(isinstance(e.op, ast.And), e.values, 0, env)

    def boolop(self, is_and, vals, i, env):
        v = self.ev(vals[i], env)
        if i == len(vals) - 1:
            return v
        c = self.truth(v)
        d = self.decide(c)
        if d is not None:
            if d is not is_and:
                return v
            return self.boolop(is_and, vals, i + 1, env)
        rest = lambda: self.boolop(is_and, vals, i + 1, env)  # noqa: E731
        this = lambda: v  # noqa: E731
        return self.expr_fork(c, rest, this) if is_and else self.expr_fork(c, this, rest)

    def expr_fork(self, c, ka, kb):
        """value of `ka if c else kb` with both sides analysed"""
        pa, s1 = self.run_fork(c, lambda: (R, ka()))
        pb, s2 = self.run_fork(T.bnot(c), lambda: (R, kb()))
        ps = pa + pb
        if any(p.kind == X for p in ps):
            if len(ps) == 1:
                self.apply(ps[0].delta)
                raise Raised(ps[0].val, ps[0].site)
            raise SplitRequest(c)
        o = self.mkparts([pa, pb], min(s1 or 1 << 60, s2 or 1 << 60))
        return o[1]

    def ex_IfExp(self, e, env):
        c = self.truth(self.ev(e.test, env))
        d = self.decide(c)
        if d is not None:
            return self.ev(e.body if d else e.orelse, env)
        return self.expr_fork(c, lambda: self.ev(e.body, env), lambda: self.ev(e.orelse, env))

    def ex_Compare(self, e, env):
        left = self.ev(e.left, env)
        r = True
        for i, (op, right) in enumerate(zip(e.ops, e.comparators)):
            rv = self.ev(right, env)
            c = self.compare(type(op), left, rv)
            if len(e.ops) == 1:
                return c
            c = self.truth(c)
            r = T.band(r, c)
            if self.decide(r) is False:
                return False
            left = rv
        return r

    def ex_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.zero_super(env)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "vars") and not e.args:
            d = ADict()
            for k, v in self.con(env).items():
                self.dict_set(d, k, v)
            return d
        f = self.ev(e.func, env)
        args = self.ev_list(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.res(self.ev(k.value, env))
                for kk, vv in self.dict_items(o):
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, env)
        self.line = e.lineno
        return self.call(f, args, kw)

    def zero_super(self, env):
        e = env
        while e is not None:
            if e.kind == "f" and isinstance(e.fn, AFunc) and e.fn.cls is not None:
                names = e.fn.info.params
                first = e.fn.node.args.posonlyargs + e.fn.node.args.args
                if not first:
                    break
                o = self.res(e.c.get(first[0].arg))
                return ASuper(e.fn.cls, o)
            e = e.parent
        self.throw("RuntimeError", "super(): no arguments")

    def ex_Attribute(self, e, env):
        return self.getattr_(self.ev(e.value, env), e.attr)

    def ex_Subscript(self, e, env):
        o = self.ev(e.value, env)
        return self.getitem(o, self.ev_index(e.slice, env))

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.res(self.ev(x, env))  # noqa: E731
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.ev(s, env)

    def ex_Slice(self, e, env):
        return self.ev_index(e, env)

    def ex_Lambda(self, e, env):
        return self.mkfunc(e, env, "<lambda>")

    def ex_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.res(self.ev(v.value, env))
                spec = ""
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env)
                if v.conversion == 114:
                    x = self.repr_(x)
                elif v.conversion in (115, 97):
                    x = self.str_(x)
                s = self.format_(x, spec)
                parts.append(s)
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        if all(isinstance(p, (str, SStr)) for p in parts):
            return mkstr(bcat(*[srope(p) for p in parts]))
        return Unk("str")

    def ex_FormattedValue(self, e, env):
        return self.ex_JoinedStr(ast.JoinedStr([e]), env)

    def ex_Starred(self, e, env):
        raise Unsupported("starred")

    def ex_Yield(self, e, env):
        v = None if e.value is None else self.ev(e.value, env)
        en = env
        while en.yields is None:
            en = en.parent
        self.wcon(en.yields).append(v)
        if len(en.yields.c) > 20000:
            raise Unsupported("unbounded generator")
        return None

    def ex_YieldFrom(self, e, env):
        src = self.res(self.ev(e.value, env))
        if isinstance(src, (AIter, AInst)):
            raise Unsupported("value of yield from")
        return self.yield_all(src, env)

    def yield_all(self, src, env):
        en = env
        while en.yields is None:
            en = en.parent
        for v in self.iterate(src):
            self.wcon(en.yields).append(v)
        return None

    def ex_Await(self, e, env):
        raise Unsupported("await")

    # comprehensions
    def comp(self, gens, i, env, emit, pre=None):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        src = pre if pre is not None else self.ev(g.iter, env)
        for v in self.walk(src):
            self.assign(g.target, v, env)
            for c in g.ifs:
                if not self.want(self.truth(self.ev(c, env))):
                    break
            else:
                self.comp(gens, i + 1, env, emit)

    def walk(self, src):
        """the items, produced one by one where they are computed on demand"""
        src = self.res(src)
        if type(src) is AIter:
            n = 0
            while True:
                v = self.iter_next(src)
                if v is UNBOUND:
                    return
                yield v
                n += 1
                if n > 300_000:
                    raise Budget("iteration does not come to an end", self.site())
        else:
            yield from self.iterate(src)

    def cenv(self, e, env):
        c = Env(env, env.module, scope_of(e), "comp")
        c.fn = env.fn
        return c

    def ex_ListComp(self, e, env):
        ce = self.cenv(e, env)
        out = []
        src = self.ev(e.generators[0].iter, env)
        self.comp(e.generators, 0, ce, lambda: out.append(self.ev(e.elt, ce)), src)
        return AList(out)

    def ex_SetComp(self, e, env):
        ce = self.cenv(e, env)
        s = ASet()
        self.comp(e.generators, 0, ce, lambda: self.set_add(s, self.ev(e.elt, ce)), self.ev(e.generators[0].iter, env))
        return s

    def ex_DictComp(self, e, env):
        ce = self.cenv(e, env)
        d = ADict()

        def emit():
            k = self.ev(e.key, ce)
            self.dict_set(d, k, self.ev(e.value, ce))

        self.comp(e.generators, 0, ce, emit, self.ev(e.generators[0].iter, env))
        return d

    def ex_GeneratorExp(self, e, env):
        ce = self.cenv(e, env)
        src = self.ev(e.generators[0].iter, env)

        if len(e.generators) == 1:
            g = e.generators[0]
            it = self.call(self.builtins["iter"], [src])
            nxt = self.builtins["next"]

            def step(pos):
                while True:
                    v = self.res(it)
                    v = self.iter_next(v) if type(v) is AIter else nxt.fn(self, v, UNBOUND, True)
                    if v is UNBOUND:
                        return v
                    self.assign(g.target, v, ce)
                    for c in g.ifs:
                        if not self.want(self.truth(self.ev(c, ce))):
                            break
                    else:
                        return self.ev(e.elt, ce)

            return AIter(None, gen=True, step=step)

        def thunk():
            out = []
            self.comp(e.generators, 0, ce, lambda: out.append(self.ev(e.elt, ce)), src)
            return out

        return AIter(None, thunk, gen=True)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        f = self.res(f)
        t = type(f)
        if t is AMethod:
            return self.call(f.func, [f.self_] + list(args), kw)
        if t is AFunc:
            return self.call_func(f, args, kw or {})
        if t is Native:
            if not f.raw:
                args = [self.res(a) for a in args]
                if kw:
                    kw = {k: self.res(v) for k, v in kw.items()}
            try:
                return f.fn(self, *args, **(kw or {}))
            except TypeError as e:
                if "argument" in str(e):
                    # CPython may well accept what the model does not
                    raise Unsupported(f"arguments of {f.name}: {e}") from None
                raise
        if t is AClass:
            return self.instantiate(f, list(args), kw or {})
        if t is AInst:
            m = self.lookup(f.cls, "__call__")
            if m is not UNBOUND:
                return self.call(self.bind(m, f, f.cls), args, kw)
        if t is AStatic or t is AClassMethod:
            return self.call(f.f, args, kw)
        if t is TypeGeneric:
            if f.name == "cast":
                return args[1]
            if args and f.name in ("overload", "final", "no_type_check", "runtime_checkable"):
                return args[0]
            return f
        if t is Unk:
            raise Unsupported("call of unknown value")
        self.type_error(f"'{self.type_of(f).name}' object is not callable", f)

    def type_error(self, msg, *vals):
        """TypeError, unless one of the values is a library object whose model may lack the operation."""
        for v in vals:
            if isinstance(v, AInst):
                ok = v.payload is None and all(k.module is not None and not k.module.path.startswith("<model") or k.name == "object" or k.isexc for k in v.cls.mro)
            else:
                ok = not isinstance(v, (AIter, AStream, Native, TypeGeneric, AModule, AFs, ASuper, AProperty, Unk, AMethod))
            if not ok:
                raise Unsupported(f"{msg} (in the model)")
        self.throw("TypeError", msg)

    def call_func(self, f, args, kw):
        node = f.node
        env = Env(f.env, f.module, f.info, "f")
        env.fn = f
        self.bind_args(f, args, kw, env.c)
        if f.isgen:
            def thunk():
                env.yields = AList([])
                self.run_body(f, env)
                return list(self.con(env.yields))

            def drive(hook):
                env.hook = hook
                ln = self.line
                self.stack.append((f, ln))
                self.note_run(f, ln)
                try:
                    return self.exec_block(f.node.body, env)
                finally:
                    self.stack.pop()
                    self.line = ln

            return AIter(None, thunk, gen=True, drive=drive if plain_yields(f) else None)
        return self.run_body(f, env)

    def note_run(self, f, ln):
        if f.module is not None and f.module.path.startswith(self.repo_prefix or "\0"):
            self.analysed.add((f.module.path, f.qual))
            self.callsites.add((f.module.path, f.qual, ln))
            if f not in self.case_fns:
                self.case_fns[f] = ln

    def run_body(self, f, env):
        if len(self.stack) > 950:
            self.throw("RecursionError", "maximum recursion depth exceeded")
        ln = self.line
        self.stack.append((f, ln))
        self.note_run(f, ln)
        try:
            if type(f.node) is ast.Lambda:
                return self.ev(f.node.body, env)
            o = self.exec_block(f.node.body, env)
        finally:
            self.stack.pop()
            self.line = ln
        if o is None:
            return None
        if type(o) is Parts:
            parts = [Part(p.g, R, None, p.delta, p.site) if p.kind == N else p for p in o.parts]
            parts = self._reduce(parts, o.start)
            xs = [p for p in parts if p.kind == X]
            if len(parts) == 1:
                self.apply(parts[0].delta)
                if xs:
                    raise Raised(xs[0].val, xs[0].site)
                return parts[0].val
            raise SplitRequest((xs or parts)[0].g)
        return o[1]

    def bind_args(self, f, args, kw, c):
        a = f.node.args
        pos = a.posonlyargs + a.args
        npos = len(pos)
        if len(args) > npos and not a.vararg:
            self.throw("TypeError", f"{f.name}() takes {npos} positional arguments but {len(args)} were given")
        for p, v in zip(pos, args):
            c[p.arg] = v
        if a.vararg:
            c[a.vararg.arg] = tuple(args[npos:])
        names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
        extra = None
        for k, v in kw.items():
            if k in names:
                if k in c:
                    self.throw("TypeError", f"{f.name}() got multiple values for argument '{k}'")
                c[k] = v
            elif a.kwarg:
                extra = extra or []
                extra.append((k, v))
            else:
                self.throw("TypeError", f"{f.name}() got an unexpected keyword argument '{k}'")
        if a.kwarg:
            d = ADict()
            for k, v in extra or []:
                self.dict_set(d, k, v)
            c[a.kwarg.arg] = d
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in c:
                j = i - (npos - nd)
                if j < 0:
                    self.throw("TypeError", f"{f.name}() missing required argument '{p.arg}'")
                c[p.arg] = f.defaults[j]
        for p in a.kwonlyargs:
            if p.arg not in c:
                if p.arg not in f.kwdefaults:
                    self.throw("TypeError", f"{f.name}() missing keyword argument '{p.arg}'")
                c[p.arg] = f.kwdefaults[p.arg]

    def instantiate(self, cls, args, kw):
        if cls.enum is not None and "__members__" in cls.c:
            return self.enum_call(cls, *args)
        ctor = cls.c.get("__construct__")
        if ctor is not None:
            return self.call(ctor, args, kw)
        new = self.lookup(cls, "__new__")
        if cls.meta is not None:
            self.check_abstract(cls)
        if new is not UNBOUND and isinstance(new, AStatic) and isinstance(new.f, AFunc):
            new = new.f
        if isinstance(new, AFunc):
            o = self.res(self.call(new, [cls] + args, kw))
        else:
            o = self.native_new(cls, args, kw)
        if cls in self.type_of(o).mro:
            init = self.lookup(self.type_of(o), "__init__")
            if init is not UNBOUND:
                self.call(self.bind(init, o, cls), args, kw)
            elif isinstance(o, AInst) and o.payload is None and (args or kw) and not isinstance(new, AFunc) and not cls.isexc:
                self.throw("TypeError", f"{cls.name}() takes no arguments")
        return o

    def check_abstract(self, cls):
        r = cls.c.get("__abs__")
        if r is None:
            r = False
            seen = set()
            for k in cls.mro:
                for n, v in k.c.items():
                    if n in seen:
                        continue
                    seen.add(n)
                    f = v.f if isinstance(v, (AStatic, AClassMethod)) else v.fget if isinstance(v, AProperty) else v
                    if isinstance(f, AFunc) and f.attrs and f.attrs.get("__isabstractmethod__"):
                        r = True
            cls.c["__abs__"] = r
        if r:
            self.throw("TypeError", f"Can't instantiate abstract class {cls.name}")

    # ------------------------------------------------------------------ attributes
    def lookup(self, cls, name):
        for k in cls.mro:
            v = k.c.get(name, UNBOUND)
            if v is not UNBOUND:
                return v
        return UNBOUND

    def lookup_from(self, cls, i, name):
        for k in cls.mro[i:]:
            v = k.c.get(name, UNBOUND)
            if v is not UNBOUND:
                return v
        return UNBOUND

    def bind(self, v, obj, cls):
        t = type(v)
        if t is AFunc:
            return AMethod(v, obj)
        if t is Native:
            return AMethod(v, obj)
        if t is AStatic:
            return v.f
        if t is AClassMethod:
            return AMethod(v.f, cls)
        if t is AProperty:
            if v.fget is None:
                self.throw("AttributeError", "unreadable attribute")
            return self.call(v.fget, [obj])
        if t is AInst:
            g = self.lookup(v.cls, "__get__")
            if g is not UNBOUND:
                return self.call(self.bind(g, v, v.cls), [obj, cls])
        return v

    def is_data_desc(self, v):
        if type(v) is AProperty:
            return True
        if type(v) is AInst:
            return self.lookup(v.cls, "__set__") is not UNBOUND or self.lookup(v.cls, "__delete__") is not UNBOUND
        return False

    def getattr_(self, o, name, default=UNBOUND):
        o = self.res(o)
        t = type(o)
        if t is AInst:
            cls = o.cls
            cv = self.lookup(cls, name)
            if type(cv) is Choice:
                cv = self.res(cv)
            if cv is not UNBOUND and self.is_data_desc(cv):
                return self.bind(cv, o, cls)
            v = self.con(o).get(name, UNBOUND)
            if type(v) is Choice and (v.a is UNBOUND or v.b is UNBOUND):
                v = self.res(v)
            if v is not UNBOUND:
                return v
            if cv is not UNBOUND:
                return self.bind(cv, o, cls)
            if name == "__class__":
                return cls
            if name == "__dict__":
                return self.attr_dict(o)
            if o.payload is not None:
                v = self.native_attr(o.payload, name, o)
                if v is not UNBOUND:
                    return v
            if cls.isexc and name in ("with_traceback", "add_note"):
                return Native(name, lambda m, *a: o)
            if cls.isexc and name in ("__cause__", "__context__", "__traceback__"):
                return None
            ga = self.lookup(cls, "__getattr__")
            if ga is not UNBOUND:
                return self.call(self.bind(ga, o, cls), [name])
        elif t is AClass:
            v = self.lookup(o, name)
            if v is not UNBOUND:
                v = self.res(v)
                if type(v) is AClassMethod:
                    return AMethod(v.f, o)
                if type(v) is AStatic:
                    return v.f
                if type(v) is AInst:
                    g = self.lookup(v.cls, "__get__")
                    if g is not UNBOUND:
                        return self.call(self.bind(g, v, v.cls), [None, o])
                if name == "__members__":
                    d = ADict()
                    for k, x in v.items():
                        self.dict_set(d, k, x)
                    return d
                return v
            if name in ("__name__",):
                return o.name
            if name == "__qualname__":
                return o.qual
            if name == "__module__":
                return o.module.name if o.module else "builtins"
            if name == "__mro__":
                return tuple(o.mro)
            if name == "mro":
                return Native("mro", lambda m: AList(list(o.mro)))
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__doc__":
                return None
            if name == "__dict__":
                d = ADict()
                for k, x in self.con(o).items():
                    self.dict_set(d, k, x)
                return d
            if name == "__class__":
                return self.classes["type"]
            if name == "__subclasses__":
                return Native("subclasses", lambda m: AList([c for c in m.all_classes() if o in c.bases]))
            if o.native:
                v = self.native_class_attr(o, name)
                if v is not UNBOUND:
                    return v
            if o.meta is not None and isinstance(o.meta, AClass):
                v = self.lookup(o.meta, name)
                if v is not UNBOUND:
                    return self.bind(v, o, o.meta)
        elif t is AModule:
            v = self.con(o).get(name, UNBOUND)
            if v is not UNBOUND:
                return v
            sub = self.modules.get(o.name + "." + name)
            if sub is not None:
                return sub
            if name == "__name__":
                return o.name
            if name == "__file__":
                return o.path
            if o.path.startswith("<model") and _host_has(o.name, name):
                if o.name in _FOLD:
                    return unmodelled(f"{o.name}.{name}")
                raise Unsupported(f"{o.name}.{name} is not modelled")
        elif t is ASuper:
            obj = o.obj
            cls = obj if isinstance(obj, AClass) else self.type_of(obj)
            mro = cls.mro
            i = mro.index(o.cls) + 1
            v = self.lookup_from(cls, i, name)
            if v is not UNBOUND:
                if name == "__new__":
                    return v.f if isinstance(v, AStatic) else v
                if isinstance(obj, AClass):
                    if type(v) is AClassMethod:
                        return AMethod(v.f, obj)
                    if type(v) is AStatic:
                        return v.f
                    return v
                return self.bind(v, obj, cls)
            if name == "__new__":
                return Native("__new__", lambda m, c, *a, **k: m.native_new(c, list(a), k))
            if name == "__init__":
                if isinstance(obj, AInst) and obj.cls.isexc:
                    def exinit(m, *a, **k):
                        m.wcon(obj)["args"] = tuple(a)
                    return Native("__init__", exinit)
                return Native("__init__", lambda m, *a, **k: None)
            if name == "__init_subclass__":
                return Native("__init_subclass__", lambda m, *a, **k: None)
            if name == "__setattr__":
                return Native("__setattr__", lambda m, n, v: m.setattr_raw(obj, n, v), True)
            if name == "__getattribute__":
                return Native("__getattribute__", lambda m, n: m.getattr_(obj, n))
            if isinstance(obj, AInst) and obj.payload is not None:
                v = self.native_attr(obj.payload, name, obj)
                if v is not UNBOUND:
                    return v
            if name in ("__eq__",):
                return Native(name, lambda m, x: x is obj or NotImplemented)
            if name in ("__hash__",):
                return Native(name, lambda m: id(obj))
            if name == "__repr__":
                return Native(name, lambda m: Unk("str"))
            if name in ("__enter__",):
                return Native(name, lambda m: obj)
            if name == "__exit__":
                return Native(name, lambda m, *a: None)
        elif t is AFunc:
            if o.attrs and name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            if name == "__qualname__":
                return o.qual
            if name == "__doc__":
                return None if isinstance(o.node, ast.Lambda) else ast.get_docstring(o.node)
            if name == "__get__":
                return Native("__get__", lambda m, ob, c=None: AMethod(o, ob) if ob is not None else o)
            if name == "__module__":
                return o.module.name
            if name == "__wrapped__" or name == "__dict__":
                pass
            if name == "cache_clear":
                return Native("cache_clear", lambda m: None)
        elif t is AMethod:
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self.getattr_(o.func, name, default)
        elif t is AProperty:
            if name == "__get__":
                def pget(m, ob, c=None):
                    if ob is None:
                        return o
                    return m.bind(o, ob, None)
                return Native("__get__", pget)
            if name == "__set__":
                return Native("__set__", lambda m, ob, v: m.prop_set(o, ob, v))
            if name == "__delete__":
                return Native("__delete__", lambda m, ob: m.prop_del(o, ob))
            if name in ("fget", "fset", "fdel"):
                return getattr(o, name)
            if name == "__doc__":
                return o.doc
            if name == "getter":
                return Native("getter", lambda m, f: AProperty(f, o.fset, o.fdel, o.doc))
            if name == "setter":
                return Native("setter", lambda m, f: AProperty(o.fget, f, o.fdel, o.doc))
            if name == "deleter":
                return Native("deleter", lambda m, f: AProperty(o.fget, o.fset, f, o.doc))
        elif t is EnumMember or t is EnumTerm:
            if name == "value" or name == "_value_":
                return o.value if t is EnumMember else o.term
            if name == "name" or name == "_name_":
                if t is EnumMember:
                    return o.name
                return self.split_enum(o).name
            cv = self.lookup(o.cls, name)
            if cv is not UNBOUND:
                if isinstance(cv, EnumMember):
                    return cv
                return self.bind(cv, o, o.cls)
            v = self.native_attr(o, name, o)
            if v is not UNBOUND:
                return v
        elif t is AStatic or t is AClassMethod:
            if name == "__func__":
                return o.f
        elif t is TypeGeneric:
            if name == "__name__":
                return o.name
            return TypeGeneric(name)
        elif t is Native:
            if name == "__name__":
                return o.name
            if name == "from_iterable" and o.name == "chain":
                return self.extra["chain_from_iterable"]
            if name in ("__doc__", "__module__"):
                return None
        elif t is Unk:
            raise Unsupported(f"attribute {name} of unknown {o.kind}")
        else:
            v = self.native_attr(o, name, o)
            if v is not UNBOUND:
                return v
        if self.maybe_attr(o, name):
            raise Unsupported(f"attribute {name} of {self.type_of(o).name} is not modelled")
        if default is not UNBOUND:
            return default
        self.throw("AttributeError", f"{self.type_of(o).name!r} object has no attribute {name!r}")

    def maybe_attr(self, o, name):
        """Whether CPython may have an attribute that the model lacks."""
        t = type(o)
        if t is ASuper:
            o = o.obj
            t = type(o)
        if t is Native:
            return hasattr(len, name) or not name.startswith("__")
        if t is AFunc:
            return hasattr(_hostfn, name)
        if t is AModule:
            return False
        cls = o if t is AClass else self.type_of(o)
        if t is AClass and hasattr(type, name):
            return True
        for k in cls.mro:
            if k.module is not None and not k.module.path.startswith("<model"):
                continue
            h = _HOSTCLS.get(k.name)
            if h is None:
                for mod in (builtins, collections.abc, io, enum, collections):
                    if hasattr(mod, k.name):
                        h = getattr(mod, k.name)
                        break
            if h is None:
                if k.name == "object" or name.startswith("__"):
                    h = object
                else:
                    return True
            if hasattr(h, name):
                return True
        return False

    def prop_set(self, p, ob, v):
        if p.fset is None:
            self.throw("AttributeError", "can't set attribute")
        self.call(p.fset, [ob, v])

    def prop_del(self, p, ob):
        if p.fdel is None:
            self.throw("AttributeError", "can't delete attribute")
        self.call(p.fdel, [ob])

    def setattr_(self, o, name, v):
        o = self.res(o)
        if isinstance(o, AInst):
            sa = self.lookup(o.cls, "__setattr__")
            if sa is not UNBOUND:
                self.call(self.bind(sa, o, o.cls), [name, v])
                return
        self.setattr_raw(o, name, v)

    def setattr_raw(self, o, name, v):
        t = type(o)
        if t is AInst:
            cv = self.lookup(o.cls, name)
            if type(cv) is AProperty:
                self.prop_set(cv, o, v)
                return
            if type(cv) is AInst:
                s = self.lookup(cv.cls, "__set__")
                if s is not UNBOUND:
                    self.call(self.bind(s, cv, cv.cls), [o, v])
                    return
            if self.is_frozen(o.cls):
                self.throw("AttributeError", f"cannot assign to field {name!r}")
            self.wcon(o)[name] = v
        elif t in (AClass, AModule):
            self.wcon(o)[name] = v
            if t is AClass and isinstance(v, AFunc) and v.cls is None:
                pass
        elif t is AFunc:
            o.attrs = dict(o.attrs or {})
            o.attrs[name] = v
        elif t is AStream and name in ("name", "mode"):
            pass
        else:
            self.throw("AttributeError", f"{self.type_of(o).name!r} object has no attribute {name!r}")

    def is_frozen(self, cls):
        return any(k.c.get("__frozen__") is True for k in cls.mro)

    def delattr_(self, o, name):
        o = self.res(o)
        if isinstance(o, AInst):
            cv = self.lookup(o.cls, name)
            if type(cv) is AProperty:
                self.prop_del(cv, o)
                return
            if type(cv) is AInst:
                s = self.lookup(cv.cls, "__delete__")
                if s is not UNBOUND:
                    self.call(self.bind(s, cv, cv.cls), [o])
                    return
        if isinstance(o, (AInst, AClass, AModule)):
            if self.con(o).get(name, UNBOUND) is UNBOUND:
                self.throw("AttributeError", name)
            self.wcon(o).pop(name)
            return
        raise Unsupported("delattr")

    # ------------------------------------------------------------------ numbers / truth
    def num(self, v):
        """scalar of a number-like value, None otherwise"""
        t = type(v)
        if t in (int, bool, float) or t in (T.Bdd, T.BV, T.Op):
            return v
        if t is EnumMember:
            return v.value if v.cls.c["_intlike_"] else None
        if t is EnumTerm:
            return v.term
        if t is AInst and v.payload is not None:
            return self.num(v.payload)
        return None

    def truth(self, v):
        if v is True or v is False or v is None:
            return bool(v)
        t = type(v)
        if t is Choice:
            d = self.decide(v.cond)
            if d is not None:
                return self.truth(v.a if d else v.b)
            a, b = self._truth_side(v.cond, v.a), self._truth_side(T.bnot(v.cond), v.b)
            return T.bite(v.cond, a, b)
        if t in (int, float, str, bytes, tuple):
            return bool(v)
        n = self.num(v)
        if n is not None:
            return T.truth(n)
        if t is AList or t is ADict or t is ASet:
            c = v.c
            if type(c) is ChoiceC:
                d = self.decide(c.cond)
                if d is None and type(c.a) is not ChoiceC and type(c.b) is not ChoiceC:
                    return T.bite(c.cond, bool(c.a), bool(c.b))
            return bool(self.con(v))
        if t is Rope:
            return v.n > 0
        if t is SStr:
            return blen(v.rope) > 0
        if t is AByteArray:
            return blen(self.con(v)) > 0
        if t is ARange:
            return self.truth(self.length(v))
        if t is EnumMember:
            return True
        if t is AInst:
            b = self.lookup(v.cls, "__bool__")
            if b is not UNBOUND:
                return self.truth(self.call(self.bind(b, v, v.cls), []))
            ln = self.lookup(v.cls, "__len__")
            if ln is not UNBOUND:
                return self.truth(self.call(self.bind(ln, v, v.cls), []))
            if v.payload is not None:
                return self.truth(v.payload)
            return True
        if t is Unk:
            raise Unsupported(f"truth of unknown {v.kind}")
        return True

    def _truth_side(self, g, v):
        old = self.care
        care = T.band(old, g)
        if care is False:
            return False
        self.care = care
        try:
            return self.truth(v)
        finally:
            self.care = old

    # ------------------------------------------------------------------ operators
    def inplace(self, op, a, b):
        a = self.res(a)
        b = self.res(b)
        if isinstance(a, AList) and op == "add":
            items = list(self.iterate(b))
            self.wcon(a).extend(items)
            return a
        if isinstance(a, AByteArray) and op == "add":
            self.setc(a, bcat(self.con(a), self.as_bytes(b)))
            return a
        if isinstance(a, ADict) and op == "or":
            self.dict_update(a, b)
            return a
        if isinstance(a, ASet) and op == "or" and not a.frozen:
            for x in self.iterate(b):
                self.set_add(a, x)
            return a
        if isinstance(a, AInst):
            f = self.lookup(a.cls, f"__i{op}__")
            if f is not UNBOUND:
                return self.call(self.bind(f, a, a.cls), [b])
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        ta, tb = type(a), type(b)
        if (ta is int or ta is float) and (tb is int or tb is float):
            return self.hostop(op, a, b)
        if ta is Choice or tb is Choice:
            a, b = self.res(a), self.res(b)
            ta, tb = type(a), type(b)
        if ta is AInst or tb is AInst:
            if ta is AInst:
                f = self.lookup(a.cls, f"__{op}__")
                if f is not UNBOUND:
                    r = self.call(self.bind(f, a, a.cls), [b])
                    if r is not NotImplemented:
                        return r
            if tb is AInst:
                f = self.lookup(b.cls, f"__r{op}__")
                if f is not UNBOUND:
                    r = self.call(self.bind(f, b, b.cls), [a])
                    if r is not NotImplemented:
                        return r
            if ta is AInst and a.payload is not None:
                a = a.payload
                ta = type(a)
            if tb is AInst and b.payload is not None:
                b = b.payload
                tb = type(b)
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            flag = None
            for v in (a, b):
                if type(v) in (EnumMember, EnumTerm) and v.cls.enum == "flag":
                    flag = v.cls
            if op in ("and", "or", "xor", "lshift", "rshift"):
                sx, sy = T.sort_of(x), T.sort_of(y)
                if sx == "f" or sy == "f":
                    self.throw("TypeError", f"unsupported operand type(s) for {_SYM[op]}")
                if sx == "b" and sy == "b" and op in ("and", "or", "xor"):
                    return {"and": T.band, "or": T.bor, "xor": T.bxor}[op](x, y)
                x, y = T.b2i(x), T.b2i(y)
                if op in ("lshift", "rshift"):
                    if self.want(T.lt(y, 0)):
                        self.throw("ValueError", "negative shift count")
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                r = self.hostop(op, x, y)
            else:
                if op in ("truediv", "floordiv", "mod"):
                    if self.want(T.eq(y, 0)):
                        self.throw("ZeroDivisionError", "division by zero")
                r = _TERM[op](x, y) if op in _TERM else None
                if r is None:
                    raise Unsupported("operator " + op)
            if flag is not None and op in ("and", "or", "xor") and T.sort_of(r) == "i":
                return self.mkenum(flag, r)
            return r
        r = self.seqop(op, a, b)
        if r is not UNBOUND:
            return r
        if isinstance(a, Unk) or isinstance(b, Unk):
            k = (a if isinstance(a, Unk) else b).kind
            if k == "str" and op in ("add", "mod"):
                return Unk("str")
            raise Unsupported("operator on unknown value")
        self.type_error(f"unsupported operand type(s) for {_SYM[op]}: {self.type_of(a).name} and {self.type_of(b).name}", a, b)

    def hostop(self, op, a, b):
        try:
            if op == "lshift" and b > 100000:
                raise Unsupported("huge shift")
            if op == "pow" and isinstance(b, int) and abs(b) > 100000:
                raise Unsupported("huge power")
            return _HOST[op](a, b)
        except ZeroDivisionError:
            self.throw("ZeroDivisionError", "division by zero")
        except OverflowError:
            self.throw("OverflowError", "result too large")
        except ValueError as e:
            self.throw("ValueError", str(e))
        except TypeError as e:
            self.throw("TypeError", str(e))

    def compare(self, op, a, b):
        if op is ast.Eq:
            return self.eqv(a, b)
        if op is ast.NotEq:
            r = self.eqv(a, b, ne=True)
            return r
        if op is ast.Is:
            return self.is_(a, b)
        if op is ast.IsNot:
            return T.bnot(self.is_(a, b))
        if op is ast.In:
            return self.contains(b, a)
        if op is ast.NotIn:
            return T.bnot(self.contains(b, a))
        return self.order(op, a, b)

    def order(self, op, a, b):
        a, b = self.res(a), self.res(b)
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            if op is ast.Lt:
                return T.lt(x, y)
            if op is ast.Gt:
                return T.lt(y, x)
            if op is ast.LtE:
                return T.le(x, y)
            return T.le(y, x)
        if isinstance(a, AInst) or isinstance(b, AInst):
            n1, n2 = _CMPD[op]
            if isinstance(a, AInst):
                f = self.lookup(a.cls, n1)
                if f is not UNBOUND:
                    r = self.call(self.bind(f, a, a.cls), [b])
                    if r is not NotImplemented:
                        return r
            if isinstance(b, AInst):
                f = self.lookup(b.cls, n2)
                if f is not UNBOUND:
                    r = self.call(self.bind(f, b, b.cls), [a])
                    if r is not NotImplemented:
                        return r
            if isinstance(a, AInst) and a.payload is not None:
                a = a.payload
            if isinstance(b, AInst) and b.payload is not None:
                b = b.payload
        a, b = self.view_set(a), self.view_set(b)
        if isinstance(a, ASet) and isinstance(b, ASet):
            sub = lambda p, q: all(self.want(self.contains(q, k)) for k in self.con(p).values())  # noqa: E731
            la, lb = len(self.con(a)), len(self.con(b))
            return {ast.Lt: lambda: la < lb and sub(a, b), ast.LtE: lambda: sub(a, b),
                    ast.Gt: lambda: lb < la and sub(b, a), ast.GtE: lambda: sub(b, a)}[op]()
        if op is ast.Gt:
            return self.less(b, a)
        if op is ast.Lt:
            return self.less(a, b)
        if op is ast.LtE:
            return T.bnot(self.less(b, a))
        return T.bnot(self.less(a, b))

    def less(self, a, b):
        """strict order of non-numeric values"""
        a, b = self.res(a), self.res(b)
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            return T.lt(x, y)
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                return a < b
            return self._lexlt(bitems(srope(a)), bitems(srope(b)))
        if isinstance(a, (bytes, Rope)) and isinstance(b, (bytes, Rope)):
            if isinstance(a, bytes) and isinstance(b, bytes):
                return a < b
            if bkey(a) == bkey(b):
                return False
            return self._lexlt(bitems(a), bitems(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self._lexlt(list(a), list(b))
        if isinstance(a, AList) and isinstance(b, AList):
            return self._lexlt(self.con(a), self.con(b))
        if isinstance(a, AInst) or isinstance(b, AInst):
            return self.truth(self.order(ast.Lt, a, b))
        self.type_error(f"'<' not supported between {self.type_of(a).name} and {self.type_of(b).name}", a, b)

    def _lexlt(self, p, q):
        r = len(p) < len(q)
        n = min(len(p), len(q))
        # from the first position on, so that incomparable later elements are not looked at needlessly
        conds = []
        for i in range(n):
            e = self.eq(p[i], q[i])
            if self.decide(e) is True:
                continue
            conds.append((e, self.less(p[i], q[i])))
            if self.decide(e) is False:
                break
        for e, l in reversed(conds):
            r = T.bite(e, r, l) if not isinstance(e, bool) else (r if e else l)
        return r

    def is_(self, a, b):
        if type(a) is Choice:
            d = self.decide(a.cond)
            if d is not None:
                return self.is_(a.a if d else a.b, b)
            return T.bite(a.cond, self.is_(a.a, b), self.is_(a.b, b))
        if type(b) is Choice:
            return self.is_(b, a)
        if a is b:
            return True
        if isinstance(a, (EnumTerm, EnumMember)) and isinstance(b, (EnumTerm, EnumMember)):
            if a.cls is not b.cls:
                return False
            return T.eq(self.num(a), self.num(b)) if self.num(a) is not None else False
        if isinstance(a, (bool, T.Bdd)) and isinstance(b, (bool, T.Bdd)):
            return T.eq(a, b)
        if isinstance(a, (int, str, bytes)) and type(a) is type(b):
            return a == b
        if isinstance(a, AMethod) and isinstance(b, AMethod):
            return False
        return False

    def eq(self, a, b):
        return self.truth(self.eqv(a, b))

    def eqv(self, a, b, ne=False):
        """a == b (a != b) as the program would compute it"""
        if type(a) is Choice or type(b) is Choice:
            c = a if type(a) is Choice else b
            d = self.decide(c.cond)
            if d is None:
                fa = (lambda: self.truth(self.eqv(c.a, b, ne))) if c is a else (lambda: self.truth(self.eqv(a, c.a, ne)))
                fb = (lambda: self.truth(self.eqv(c.b, b, ne))) if c is a else (lambda: self.truth(self.eqv(a, c.b, ne)))
                return self.expr_fork(c.cond, fa, fb)
            v = c.a if d else c.b
            return self.eqv(v, b, ne) if c is a else self.eqv(a, v, ne)
        if isinstance(a, AInst) or isinstance(b, AInst):
            r = self.inst_eq(a, b, ne)
            if r is not UNBOUND:
                return r
        r = self.eq0(a, b)
        return T.bnot(r) if ne else r

    def inst_eq(self, a, b, ne):
        names = ("__ne__", "__eq__") if ne else ("__eq__",)
        for nm in names:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, AInst):
                    f = self.lookup(x.cls, nm)
                    if f is not UNBOUND and f is not None:
                        r = self.call(self.bind(f, x, x.cls), [y])
                        if r is not NotImplemented:
                            if nm == "__eq__" and ne:
                                return T.bnot(self.truth(r))
                            return r
        pa = a.payload if isinstance(a, AInst) else a
        pb = b.payload if isinstance(b, AInst) else b
        if (isinstance(a, AInst) and pa is None) or (isinstance(b, AInst) and pb is None):
            r = a is b
            return (not r) if ne else r
        r = self.eq0(pa, pb)
        return T.bnot(r) if ne else r

    def eq0(self, a, b):
        if a is b and not isinstance(a, float):
            return True
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            return T.eq(x, y)
        if (x is None) != (y is None):
            return False
        if isinstance(a, (str, SStr)):
            if not isinstance(b, (str, SStr)):
                return self._unk_eq(b)
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return beq(srope(a), srope(b))
        if isinstance(a, AByteArray):
            a = self.con(a)
        if isinstance(b, AByteArray):
            b = self.con(b)
        if isinstance(a, (bytes, Rope)):
            return beq(a, b) if isinstance(b, (bytes, Rope)) else False
        if isinstance(a, tuple):
            return self.seq_eq(list(a), list(b)) if isinstance(b, tuple) else False
        if isinstance(a, AList):
            if isinstance(b, AList) and (a.view or b.view):
                if not (a.view and b.view):
                    return False
                da, db = ADict(), ADict()
                for d, x in ((da, a), (db, b)):
                    for k, v in self.con(x):
                        self.dict_set(d, k, v)
                return self.eq(da, db)
            return self.seq_eq(self.con(a), self.con(b)) if isinstance(b, AList) else False
        if isinstance(a, ADict):
            if not isinstance(b, ADict):
                return False
            ca, cb = self.con(a), self.con(b)
            if len(ca) != len(cb):
                return False
            r = True
            for hk, (k, v) in ca.items():
                w = cb.get(hk)
                if w is None:
                    w2 = self.dict_find(b, k)
                    if w2 is UNBOUND:
                        return False
                    v2 = w2
                else:
                    v2 = w[1]
                r = T.band(r, True if v is v2 else self.eq(v, v2))
                if r is False:
                    return False
            return r
        if isinstance(a, ASet):
            if not isinstance(b, ASet):
                return False
            ca, cb = self.con(a), self.con(b)
            if len(ca) != len(cb):
                return False
            r = True
            for v in ca.values():
                r = T.band(r, self.contains(b, v))
            return r
        if isinstance(a, ARange) and isinstance(b, ARange):
            return self.seq_eq(list(self.iterate(a)), list(self.iterate(b)))
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            return a is b
        if isinstance(a, AMethod) and isinstance(b, AMethod):
            return a.func is b.func and a.self_ is b.self_
        if isinstance(a, Unk) or isinstance(b, Unk):
            raise Unsupported("comparison with unknown value")
        return False

    def _unk_eq(self, b):
        if isinstance(b, Unk):
            raise Unsupported("comparison with unknown value")
        return False

    def seq_eq(self, p, q):
        if len(p) != len(q):
            return False
        r = True
        for x, y in zip(p, q):
            if x is y:
                continue
            e = self.eq(x, y)
            if e is False:
                return False
            r = T.band(r, e)
            if r is False:
                return False
        return r

    # ------------------------------------------------------------------ enums
    def mkenum(self, cls, term):
        if not T.is_sym(term):
            for m in cls.c["__members__"].values():
                if m.value == term and not isinstance(m.value, str):
                    return m
        else:
            term = T.b2i(term)
        return EnumTerm(cls, term)

    def enum_call(self, cls, v):
        v = self.res(v)
        if isinstance(v, (EnumMember, EnumTerm)) and v.cls is cls:
            return v
        n = self.num(v)
        ms = cls.c["__members__"].values()
        if n is None or not cls.c["_intlike_"]:
            for m in ms:
                e = self.eq(m.value, v)
                if self.want(e):
                    return m
        elif cls.enum == "flag":
            if T.sort_of(n) == "f":
                self.throw("ValueError", f"{n!r} is not a valid {cls.name}")
            return self.mkenum(cls, T.b2i(n))
        else:
            if not T.is_sym(n):
                for m in ms:
                    if m.value == n:
                        return m
            else:
                c = False
                for m in ms:
                    c = T.bor(c, T.eq(n, m.value))
                if self.want(c):
                    return self.mkenum(cls, n)
        miss = self.lookup(cls, "_missing_")
        if miss is not UNBOUND:
            r = self.call(miss.f if isinstance(miss, AClassMethod) else miss, [cls, v])
            if r is not None:
                return r
        self.throw("ValueError", f"not a valid {cls.name}")

    def split_enum(self, o):
        for m in o.cls.c["__members__"].values():
            if self.want(T.eq(o.term, m.value)):
                return m
        raise Unsupported("unnamed enum value")


class _Auto:
    pass


def plain_yields(f):
    """every yield of the function is a statement of its own (the value sent in is not used)"""
    r = _PLAIN.get(f.node)
    if r is None:
        inner = [n for n in own_nodes(f.node)]
        ok = {id(n.value) for n in inner if isinstance(n, ast.Expr)}
        r = _PLAIN[f.node] = all(id(n) in ok for n in inner if isinstance(n, (ast.Yield, ast.YieldFrom)))
    return r


_PLAIN = {}


def own_nodes(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


class _Live:
    """live view of a list during iteration"""

    def __init__(self, o):
        self.o = o

    def size(self, m):
        return len(m.con(self.o))

    def at(self, m, i):
        return m.con(self.o)[i]


_UNMODELLED = {"eval", "exec", "compile", "__import__", "input", "breakpoint", "globals", "locals", "complex", "aiter", "anext"}


def _hostfn():
    pass


def _host_has(mod, name):
    """Whether the standard library module behind a model has the attribute (True when it cannot be told)."""
    h = host_module(mod)
    return h is None or hasattr(h, name)


def host_module(name):
    if name.split(".")[0] not in sys.stdlib_module_names or name.split(".")[0] in ("antigravity", "this"):
        return None
    try:
        return importlib.import_module(name)
    except Exception:  # noqa: BLE001
        return None


#: modules whose functions depend on nothing but their arguments: calls with constants are folded
_FOLD = {"math", "re", "base64", "binascii", "textwrap", "unicodedata", "colorsys", "statistics", "zlib", "html", "shlex", "fnmatch", "posixpath"}


def unmodelled(what):
    mod, _, name = what.rpartition(".")

    def f(m, *a, **k):
        fn = getattr(host_module(mod), name, None) if mod in _FOLD else None
        if fn is not None and not isinstance(fn, type) and callable(fn):
            args = [m.to_host(x) for x in a]
            kw = {n: m.to_host(x) for n, x in k.items()}
            if not any(x is UNBOUND for x in args + list(kw.values())):
                try:
                    return m.of_host(fn(*args, **kw))
                except (ValueError, TypeError, OverflowError, ZeroDivisionError) as e:
                    if type(e).__name__ in m.classes:
                        m.throw(type(e).__name__, str(e))
        raise Unsupported(f"{what} is not modelled")

    return Native(what, f)


_HOSTCLS = {"NoneType": type(None), "function": type(_hostfn), "method": type([].append), "module": type(builtins), "generator": type(x for x in ()), "iterator": type(iter([]))}
