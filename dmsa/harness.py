"""Runs the rules of one property through the abstract interpreter.

A rule (rules/Cxx.py) is a piece of Python that is *interpreted abstractly* together with the code of /repo; neither is
executed.  A rule is instantiated for every member of a finite structural partition (`@cases`), everything else
(integers, flags, fixed-point numbers, byte contents) stays abstract and covers all of its values at once.

Outcome of an obligation `require(c)` under path condition `care`:
  care & not c  is the constant false      -> discharged (holds for every value)
  a valuation satisfies care & not c       -> violated (reported with that witness)
  neither                                  -> undecided (counted, never reported as a violation)
"""

from __future__ import annotations

import itertools
import json
import multiprocessing as mp
import os
import random
import sys
import threading
import time
import traceback

from . import terms as T
from .interp import Budget, Part, Parts
from .lib import Analyzer, ADecomp
from .models import JText
from .values import *  # noqa: F401,F403

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation:
    def __init__(self, **k):
        self.__dict__.update(k)


class Case:
    """bookkeeping of one analysed case"""

    def __init__(self, name, params):
        self.name, self.params = name, params
        self.obl = 0
        self.done = 0
        self.viol = []
        self.undec = []
        self.keys = set()
        self.inputs = []


def frames(m, site):
    out = []
    for p, ln, q in site or []:
        if p.startswith(m.repo_prefix):
            out.append(f"{os.path.relpath(p, m.repo)}:{ln} in {q}")
    return out


def rule_line(m, site):
    for p, ln, q in site or []:
        if p.startswith(HERE):
            return f"{os.path.relpath(p, HERE)}:{ln}"
    return "?"


class Harness:
    def __init__(self, repo, prop, tier="quick", seed=1):
        self.repo, self.prop, self.tier, self.seed = repo, prop, tier, seed
        m = self.m = Analyzer(repo)
        m.search.append(HERE)
        m.h = self
        self.case = None
        self.install()

    # ------------------------------------------------------------------ rule vocabulary
    def install(self):
        m = self.m
        b = m.builtins

        def nat(name, raw=False):
            def deco(f):
                b[name] = Native(name, f, raw)
                return f

            return deco

        def assume_(m, c):
            k = T.band(m.care, c)
            if k is False:
                raise Unsupported("assumption contradicts the case")
            m.care = k

        @nat("cases")
        def cases(m, **kw):
            lists = {k: list(m.iterate(v)) for k, v in kw.items()}

            def deco(m, f):
                f.attrs = dict(f.attrs or {})
                f.attrs["cases"] = [dict(zip(lists, c)) for c in itertools.product(*lists.values())]
                return f

            return Native("cases", deco)

        @nat("u")
        def u(m, name, n, lo=None, hi=None):
            t, care = T.word(name, n, False, lo, hi)
            self.note(name, t)
            if care is not True:
                assume_(m, care)
            return t

        @nat("s")
        def s(m, name, n, lo=None, hi=None):
            t, care = T.word(name, n, True, lo, hi)
            self.note(name, t)
            if care is not True:
                assume_(m, care)
            return t

        @nat("flag")
        def flag(m, name):
            t = T.flag(name)
            self.note(name, t)
            return t

        @nat("real")
        def real(m, name, lo, hi):
            t = T.real(name, float(lo), float(hi))
            self.note(name, t)
            return t

        @nat("dyadic")
        def dyadic(m, name, n, frac, signed=True, lo=None, hi=None):
            """float equal to an n-bit integer divided by 2**frac"""
            t, care = T.word(name, n, signed, lo, hi)
            self.note(name, t)
            if care is not True:
                assume_(m, care)
            return T.mkfix(t, frac)

        @nat("opaque")
        def opaque(m, name, n):
            return mkbytes([OSeg(name, 0, n)])

        @nat("sbytes")
        def sbytes(m, name, n):
            ts = []
            for i in range(n):
                t, _ = T.word(f"{name}[{i}]", 8, False)
                self.note(f"{name}[{i}]", t)
                ts.append(t)
            return mkbytes([tuple(ts)])

        @nat("sstr")
        def sstr(m, name, n):
            ts = []
            for i in range(n):
                t, care = T.word(f"{name}[{i}]", 7, False)
                self.note(f"{name}[{i}]", t)
                ts.append(t)
            return mkstr(mkbytes([tuple(ts)]))

        @nat("assume")
        def assume(m, c):
            assume_(m, m.truth(c))

        @nat("require", True)
        def require(m, c, msg="", *ctx):
            self.oblige(m.truth(c), msg, ctx)

        @nat("fail")
        def fail(m, msg="", *ctx):
            self.oblige(False, msg, ctx)

        @nat("require_same", True)
        def require_same(m, a, b_, msg="", ignore=(), loose=True, order=False):
            ign = set(m.iterate(ignore)) if ignore else set()
            for path, c, x, y in deep_same(m, a, b_, ign, loose, order):
                self.oblige(c, f"{msg}{path}", (x, y))

        @nat("is_same", True)
        def is_same(m, a, b_, ignore=(), loose=True, order=False):
            ign = set(m.iterate(ignore)) if ignore else set()
            r = True
            for path, c, x, y in deep_same(m, a, b_, ign, loose, order):
                r = T.band(r, c)
            return r

        @nat("clone", True)
        def clone(m, v):
            return raw_clone(m, v, {})

        @nat("feasible")
        def feasible(m, c=True):
            return T.band(m.care, m.truth(c)) is not False

        @nat("type_name")
        def type_name(m, v):
            return m.type_of(v).name

        @nat("add_file")
        def add_file(m, path, data):
            m.wcon(m.fs)[path] = data

        @nat("remove_file")
        def remove_file(m, path):
            m.wcon(m.fs).pop(path, None)

        @nat("get_file")
        def get_file(m, path):
            return m.con(m.fs).get(path)

        @nat("opens")
        def opens(m):
            return AList([(p, md) for p, md in m.extra.get("opens", [])])

        @nat("imaging")
        def imaging(m, on=True):
            """whether the optional imaging library is there (reset for every case)"""
            self.set_imaging(on)

        @nat("hash_order")
        def hash_order(m, entered):
            """whether sets are walked in the order of entry (else in the reverse order, except sets of numbers)"""
            m.extra["hash_order"] = bool(entered)

        @nat("max_loop")
        def max_loop(m, n):
            m.max_loop = n
            m.max_steps = 20_000_000

        @nat("zdata")
        def zdata(m, data):
            """(plain bytes, consumed) of a deflate stream at the start of data"""
            raise Unsupported("zdata")

        @nat("describe")
        def describe(m, *a):
            return Unk("str")

        b["TIER"] = self.tier
        b["THOROUGH"] = self.tier == "thorough"

    def set_imaging(self, on):
        for n in ("PIL", "PIL.Image"):
            self.m.modules.pop(n, None)
            (self.m.no_module.discard if on else self.m.no_module.add)(n)

    def note(self, name, t):
        if self.case is None:
            raise RuntimeError(f"input {name} made outside a case")
        self.case.inputs.append((name, t))

    # ------------------------------------------------------------------ obligations
    def oblige(self, c, msg, ctx=()):
        m, cs = self.m, self.case
        cs.obl += 1
        if c is True:
            cs.done += 1
            return
        bad = T.band(m.care, T.bnot(c))
        if bad is False:
            cs.done += 1
            return
        site = m.site()
        self.report(bad, msg, site, ctx)

    def report(self, bad, msg, site, ctx=(), kind="obligation", fr=None):
        m, cs = self.m, self.case
        key = (kind, msg, rule_line(m, site))
        if key in cs.keys:
            return
        rng = random.Random(self.seed)
        val = T.find_valuation(bad, rng, 1500, [t for _, t in cs.inputs])
        if val is None:
            cs.undec.append(f"{kind}: {msg} ({rule_line(m, site)}): no witness for {T.bstr(bad)[:200]}")
            return
        cs.keys.add(key)
        wit = {}
        for n, t in cs.inputs:
            try:
                wit[n] = val.ev(t)
            except Exception:
                pass
        if fr is None:
            fr = frames(m, site) or [
                f"{os.path.relpath(f.module.path, m.repo)}:{f.node.lineno} in {f.qual}" for f in m.case_fns
            ]
        shown = []
        for x in ctx:
            shown.append(show(m, x, val))
        cs.viol.append(
            Violation(kind=kind, msg=msg, rule=rule_line(m, site), frames=fr,
                      witness={k: repr(v) for k, v in wit.items()}, values=shown)
        )

    # ------------------------------------------------------------------ running
    def load(self):
        m = self.m
        mod = m.import_(f"rules.{self.prop}")
        jobs = []
        for k, v in mod.c.items():
            if k.startswith("case_") and isinstance(v, AFunc):
                for p in (v.attrs or {}).get("cases", [{}]):
                    jobs.append((k, v, p))
        self.levels0 = len(m.levels)
        m.analysed.clear()
        m.callsites.clear()
        return jobs

    def run_case(self, fn, params, name):
        m = self.m
        T.CTX.reset()
        self.set_imaging(False)
        m.zlib.clear()
        m.zlabels.clear()
        m.extra = {k: v for k, v in m.extra.items() if k == "chain_from_iterable"}
        m.care = True
        m.steps = m.splits = m.forks = 0
        m.max_loop = 200_000
        m.max_steps = 4_000_000
        m.line = 0
        del m.stack[:]
        case = self.case = Case(name, params)
        m.case_fns = {}
        m.push()
        t0 = time.time()
        m.deadline = t0 + (150 if self.tier == "quick" else 900)
        try:
            o = self.top(fn, params)
            parts = o.parts if type(o) is Parts else [Part(True, o[0], o[1], {}, o[2])] if o else []
            for p in parts:
                if p.kind == "X":
                    bad = T.band(m.care, p.g)
                    e = p.val
                    a = e.c.get("args") if isinstance(e.c, dict) else ()
                    what = f"unexpected {e.cls.name}" + (f"({', '.join(map(str, a))[:120]})" if a else "")
                    self.report(bad, what, p.site, (), "exception")
        except Budget as e:
            if self.termination and ("come to an end" in e.what or "endless" in e.what):
                self.report(m.care, f"{e.what}", e.site, (), "termination", frames(m, e.site))
            else:
                case.undec.append(f"budget: {e.what} {frames(m, e.site)[:2]}")
        except Unsupported as e:
            case.undec.append(f"unsupported: {e} at {(frames(m, m.site()) or [rule_line(m, m.site())])[0]}")
        except T.Limit as e:
            case.undec.append(f"limit: {e} at {(frames(m, m.site()) or ['?'])[0]}")
        except RecursionError:
            case.undec.append("analyser recursion limit")
        except SplitRequest:
            case.undec.append("split outside a statement")
        except Exception as e:  # analyser defect: never a verdict
            if os.environ.get("DMSA_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            case.undec.append(f"internal: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno}) at {(frames(m, m.site()) or [rule_line(m, m.site())])[0]}")
        finally:
            while len(m.levels) > self.levels0:
                m.rollback()
        return dict(
            name=name, params={k: show(m, v, None) for k, v in params.items()}, obl=case.obl, done=case.done,
            viol=[v.__dict__ for v in case.viol], undec=case.undec, steps=m.steps, forks=m.forks, splits=m.splits,
            wall=time.time() - t0,
        )

    def top(self, fn, params):
        m = self.m
        m.push()
        try:
            m.call(fn, [], dict(params))
        except SplitRequest as s:
            m.rollback()
            if m.decide(s.cond) is not None:
                raise Unsupported("split on a decided condition")
            m.splits += 1
            if m.splits > m.max_splits:
                raise Unsupported("too many partitions")
            k = lambda: self.top2(fn, params)  # noqa: E731
            try:
                return m.fork_on(s.cond, k, k)
            except Raised as e:
                return ("X", e.exc, e.site)
        except Raised as e:
            m.commit()
            return ("X", e.exc, e.site)
        m.commit()
        return None

    def top2(self, fn, params):
        o = self.top(fn, params)
        if isinstance(o, tuple):
            raise Raised(o[1], o[2])
        return o

    termination = False


def show(m, x, val):
    """short text of an abstract value, evaluated under a witness if given"""
    try:
        return _show(m, x, val, 0)
    except Exception as e:
        return f"<{type(x).__name__} {type(e).__name__}>"


def _show(m, x, val, d):
    if d > 4:
        return "..."
    if type(x) is Choice:
        if val is not None:
            return _show(m, x.a if val.b(x.cond) else x.b, val, d)
        return "<choice>"
    if T.is_sym(x):
        return repr(val.ev(x)) if val is not None else T.tstr(x)[:120]
    if isinstance(x, Rope):
        return f"<{x.n} bytes>" if x.n > 64 or val is None else repr(bytes(val.ev(t) for t in bitems(x)))
    if isinstance(x, SStr):
        return "".join(chr(val.ev(t)) for t in bitems(x.rope)) if val is not None else "<str>"
    if isinstance(x, (EnumMember,)):
        return f"{x.cls.name}.{x.name}"
    if isinstance(x, EnumTerm):
        return f"{x.cls.name}({_show(m, x.term, val, d)})"
    if isinstance(x, tuple):
        return "(" + ", ".join(_show(m, y, val, d + 1) for y in x[:12]) + ")"
    if isinstance(x, AList):
        return "[" + ", ".join(_show(m, y, val, d + 1) for y in m.con(x)[:12]) + "]"
    if isinstance(x, ADict):
        return "{" + ", ".join(f"{_show(m, k, val, d + 1)}: {_show(m, v, val, d + 1)}" for k, v in list(m.con(x).values())[:8]) + "}"
    if isinstance(x, AInst):
        return x.cls.name + "(" + ", ".join(f"{k}={_show(m, v, val, d + 1)}" for k, v in list(m.con(x).items())[:8]) + ")"
    if isinstance(x, (AClass, AFunc)):
        return x.name
    r = repr(x)
    return r if len(r) < 120 else r[:100] + "..."


def raw_clone(m, v, memo):
    """structural copy that does not call any program code"""
    v = m.res(v)
    if isinstance(v, tuple):
        return tuple(raw_clone(m, x, memo) for x in v)
    if not isinstance(v, Obj) or isinstance(v, (AClass, AModule, Env)):
        return v
    if v in memo:
        return memo[v]
    if isinstance(v, AInst):
        r = AInst(v.cls)
        memo[v] = r
        if v.payload is not None:
            r.payload = raw_clone(m, v.payload, memo)
        r.c = {k: raw_clone(m, x, memo) for k, x in m.con(v).items()}
        return r
    if isinstance(v, AList):
        r = AList([])
        memo[v] = r
        r.c = [raw_clone(m, x, memo) for x in m.con(v)]
        return r
    if isinstance(v, ADict):
        r = ADict({})
        r.default, r.kind = v.default, v.kind
        memo[v] = r
        r.c = {hk: (k, raw_clone(m, x, memo)) for hk, (k, x) in m.con(v).items()}
        return r
    if isinstance(v, ASet):
        return ASet(dict(m.con(v)), v.frozen)
    if isinstance(v, AByteArray):
        return AByteArray(m.con(v))
    if isinstance(v, AStream):
        r = AStream(kind=v.kind)
        memo[v] = r
        r.c = m.con(v)
        return r
    return v


def deep_same(m, a, b, ignore, loose, order, path="", seen=None, out=None):
    """list of (path, condition, a, b): the structures agree when every condition holds"""
    if out is None:
        out = []
        seen = set()
    if a is b and type(a) is not Choice:
        out.append((path, True, None, None))
        return out
    if type(a) is Choice or type(b) is Choice:
        c = a if type(a) is Choice else b
        d = m.decide(c.cond)
        if d is not None:
            v = c.a if d else c.b
            return deep_same(m, v, b, ignore, loose, order, path, seen, out) if c is a else deep_same(m, a, v, ignore, loose, order, path, seen, out)
        for g, v in ((c.cond, c.a), (T.bnot(c.cond), c.b)):
            old = m.care
            care = T.band(old, g)
            if care is False:
                continue
            m.care = care
            try:
                sub = deep_same(m, v, b, ignore, loose, order, path, set(seen)) if c is a else deep_same(m, a, v, ignore, loose, order, path, set(seen))
            finally:
                m.care = old
            out.extend((p, T.bor(T.bnot(g), k), x, y) for p, k, x, y in sub)
        return out
    if isinstance(a, Obj) and isinstance(b, Obj):
        k = (id(a), id(b))
        if k in seen:
            return out
        seen.add(k)
    x, y = m.num(a) if not isinstance(a, AInst) else None, m.num(b) if not isinstance(b, AInst) else None
    if x is not None and y is not None:
        if isinstance(a, (EnumMember, EnumTerm)) != isinstance(b, (EnumMember, EnumTerm)) and not loose:
            out.append((path + ".__class__", False, a, b))
        elif not loose and T.sort_of(x) != T.sort_of(y):
            out.append((path + ".__class__", False, a, b))
        else:
            out.append((path, T.eq(x, y), a, b))
        return out
    ta, tb = m.type_of(a), m.type_of(b)
    if ta is not tb:
        out.append((path, False, a, b))
        return out
    rec = lambda p, x, y: deep_same(m, x, y, ignore, loose, order, path + p, seen, out)  # noqa: E731
    if isinstance(a, AInst):
        ca, cb = m.con(a), m.con(b)
        for n in list(ca) + [n for n in cb if n not in ca]:
            if n in ignore:
                continue
            u, v = ca.get(n, UNBOUND), cb.get(n, UNBOUND)
            if u is UNBOUND or v is UNBOUND:
                if u is not v:
                    out.append((f"{path}.{n}", False, u, v))
                continue
            rec(f".{n}", u, v)
        if a.payload is not None:
            rec("", a.payload, b.payload)
    elif isinstance(a, (tuple, AList)):
        la, lb = (list(a), list(b)) if isinstance(a, tuple) else (m.con(a), m.con(b))
        if len(la) != len(lb):
            out.append((path + " (length)", False, len(la), len(lb)))
            return out
        for i, (u, v) in enumerate(zip(la, lb)):
            rec(f"[{i}]", u, v)
        out.append((path, True, None, None))
    elif isinstance(a, ADict):
        ca, cb = m.con(a), m.con(b)
        if len(ca) != len(cb):
            out.append((path + " (keys)", False, tuple(k for k, _ in ca.values()), tuple(k for k, _ in cb.values())))
            return out
        if order and list(ca) != list(cb):
            out.append((path + " (key order)", False, tuple(k for k, _ in ca.values()), tuple(k for k, _ in cb.values())))
            return out
        for hk, (k, u) in ca.items():
            e = cb.get(hk)
            if e is None:
                v = m.dict_find(b, k)
                if v is UNBOUND:
                    out.append((path + " (keys)", False, tuple(k for k, _ in ca.values()), tuple(k for k, _ in cb.values())))
                    continue
            else:
                v = e[1]
            rec(f"[{show(m, k, None)}]", u, v)
        out.append((path, True, None, None))
    elif isinstance(a, AStream):
        u, v = m.con(a), m.con(b)
        out.append((path + " (stream)", T.band(u[1] == v[1] and u[2] == v[2], m.eq0(u[0], v[0])), None, None))
    elif isinstance(a, (AClass, AFunc, Native, AModule)):
        out.append((path, a is b, a, b))
    else:
        out.append((path, m.eq(a, b), a, b))
    return out


# --------------------------------------------------------------------------- parallel driver
def _big(f):
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    res = []

    def g():
        try:
            res.append(f())
        except BaseException as e:  # noqa: BLE001
            if type(e).__name__ != "NotAnalysed":
                traceback.print_exc()
            res.append(e)

    t = threading.Thread(target=g)
    t.start()
    t.join()
    if isinstance(res[0], BaseException):
        raise res[0]
    return res[0]


class NotAnalysed(Exception):
    """the current source cannot be evaluated up to the first case"""


def run(repo, prop, tier, seed, only=None, procs=None, verbose=False, first=False):
    t0 = time.time()

    def prep():
        h = Harness(repo, prop, tier, seed)
        try:
            jobs = h.load()
        except Raised as e:
            raise NotAnalysed(
                f"rule cannot be set up: {e.exc.cls.name} {e.exc.c.get('args')} at {frames(h.m, e.site)[:1] or rule_line(h.m, e.site)}"
            )
        except (Unsupported, Budget, T.Limit) as e:
            raise NotAnalysed(f"rule cannot be set up: unsupported {e}") from None
        except Exception as e:  # noqa: BLE001
            raise NotAnalysed(f"rule cannot be set up: internal {type(e).__name__} {e}") from e
        h.termination = h.m.modules[f"rules.{prop}"].c.get("TERMINATION") is True
        return h, jobs

    h, jobs = _big(prep)
    if only:
        jobs = [j for j in jobs if only in j[0] or only in f"{j[0]}{show(h.m, tuple(j[2].values()), None)}"]
    n = procs or min(8, os.cpu_count() or 1, max(1, len(jobs)))
    limit = 600 if tier == "quick" else 3300
    if n == 1:
        results = []

        def every():
            for k, fn, p in jobs:
                results.append(h.run_case(fn, p, k))
                if first and results[-1]["viol"]:
                    break

        _big(every)
        fns = set(h.m.analysed)
        sites = set(h.m.callsites)
    else:
        ctx = mp.get_context("fork")
        idx = ctx.Value("i", 0)
        q = ctx.Queue()

        def worker():
            def go():
                while True:
                    with idx.get_lock():
                        i = idx.value
                        idx.value += 1
                    if i >= len(jobs):
                        break
                    k, fn, p = jobs[i]
                    q.put(("r", i, h.run_case(fn, p, k)))
                q.put(("f", h.m.analysed, h.m.callsites))

            _big(go)

        ps = [ctx.Process(target=worker) for _ in range(n)]
        for p in ps:
            p.start()
        got = {}
        fns, sites = set(), set()
        fin = 0
        bad = False
        while fin < n:
            el = time.time() - t0
            if el > limit or (bad and el > 120):
                break
            try:
                x = q.get(timeout=5)
            except Exception:
                if not any(p.is_alive() for p in ps):
                    break
                continue
            if x[0] == "r":
                got[x[1]] = x[2]
                bad = bad or bool(x[2]["viol"])
            else:
                fin += 1
                fns |= x[1]
                sites |= x[2]
        for p in ps:
            if p.is_alive():
                p.join(0.5)
            if p.is_alive():
                p.kill()
        results = []
        for i, (k, fn, p) in enumerate(jobs):
            results.append(
                got.get(i)
                or dict(name=k, params={a: show(h.m, b, None) for a, b in p.items()}, obl=0, done=0, viol=[], undec=["case did not finish"], steps=0, forks=0, splits=0, wall=0)
            )
    return h, jobs, results, fns, sites, time.time() - t0
