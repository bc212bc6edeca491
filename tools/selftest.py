"""Differential test of the analyser itself (not a check): random small programs over a few boolean and integer inputs are
run by CPython on every valuation and analysed once with abstract inputs; the results must agree."""

import itertools
import os
import random
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def cond(self, d=0):
        r = self.r
        k = r.randrange(9)
        if k < 4:
            return r.choice(["f0", "f1", "f2"])
        if k == 4:
            return f"not {self.cond(d + 1)}" if d < 2 else "f0"
        if k == 5:
            return f"({self.cond(d + 1)} and {self.cond(d + 1)})" if d < 2 else "f1"
        if k == 6:
            return f"({self.cond(d + 1)} or {self.cond(d + 1)})" if d < 2 else "f2"
        return f"{self.num()} {r.choice(['<', '==', '!=', '>=', '>'])} {self.num()}"

    def num(self, d=0):
        r = self.r
        k = r.randrange(11)
        if k < 3:
            return r.choice(["a", "b", "c"])
        if k == 3:
            return "w"
        if k < 6:
            return str(r.randrange(-2, 5))
        if k == 6:
            return f"({self.num(d + 1)} {r.choice(['+', '-', '&', '|', '^'])} {self.num(d + 1)})" if d < 2 else "a"
        if k == 7:
            return f"({self.num(d + 1)} if {self.cond(1)} else {self.num(d + 1)})" if d < 2 else "b"
        if k == 8:
            return "len(l)"
        if k == 9:
            return "d.get('k', 3)"
        return "l[-1]"

    def block(self, depth, loop, fin=False, ind=1):
        return [s for _ in range(self.r.randrange(1, 4)) for s in self.stmt(depth, loop, fin, ind)]

    def stmt(self, depth, loop, fin, ind):
        r = self.r
        p = "    " * ind
        k = r.randrange(22) if depth < 4 else r.randrange(8)
        sub = lambda lp=loop, f=fin: self.block(depth + 1, lp, f, ind + 1)  # noqa: E731
        if k < 3:
            return [f"{p}{r.choice('abc')} = {self.num()}"]
        if k == 3:
            return [f"{p}l.append({self.num()})"]
        if k == 4:
            return [f"{p}d['{r.choice('kmn')}'] = {self.num()}"]
        if k == 5:
            return [f"{p}{r.choice('abc')} += {self.num()}"]
        if k == 6:
            return [f"{p}l[{r.choice([0, -1])}] = {self.num()}"]
        if k == 7:
            if loop and not fin:
                return [f"{p}if {self.cond()}:", f"{p}    {r.choice(['break', 'continue'])}"]
            return [f"{p}o.x = {self.num()}"]
        if k < 11:
            out = [f"{p}if {self.cond()}:"] + sub()
            if r.random() < 0.5:
                out += [f"{p}else:"] + sub()
            return out
        if k < 14:
            self.n += 1
            out = [f"{p}for i{self.n} in range({r.randrange(1, 4)}):"] + sub(True, False)
            if r.random() < 0.5:
                out += [f"{p}else:"] + sub()
            return out
        if k == 14:
            self.n += 1
            v = f"n{self.n}"
            out = [f"{p}{v} = 0", f"{p}while {v} < 3 and {self.cond()}:", f"{p}    {v} += 1"] + sub(True, False)
            if r.random() < 0.4:
                out += [f"{p}else:"] + sub()
            return out
        if k < 17:
            out = [f"{p}try:"] + sub()
            if r.random() < 0.7:
                out += [f"{p}except ValueError as e:", f"{p}    l.append(len(e.args))"] + sub()
            if r.random() < 0.3 or not any(x.startswith(p + "except") for x in out):
                out += [f"{p}finally:"] + sub(loop, True)
            return out
        if k == 17:
            return [f"{p}if {self.cond()}:", f"{p}    raise ValueError({self.num()})"]
        if k == 18 and not fin:
            return [f"{p}if {self.cond()}:", f"{p}    return (a, b, c, list(l), dict(d), o.x)"]
        if k == 19:
            return [f"{p}with CM(l, {self.cond()}):"] + sub()
        if k == 20:
            return [f"{p}{r.choice('abc')} = helper(l, d, {self.num()}, {self.cond()})"]
        return [f"{p}for q in [{self.num()}, {self.num()}]:", f"{p}    c ^= q"] + (self.block(depth + 1, True, False, ind + 1) if r.random() < 0.5 else [])


PRE = '''
class O:
    def __init__(self):
        self.x = 0

class CM:
    def __init__(self, l, eat):
        self.l, self.eat = l, eat
    def __enter__(self):
        self.l.append(7)
        return self
    def __exit__(self, t, v, tb):
        self.l.append(9 if t is None else 8)
        return self.eat

def gen(l, c):
    for x in l:
        if c:
            yield x
        else:
            yield -x

def helper(l, d, v, c):
    if c:
        l.append(v)
        return 5
    for x in gen(l[:2], v == 1):
        if x == 3:
            return x
    return d.setdefault('h', v)

def run(f0, f1, f2, w):
    a = b = 1
    c = 2
    l = [w]
    d = {}
    o = O()
    try:
        r = prog(f0, f1, f2, w, a, b, c, l, d, o)
    except ValueError as e:
        return ("exc", list(e.args), list(l), dict(d), o.x)
    return ("ret", r, list(l), dict(d), o.x)
'''


def program(seed):
    g = Gen(random.Random(seed))
    body = []
    for _ in range(5):
        body += g.stmt(0, False, False, 1)
    return PRE + "\ndef prog(f0, f1, f2, w, a, b, c, l, d, o):\n" + "\n".join(body) + "\n    return (a, b, c, list(l), dict(d), o.x)\n"


def main(lo, hi):
    bad = 0
    und = 0
    for base in range(lo, hi, 20):
        srcs = []
        rule = ['RULE = "selftest"\n']
        with tempfile.TemporaryDirectory() as tmp:
            pkg = os.path.join(tmp, "dustmaker")
            os.makedirs(pkg)
            open(os.path.join(pkg, "__init__.py"), "w").close()
            for seed in range(base, min(base + 20, hi)):
                src = program(seed)
                env = {}
                exec(compile(src, "p", "exec"), env)
                table = []
                for f0, f1, f2, w in itertools.product([False, True], [False, True], [False, True], range(-2, 2)):
                    try:
                        table.append(((f0, f1, f2, w), env["run"](f0, f1, f2, w)))
                    except Exception as e:  # other errors: skip the program
                        table = None
                        break
                if table is None:
                    continue
                open(os.path.join(pkg, f"p{seed}.py"), "w").write(src)
                srcs.append(seed)
                rule.append(
                    f"def case_p{seed}():\n"
                    f"    from dustmaker.p{seed} import run\n"
                    f"    f0, f1, f2, w = flag('f0'), flag('f1'), flag('f2'), s('w', 2)\n"
                    f"    got = run(f0, f1, f2, w)\n"
                )
                for (p, q, t, v), want in table:
                    rule.append(
                        f"    if f0 == {p} and f1 == {q} and f2 == {t} and w == {v}:\n        require(got == {want!r}, 'differs', got)\n"
                    )
            path = os.path.join(HERE, "rules", "C99.py")
            open(path, "w").write("".join(rule))
            try:
                r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "C99", "--strict", "-v"], env={**os.environ, "DMSA_REPO": tmp}, capture_output=True, text=True)
            finally:
                os.unlink(path)
            out = r.stdout + r.stderr
            viol = {x.split("{")[0].split(":")[0] for x in out.splitlines() if x.startswith("case_p") and "[" in x}
            und += sum(1 for x in out.splitlines() if x.startswith("UNDECIDED"))
            if viol or r.returncode not in (0, 3):
                bad += 1
                print(base, r.returncode, viol, out[-800:] if r.returncode not in (0, 1, 3) else "")
    print("bad batches", bad, "undecided", und)


if __name__ == "__main__":
    main(int(sys.argv[1]), int(sys.argv[2]))
