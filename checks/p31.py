"""The mypy plugin that ships with the library is run, in a real mypy process,
over generated programs: hundreds of calls that combine layers of declared
types - chain, add, concatenate, and user-defined combinators annotated with the
two marker type variables - nested, with keyword arguments in any order, at
module level, in functions, methods and comprehensions.  Every argument stands
on a line of its own, so each report is attributed to one argument.  An
independent model of the type lattice (runtime classes, unions, invariant and
covariant generics, tuples, Any, numeric promotion) says which neighbours fit:
the plugin must report each misfit on both of its arguments, with the right
code, naming the two types in order, and nothing else, and the type of the
combined model must be that of the ends.  Programs using Model in ways the
plugin cannot analyse must leave the type checker alive and give no reports.
Distinct = combinator, number of arguments, pattern of misfits, kinds of types."""
import collections
import os
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from thinc import types as tt

from vlib.core import group
from vlib.build import REPO

CASE_S = 600
ASSUMPTIONS = [
    "only reports with the plugin's two error codes, the revealed types and the survival of mypy are judged, not mypy's own further reports",
    "Any is not used with add and concatenate, where the plugin demands equal types",
    "torch is not followed by mypy (it is an untyped import there), to bound the time",
]
CODES = ("layer-mismatch-input", "layer-mismatch-output")

PRELUDE = '''from typing import Any, Callable, Dict, Generic, List, Optional, Sequence, Tuple, TypeVar, Union
from thinc.api import Model, add, chain, concatenate, clone, residual, with_array
from thinc.types import Array2d, ArrayXd, Floats1d, Floats2d, Floats3d, Ints1d, Ints2d, Padded, Ragged
from thinc.types import XY_XY_OutT, XY_YZ_OutT

class A: ...
class B(A): ...
class C(B): ...
class D: ...
class E(A, D): ...

_In = TypeVar("_In")
_Out = TypeVar("_Out")

def my_chain(first: Model[_In, Any], *rest: Model) -> Model[_In, XY_YZ_OutT]:
    ...

def my_parallel(first: Model[_In, Any], *rest: Model) -> Model[_In, XY_XY_OutT]:
    ...

def my_plain(first: Model[_In, _Out], *rest: Model) -> Model[_In, _Out]:
    ...

def deco(f: _Out) -> _Out:
    return f

@deco
def my_decorated(first: Model[_In, Any], *rest: Model) -> Model[_In, XY_YZ_OutT]:
    ...

'''


class A: ...
class B(A): ...
class C(B): ...
class D: ...
class E(A, D): ...


SIMPLE = {"A": A, "B": B, "C": C, "D": D, "E": E, "int": int, "float": float, "bool": bool, "str": str, "object": object}
for _n in "Floats1d Floats2d Floats3d Ints1d Ints2d Ragged Padded".split():
    SIMPLE[_n] = getattr(tt, _n)
MAIN = ["A", "B", "C", "D", "E", "Floats2d", "Floats2d", "Ints1d", "Ragged", "Padded"]


# a type: ("cls", name) | ("any",) | ("list", t) | ("seq", t) | ("union", ts) | ("tuple", ts)
def rand_type(r, d=1, allow_any=True):
    k = r.randint(10)
    if k < 6 or d <= 0:
        pool = MAIN if r.rand() < 0.8 else sorted(SIMPLE)
        return ("cls", str(r.choice(pool)))
    if k == 6:
        return ("list", rand_type(r, d - 1, allow_any))
    if k == 7:
        return ("seq", rand_type(r, d - 1, allow_any))
    if k == 8:
        if r.rand() < 0.5:
            return ("tuple", tuple(rand_type(r, d - 1, allow_any) for _ in range(r.randint(1, 3))))
        names = [str(n) for n in r.permutation(["A", "D", "str", "Ragged", "Padded", "Floats2d"])[:2]]
        return ("union", tuple(("cls", n) for n in names))
    return ("any",) if allow_any else ("cls", "A")


def text(t):
    if t[0] == "cls":
        return t[1]
    if t[0] == "any":
        return "Any"
    if t[0] in ("list", "seq"):
        return ("List" if t[0] == "list" else "Sequence") + f"[{text(t[1])}]"
    return ("Union" if t[0] == "union" else "Tuple") + "[" + ", ".join(map(text, t[1])) + "]"


def shown(t):
    """How mypy writes the type (short class names)."""
    if t[0] == "union":
        return "Union[" + ", ".join(map(shown, t[1])) + "]"
    if t[0] == "list":
        return f"list[{shown(t[1])}]"
    if t[0] == "seq":
        return f"Sequence[{shown(t[1])}]"
    if t[0] == "tuple":
        return "Tuple[" + ", ".join(map(shown, t[1])) + "]"
    return text(t)


def fits(a, b):
    """May a value of type a be given where b is expected?"""
    if a == ("any",) or b == ("any",) or a == b or b == ("cls", "object"):
        return True
    if a[0] == "union":
        return all(fits(x, b) for x in a[1])
    if b[0] == "union":
        return any(fits(a, x) for x in b[1])
    if a[0] == "cls" and b[0] == "cls":
        if (a[1], b[1]) in (("int", "float"), ("bool", "float")):
            return True
        return issubclass(SIMPLE[a[1]], SIMPLE[b[1]])
    if a[0] == "cls" or b[0] == "cls":
        # str is a sequence of str, the containers of the library are not sequences
        return a == ("cls", "str") and b[0] == "seq" and fits(a, b[1])
    if b[0] == "seq":
        if a[0] == "tuple":
            return all(fits(x, b[1]) for x in a[1])
        return fits(a[1], b[1])
    if a[0] == "list" and b[0] == "list":
        return fits(a[1], b[1]) and fits(b[1], a[1])
    if a[0] == "tuple" and b[0] == "tuple":
        return len(a[1]) == len(b[1]) and all(map(fits, a[1], b[1]))
    return False


def near(r, t):
    """A type related to t."""
    k = r.randint(6)
    if t[0] == "cls":
        c = SIMPLE[t[1]]
        rel = [n for n, q in SIMPLE.items() if issubclass(c, q)] if k % 2 else [n for n, q in SIMPLE.items() if issubclass(q, c)]
        if k < 4:
            return ("cls", str(r.choice(sorted(rel))))
        if k == 4:
            return ("union", (t, ("cls", "D" if t[1] != "D" else "Ragged"))) if t[1] not in ("object", "E", "int", "bool", "float") else t
        return ("list", t)
    if t[0] in ("list", "seq"):
        return ["list", "seq"][k % 2], near(r, t[1])
    return t


class Program:
    def __init__(self, r):
        self.r = r
        self.lines = PRELUDE.split("\n")
        self.n = 0
        self.want = collections.defaultdict(set)  # line -> {(code, which, got, expected)}
        self.reveal = {}  # line -> (in, out)
        self.calls = []  # (kind, arg count, misfits)
        self.anywhere = set()  # lines on which nothing is demanded

    def emit(self, s):
        self.lines.append(s)
        return len(self.lines)

    def name(self, p="m"):
        self.n += 1
        return f"{p}{self.n}"

    def declare(self, i, o):
        n = self.name()
        self.emit(f"{n}: Model[{text(i)}, {text(o)}]")
        return n, i, o

    def args(self, k, parallel):
        r = self.r
        out = []
        if parallel:
            i, o = rand_type(r, 1, False), rand_type(r, 1, False)
            for _ in range(k):
                a = i if r.rand() < 0.8 else (near(r, i) if r.rand() < 0.6 else rand_type(r, 1, False))
                b = o if r.rand() < 0.8 else (near(r, o) if r.rand() < 0.6 else rand_type(r, 1, False))
                out.append((a, b))
            return out
        cur = rand_type(r)
        for _ in range(k):
            q = r.rand()
            i = cur if q < 0.45 else near(r, cur) if q < 0.85 else rand_type(r)
            cur = rand_type(r)
            out.append((i, cur))
        return out

    def call(self, indent="", depth=1, as_expr=False):
        """Emit one call; -> (name or None, in, out, kind)"""
        r = self.r
        fn = str(r.choice(["chain", "chain", "chain", "add", "concatenate", "my_chain", "my_parallel", "my_decorated"]))
        parallel = fn in ("add", "concatenate", "my_parallel")
        k = int(r.choice([2, 2, 3, 4, 6, 9, 12]))
        if fn in ("concatenate", "my_chain", "my_parallel", "my_decorated") and r.rand() < 0.1:
            k = 1
        types = self.args(k, parallel)
        exprs = []
        for i, o in types:
            n, _, _ = self.declare(i, o) if not indent else (None, None, None)
            exprs.append(n)
        return fn, parallel, types, exprs

    def one(self, style):
        r = self.r
        fn, parallel, types, names = self.call()
        res = self.name("x")
        kw = [None] * len(names)
        order = list(range(len(names)))
        if style == "keywords" and fn in ("chain", "add") and len(names) == 2:
            kw = ["layer1=", "layer2="]
            order = [1, 0] if r.rand() < 0.7 else order
        ind = ""
        if style == "function":
            self.emit(f"def f_{res}(flag: bool) -> None:")
            ind = "    "
        elif style == "method":
            self.emit(f"class K_{res}:")
            self.emit("    def run(self) -> None:")
            ind = "        "
        if style == "comprehension":
            self.emit(f"{res} = [{fn}(")
        else:
            self.emit(f"{ind}{res} = {fn}(")
        where = {}
        for j in order:
            where[j] = self.emit(f"{ind}    {kw[j] or ''}{names[j]},")
        end = self.emit(f"{ind}) for _ in range(2)][0]" if style == "comprehension" else f"{ind})")
        miss = []
        for j in range(len(types) - 1):
            (i1, o1), (i2, o2) = types[j], types[j + 1]
            if parallel:
                if i1 != i2:
                    self.want[where[j]].add(("layer-mismatch-input", "next", shown(i1), shown(i2)))
                    self.want[where[j + 1]].add(("layer-mismatch-input", "previous", shown(i2), shown(i1)))
                if o1 != o2:
                    self.want[where[j]].add(("layer-mismatch-output", "next", shown(o1), shown(o2)))
                    self.want[where[j + 1]].add(("layer-mismatch-output", "previous", shown(o2), shown(o1)))
                miss.append((i1 != i2, o1 != o2))
            else:
                bad = not fits(o1, i2)
                if bad:
                    self.want[where[j]].add(("layer-mismatch-output", "next", shown(o1), shown(i2)))
                    self.want[where[j + 1]].add(("layer-mismatch-input", "previous", shown(i2), shown(o1)))
                miss.append(bad)
        for j in where:
            self.want[where[j]]
        ends = (types[0][0], types[0][1] if parallel else types[-1][1])
        self.reveal[self.emit(f"{ind}reveal_type({res})")] = ends
        self.calls.append((fn, len(types), tuple(miss), style, min(where.values()), end))
        # the combined model takes part in a further call with its own type
        if not ind and style != "comprehension" and r.rand() < 0.35:
            cur = ends[1]
            nxt_in = cur if r.rand() < 0.4 else near(r, cur) if r.rand() < 0.7 else rand_type(r)
            m, _, _ = self.declare(nxt_in, ("cls", "A"))
            res2 = self.name("y")
            self.emit(f"{res2} = chain(")
            l1 = self.emit(f"    {res},")
            l2 = self.emit(f"    {m},")
            e2 = self.emit(")")
            self.want[l1], self.want[l2]
            bad = not fits(cur, nxt_in)
            if bad:
                self.want[l1].add(("layer-mismatch-output", "next", shown(cur), shown(nxt_in)))
                self.want[l2].add(("layer-mismatch-input", "previous", shown(nxt_in), shown(cur)))
            self.reveal[self.emit(f"reveal_type({res2})")] = (ends[0], ("cls", "A"))
            self.calls.append(("chain", 2, (bad,), "nested", l1, e2))

    def odd(self):
        """Uses the plugin cannot analyse: no report, no crash."""
        r = self.r
        k = r.randint(10)
        i, o = rand_type(r), rand_type(r)
        m, _, _ = self.declare(i, o)
        n = self.name("z")
        start = len(self.lines) + 1
        if k == 0:
            self.emit(f"{n}_l: List[Model] = [{m}, {m}]")
            self.emit(f"{n} = chain(*{n}_l)")
        elif k == 1:
            self.emit(f"{n} = [chain, add][0]({m}, {m})")
        elif k == 2:
            self.emit(f"class S_{n}(Model[A, D]): ...")
            self.emit(f"{n}_s: S_{n}")
            self.emit(f"{n} = chain({n}_s, {n}_s)")
        elif k == 3:
            self.emit(f"{n}_u: Union[Model[A, B], Model[D, D]]")
            self.emit(f"{n} = chain({n}_u, {n}_u)")
        elif k == 4:
            self.emit(f"def u_{n}(*layers):")
            self.emit("    return layers[0]")
            self.emit(f"{n} = u_{n}({m}, {m})")
        elif k == 5:
            self.emit(f"{n}_t: Any = 1")
            self.emit(f"{n} = chain({n}_t, {m})")
        elif k == 6:
            self.emit(f"class H_{n}:")
            self.emit("    @staticmethod")
            self.emit(f"    def join(a: Model[_In, Any], b: Model) -> Model[_In, XY_YZ_OutT]: ...")
            self.emit(f"{n} = H_{n}.join({m}, {m})")
        elif k == 7:
            self.emit(f"{n} = my_plain({m}, {m})")
        elif k == 8:
            self.emit(f"{n} = chain({m})")
        else:
            self.emit(f"{n} = len([{m}]) + max(1, 2)")
        for ln in range(start, len(self.lines) + 1):
            self.want[ln]
        self.calls.append((f"odd{k}", 0, (), "odd", start, len(self.lines)))


LINE = re.compile(r"^prog\.py:(\d+): (error|note|warning): (.*)$")


def run_mypy(src, plugin=True):
    tmp = tempfile.mkdtemp(prefix="verif-p31-")
    try:
        with open(os.path.join(tmp, "prog.py"), "w") as f:
            f.write(src)
        with open(os.path.join(tmp, "m.ini"), "w") as f:
            f.write("[mypy]\n" + ("plugins = thinc.mypy\n" if plugin else "") + "follow_imports = silent\nstrict_optional = True\n[mypy-torch.*]\nfollow_imports = skip\n")
        env = dict(os.environ, PYTHONPATH=str(REPO), MYPYPATH=str(REPO))
        p = subprocess.run([sys.executable, "-m", "mypy", "prog.py", "--config-file", "m.ini", "--cache-dir", os.devnull, "--show-error-codes"],
                           cwd=tmp, env=env, capture_output=True, text=True, timeout=500)
        return p.returncode, p.stdout, p.stderr
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def plain(s):
    """Type texts without module names."""
    s = re.sub(r"\b(?:[A-Za-z_]\w*\.)+([A-Za-z_]\w*)", r"\1", s)
    return s.replace("typing.", "").replace("List[", "list[").replace("tuple[", "Tuple[")


def groups(msg):
    """The top-level parenthesised parts of a message."""
    out, depth, cur = [], 0, ""
    for c in msg:
        if c == "(":
            depth += 1
            if depth == 1:
                cur = ""
                continue
        if c == ")":
            depth -= 1
            if depth == 0:
                out.append(plain(cur))
                continue
        if depth:
            cur += c
    return out


@group(3, 24, min_obs=200)
def calls(ctx, rng):
    prog = Program(rng)
    for _ in range(130):
        prog.one(str(rng.choice(["module", "module", "module", "keywords", "function", "method", "comprehension"])))
        if rng.rand() < 0.25:
            prog.odd()
    ctx.describe("program", calls=len(prog.calls), lines=len(prog.lines))
    rc, out, err = run_mypy("\n".join(prog.lines) + "\n")
    if not ctx.check(rc in (0, 1) and "INTERNAL ERROR" not in out + err and "Traceback" not in err, "plugin:crash", f"mypy ends with {rc}: {(err or out)[-400:]}"):
        return
    got = collections.defaultdict(set)
    revealed = {}
    for line in out.splitlines():
        m = LINE.match(line)
        if not m:
            continue
        ln, kind, msg = int(m[1]), m[2], m[3]
        code = re.search(r"\[([a-z-]+)\]$", msg)
        if code and code[1] in CODES:
            body = msg[: code.start()].strip()
            got[ln].add((code[1], "previous" if "previous" in body else "next" if "next" in body else "?", *groups(body)[:2]))
        elif msg.startswith("Revealed type is"):
            revealed[ln] = plain(msg.split('"', 1)[1].rsplit('"', 1)[0])
    ctx.note("plugin_reports", sum(map(len, got.values())))
    ctx.check(prog.calls and sum(map(len, prog.want.values())) > 0, "workload:empty", "no misfits generated")
    for fn, k, miss, style, a, b in prog.calls:
        ctx.sig(fn, k, miss, style)
        src = " ".join(q.strip() for q in prog.lines[a - 2 : b])
        for ln in range(a - 1, b + 1):
            want = prog.want.get(ln, set())
            have = got.get(ln, set())
            lost = {w[:2] for w in want} - {h[:2] for h in have}
            extra = {h[:2] for h in have} - {w[:2] for w in want}
            kind = "parallel" if fn in ("add", "concatenate", "my_parallel") else "odd" if style == "odd" else "chain"
            decl = [q for q in prog.lines if any(q.startswith(t.strip(" ,") + ":") for t in re.findall(r"\bm\d+", src))]
            ctx.check(not lost, f"missed:{kind}", f"{sorted(lost)} not reported for `{prog.lines[ln - 1].strip()}` in `{src}`; {decl}")
            ctx.check(not extra, f"false-report:{kind}", f"{sorted(extra)} reported for `{prog.lines[ln - 1].strip()}` in `{src}`; {decl}")
            for h in have:
                match = [w for w in want if w[:2] == h[:2]]
                if match and len(h) == 4:
                    ctx.check(h[2:] == match[0][2:], f"types-named:{kind}", f"{h} want {match[0]}")
    for ln, (i, o) in prog.reveal.items():
        want = f"Model[{shown(i)}, {shown(o)}]"
        if ln in revealed:
            ctx.check(revealed[ln] == want, "combined-type", f"{revealed[ln]} want {want}: `{' '.join(prog.lines[max(0, ln - 9) : ln])}`")
        else:
            ctx.skip("type not revealed")
