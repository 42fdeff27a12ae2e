"""C04-C17: registries, executions and results (CoilExec): histories generated by TLC from the specification's state
graph and by seeded random search, run on the code, and followed by T_Exec."""
import json, os, re
from vlib import *
from records import drive_histories
import convfam

# parameter types of the driver's shapes, whether they take a context, and the result types
SHAPES = {0: (True, [], "void"), 1: (True, ["int"], "int"), 2: (False, ["int"], "void"), 3: (True, ["string", "int"], "string"),
          4: (True, ["value"], "value"), 5: (True, ["vec.int", "opt.int"], "vec.int"), 6: (False, [], "int"),
          7: (True, ["bool", "double", "sview"], "bool"), 8: (True, ["color", "point"], "color"), 9: (False, ["int", "int"], "int"),
          10: (True, ["int"] * 3, "void"), 11: (True, ["stdstr", "stdstr", "stdview", "string"], "stdstr"), 12: (True, ["int"] * 5, "void"),
          13: (True, ["opt.string", "vec.sview"], "opt.string"), 14: (True, ["value"], "ptr.int"), 15: (True, [], "cstr"),
          16: (False, ["point", "vec.color"], "point"), 17: (True, ["uchar", "llong", "ushort"], "uchar"), 18: (False, ["string"], "string"),
          19: (True, ["value", "int"], "value"), 20: (True, ["bomb"], "bomb"), 21: (True, ["vec.bomb", "value"], "opt.bomb"),
          22: (True, ["stdview", "stdview"], "stdview"), 23: (True, ["sview", "sview"], "sview"),
          24: (True, ["int"] * 12, "int"), 25: (False, ["int", "string", "bool", "int", "string", "int", "string", "bool", "int", "int", "string", "int", "int", "int", "bool"], "string"),
          26: (True, ["string", "vec.int"], "opt.int")}
KINDS = ["L", "L", "L", "M", "M", "F0", "F1", "O0", "O1", "C0", "C1", "U", "U", "N0", "N1", "P0", "P1", "X0", "X1", "S0", "S1"]
BOMBS = [b"!boom", b"?", b"!", b"?odd", b"!a b", b"!%s", b"!a\x00b"]
CELLTYPE = {1: "int", 2: "int", 3: "string", 4: "vec.int", 5: "int", 6: "color", 7: "int", 8: "int", 9: "string", 10: "int", 11: "bool",
            12: "opt.int", 13: "double", 14: "point", 15: "vec.string", 16: "opt.string", 17: "stdstr", 18: "llong", 19: "bomb"}
VARS = ["v%d" % c for c in (1, 2, 3, 4, 5, 6, 11, 12, 13, 14, 15, 16, 17, 18, 19)]
PROPS = ["p10", "r10", "s10", "x10", "g7", "g8", "q7", "q8", "q9", "Q7", "Q8", "Q9", "f7", "f8", "F7", "F8"]
COLLIDING = [b"abab", b"abbA", b"bAab", b"bAbA", b"ab", b"bA"]     # equal djb2 hashes within each group
NULS = [b"k\0ab", b"k\0bA", b"k", b"k\0", b"ab\0c", b"bA\0c", b"\0ab", b"\0bA"]    # the same, after or before a NUL
NAMES = COLLIDING + NULS + [b"a", b"A", b"Ab", b"aB", b"cmd", b"Cmd", b"cmd.x", b"set_value", b"x" * 70, b"na me", b"n=1", b"(x)", b"\xc3\xa9t\xc3\xa9", b"0", b"ab\x00", b"ab\x00d", b""]
KEYS = [b"a", b"b", b"key", b"Key", b"a", b"k y", b"ke", b"", b"a\x00b", b"a\x00c"]
SAFE = [b"1", b"1.0000001", b"1.000001", b"-2.25", b"2.2500001", b"0.1", b"0.10000001", b"1000001", b"1000002", b"0"]    # %g rounds them the same way in binary
SAME = [b"a", b"b", b"a, b", b"", b"a, b, a", b", "]    # texts of lists of these coincide
LONG = re.compile(rb"[0-9.]{7}|inf|nan|0x|e[+-]?[0-9]{2}|\.[0-9]*\.", re.I)
PLAIN = re.compile(rb"^[A-Za-z0-9_.+\-\x80-\xff]+$")


def quote(rng, s):
    if PLAIN.match(s) and rng.random() < .8:
        return s
    for q in rng.sample([b"'", b'"'], 2):
        if q not in s and (q == b"'" and b'"' not in s or q == b'"' and b"'" not in s):
            return q + s + q
    return None


class Gen:
    """Writes one history as a program of the driver.  Its picture of the registries only steers the choices."""

    def __init__(self, rng, w):
        self.rng, self.w = rng, w
        self.faulty = w.get("faults", False) and rng.random() < .3      # sometimes memory runs out while something is bound
        self.out = []
        self.regs = {0: {}, 1: {}}     # slot -> name -> list of parameter type lists (None: not a user's callable)
        self.depth, self.deepest = 0, rng.choice([4, 4, 4, 9])
        self.busy = []
        self.running = []
        self.floats = rng.random() < .2     # floating-point numbers only in histories without long numbers
        self.names = rng.sample(NAMES, rng.randint(2, 6)) if rng.random() < .8 else list(NAMES)
        if rng.random() < .4:
            self.names = rng.sample(rng.choice([COLLIDING, NULS]), rng.randint(3, 6))
        if w.get("many"):
            self.names += [b"n%d" % rng.randrange(400) for _ in range(rng.choice([5, 20, 60]))]

    def op(self, *f):
        self.out.append(" ".join(f))

    def hex(self, b):
        return b.hex() or "-"

    def reg(self, live=True):
        c = [r for r in range(4) if (r in self.regs) == live]
        if not c:
            return None
        return self.rng.choice(c) if self.rng.random() < self.w.get("spread", .4) else c[0]

    def name(self):
        return self.rng.choice(self.names)

    def named_as(self, n):
        """A name, sometimes given by the registry itself."""
        return ("@" if self.rng.random() < .15 else "") + self.hex(n)

    def key(self):
        k = self.rng.random()
        return self.rng.choice(self.names) if k < .15 else self.running[-1] if k < .25 and self.running else self.rng.choice(KEYS)

    def overload(self):
        rng = self.rng
        k = rng.random()
        if k < self.w.get("vars", .05):
            v = rng.choice(self.w.get("varlist", VARS))
            if v == "v13" and not self.floats:
                v = "v1"
            return v, [([], False, None), ([CELLTYPE[int(v[1:])]], False, None)]
        if k < self.w.get("vars", .05) + self.w.get("props", .05):
            p = rng.choice(PROPS)
            return p, [([], False, None), ([CELLTYPE[int(p[1:])]], False, None)]
        n = rng.choice(self.w["shapes"]) if "shapes" in self.w and rng.random() < .85 else rng.randrange(27)
        if n == 7 and not self.floats:
            n = 1
        ctx, ps, rt = SHAPES[n]
        return "%d%s" % (n, rng.choice(self.w.get("kinds", KINDS))), [(ps, ctx, rt)]

    def overloads(self):
        n = self.rng.choice(self.w.get("lens", [1, 1, 1, 1, 2, 2, 3, 4, 0]))
        got = [self.overload() for _ in range(n)]
        return [o for o, _ in got], [d for _, ds in got for d in ds]

    def subs(self, t, goodness):
        if t == "double" and self.rng.random() < .5:
            return [self.rng.choice(SAFE)]
        if t in ("vec.string", "opt.string") and self.rng.random() < .8:
            return [self.rng.choice(SAME) for _ in range(self.rng.choice([1, 1, 2, 2, 3]) if t[0] == "v" else 1)]
        while True:
            v = self.subs_(t, goodness)
            if not self.floats or not any(LONG.search(s) for s in v):
                return v

    def subs_(self, t, goodness):
        rng = self.rng
        leaf = t.split(".")[-1]
        if leaf == "bomb":
            pick = lambda: rng.choice(BOMBS) if rng.random() < self.w.get("bombs", .15) else rng.choice([b"fuse", b"", b"x", b"a!", b"a?b", b" !", b"!"[:0] + b"0"])
            return [pick() for _ in range(rng.choice([1, 2, 3, 0]) if t[0] == "v" else 1 if rng.random() < max(goodness, .9) else 2)]
        if rng.random() < goodness:
            n = 1 if "." not in t and t != "value" else rng.choice([1, 1, 2, 3, 0])
            if t.startswith("opt"):
                n = rng.choice([1, 1, 0])
            return [convfam.good(rng, leaf) for _ in range(n)] or [b""]
        k = rng.random()
        if k < .3:
            return [convfam.good(rng, leaf) for _ in range(rng.choice([2, 3]))]
        if leaf == "double":
            return [rng.choice([b"x", b"", b"1.5x", b"1,5", b"--1", b"."])]
        return convfam.compound(rng, t) if "." in t else [convfam.one(rng, leaf)]

    def value_text(self, subs):
        rng = self.rng
        parts = [quote(rng, s) for s in subs]
        if any(p is None for p in parts):
            return None
        if len(parts) == 1 and rng.random() < .8:
            return parts[0]
        if any(not PLAIN.match(p) for p in parts) or rng.random() < .5:
            return b"(" + rng.choice([b", ", b",", b" ; "]).join(parts) + b")"
        return b",".join(parts) if parts else b"()"

    def execute(self):
        rng = self.rng
        r = self.reg()
        name = self.name()
        bound = self.regs[r]
        if bound and rng.random() < self.w.get("hit", .85):
            name = rng.choice(list(bound))
        elif bound and rng.random() < .5:    # almost a name that is bound
            n = rng.choice(list(bound))
            name = rng.choice([b"x." + n, n + b".x", n + b" ", b" " + n, n[1:], n[:-1], n + n, n.swapcase(), n + b"\0", b"\0" + n, n.replace(b".", b"_"), b"/" + n, b"-" + n, b"::" + n,
                               n + b"()", n + b"?", n + b"!", n.strip(), n[::-1], n + b"\n", b"a." + n])
        ds = bound.get(name, [])
        d = rng.choice(ds) if ds else None
        args = []
        self.running.append(name)
        if d:
            good = self.w.get("good", .93) if len(d[0]) < 7 or rng.random() < .4 else rng.choice([.97, 1])
            args = [self.subs(t, good) for t in d[0]]
        if not d or rng.random() < self.w.get("miscount", .08):
            args = [self.subs("int", .8) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 11, 12, 15]))]
        named = []
        while rng.random() < self.w.get("named", .15):
            named.append((self.key(), self.subs(rng.choice(["int", "string", "bool", "vec.int", "opt.int", "color", "value"]), .75)))
        text = None
        if rng.random() < .7:
            parts = [quote(rng, name)] + [self.value_text(a) for a in args]
            for k, v in named:
                q, t = quote(rng, k), self.value_text(v)
                parts.insert(rng.randint(1, len(parts)), None if q is None or t is None else q + b"=" + t)
            if None not in parts:
                text = b" ".join(parts)
                if rng.random() < self.w.get("garble", .03):
                    i = rng.randrange(len(text) + 1)
                    text = text[:i] + rng.choice([b"(", b"=", b"'", b" ", b",", b")"]) + text[i:]
        if text is not None:
            self.op("x", str(r), self.hex(text))
        else:
            lst = lambda v: ",".join(self.hex(s) for s in v) or "="
            self.op("i", str(r), self.hex(name), "/".join(lst(a) for a in args) or "_",
                    "/".join(self.hex(k) + ":" + lst(v) for k, v in named) or "_")
        enters = d is not None and d[2] is not None and len(args) == len(d[0])
        if enters or rng.random() < .03:
            self.body(d if d else ([], True, "void"), r)
        self.running.pop()

    def body(self, d, r):
        rng = self.rng
        self.depth += 1
        self.busy.append(r)
        n = 0
        while rng.random() < self.w.get("busy", .5) and n < 8:
            n += 1
            if d[1] and rng.random() < self.w.get("talk", .6):
                self.talk()
            elif self.depth < self.deepest:
                self.step(inner=True)
        self.busy.pop()
        self.depth -= 1
        if rng.random() < self.w.get("throw", .04):
            self.op("t", rng.choice(["std", "derived", "int", "foreign"]), self.hex(rng.choice([b"", b"boom", b"x y", b"\xff%s", b"a\x00b"])))
        elif d[2] in ("ptr.int", "cstr") and rng.random() < .3:
            self.op("rn")
        else:
            rt = d[2] or "void"
            if rt == "cstr":
                subs = [convfam.str_text(rng).replace(b"\0", b"")]
            else:
                leaf = rt.split(".")[-1]
                n = 1 if "." not in rt and rt != "value" else rng.choice([0, 1, 2, 3])
                if rt.startswith(("opt", "ptr")):
                    n = min(n, 1)
                if rt == "ptr.int":
                    n = 1
                subs = self.subs("bomb", 1) * n if leaf == "bomb" else [convfam.good(rng, leaf) for _ in range(n)] if rt not in ("void",) else []
                if rt == "point":
                    subs = [b"3", b"4"]
            self.op("r", ",".join(self.hex(s) for s in subs) or "_")

    def talk(self):
        rng = self.rng
        k = rng.choice(self.w.get("talks", "lllleeqnkE"))
        if k == "l":
            s = rng.choice([b"", b"hi", b"\n", b"a b", convfam.str_text(rng), b"%d%s", b"long " * 30])
            kind = rng.choice(["log", "line", "logf", "linef", "fmt", "linefmt"])
            self.op("l", kind, self.hex(s.replace(b"\0", b"") if kind.endswith(("f", "fmt")) and rng.random() < .8 else s))
        elif k == "e":
            self.op("e", ",".join(self.hex(rng.choice([b"", b"bad", b"worse\n", b"a\x00b"])) for _ in range(rng.choice([1, 1, 1, 2, 3]))))
        elif k == "q" or k == "E":
            self.op(k)
        elif k == "n":
            self.op("n", self.hex(self.key()), rng.choice(["int", "bool", "string", "color", "point", "vec.int", "opt.int", "value"]))
        else:
            t = rng.choice(["int", "bool", "string", "color", "vec.int", "opt.int", "value"])
            leaf = t.split(".")[-1]
            self.op("k", self.hex(self.key()), t, rng.choice("01"), rng.choice(["_", self.hex(convfam.good(rng, leaf))]) if t != "value" else "_")

    def step(self, inner=False):
        rng = self.rng
        k = rng.choices(list(self.w["ops"]), list(self.w["ops"].values()))[0]
        r = self.reg()
        if k == "bind":
            os_, ds = self.overloads()
            n = self.name()
            if rng.random() < .1:
                self.op("w", str(r), self.hex(n), *os_)
            else:
                if self.faulty and rng.random() < .3:
                    self.op("A", str(rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8])))
                self.op("b", str(r), self.named_as(n), rng.choice("pap"), *os_)
            self.regs[r][n] = ds
        elif k == "unbind":
            n = self.name()
            if self.regs[r] and rng.random() < .7:
                n = rng.choice(list(self.regs[r]))
            self.op(rng.choice("uU"), str(r), self.named_as(n))
            self.regs[r].pop(n, None)
        elif k == "clear":
            self.op("c", str(r))
            self.regs[r] = {}
        elif k == "get":
            self.op("g", str(r), self.named_as(self.name()))
        elif k == "drop":
            self.op("d", *(self.overloads()[0] or ["0L"]))
        elif k == "new":
            n = self.reg(live=False)
            if n is not None:
                self.op("N", str(n))
                self.regs[n] = {}
        elif k == "delete":
            if len(self.regs) > 1 and r not in self.busy:
                self.op("D", str(r))
                del self.regs[r]
        elif k == "move":
            d = rng.randrange(4)
            if d == r or r in self.busy or d in self.busy:
                return
            if d in self.regs:
                self.op("M", str(d), str(r), *[self.hex(x) for x in dict.fromkeys(self.names[:6] + list(self.regs[d])[:6])])
            else:
                self.op("m", str(d), str(r))
            self.regs[d] = self.regs[r]
            self.regs[r] = {}
        elif k == "lexer":
            self.op("L", str(r), rng.choice(["default", "custom", "whole", "fail"] if rng.random() < .3 else ["default", "default", "custom"]))
        elif k == "poke":
            c = rng.choice([int(v[1:]) for v in self.w.get("varlist", VARS)] + [7, 8, 9, 10])
            t = CELLTYPE[c]
            subs = [b"3", b"4"] if t == "point" else self.subs(t, 1)
            self.op("s", str(c), ",".join(self.hex(s) for s in subs))
        elif k == "exec":
            self.execute()
        if rng.random() < self.w.get("recall", .05):
            self.op("R", rng.choice("00123"))

    def history(self):
        steps = self.rng.choice(self.w.get("steps", [6, 10, 15, 20, 30]))
        while steps > 0 and len(self.out) < self.w.get("max", 90):
            self.step()
            steps -= 1
        return ";".join(self.out)


def swept(prop):
    """Texts of every length and words of all kinds, everywhere the property lets one through: histories of a dozen texts each."""
    h = lambda b: b.hex() or "-"

    def some(x):
        n = len(x)
        return {
            "C05": ["b 0 %s p 6L" % h(x), "g 0 %s" % h(x), "i 0 %s _ _" % h(x), "r 2d31", "u 0 %s" % h(x), "i 0 %s _ _" % h(x), "g 0 %s" % h(x)],
            "C06": ["b 0 %s a 3L 1L" % h(x), "g 0 %s" % h(x), "u 0 %s" % h(x)],
            "C07": ["b 0 %s p 6L" % h(x), "m 2 0", "g 2 %s" % h(x), "g 0 %s" % h(x), "M 0 2 %s" % h(x), "D 2", "g 0 %s" % h(x)],
            "C10": ["b 0 %s p 1L 10L" % h(x), "i 0 %s _ _" % h(x), "u 0 %s" % h(x)],
            "C11": ["i 0 66 %s _" % h(x), "i 0 67 78/%s _" % h(b"1" * n), "i 0 67 %s/%s _" % (h(x), h(x)), "i 0 68 %s/31 _" % ",".join(["31", h(x)] + ["32"] * (n % 7))],
            "C12": ["i 0 73 %s/%s _" % (h(x), "31"), "r %s" % h(x[:3]), "i 0 74 %s _" % h(b"'" + x), "r 61"],
            "C13": ["i 0 76 _ _", "l log %s" % h(x), "l line %s" % h(x), "l logf %s" % h(x), "l linef %s" % h(x), "r _",
                    "i 0 76 _ _", "e %s" % h(x), "q", "r _", "i 0 74 78 _", "r %s" % h(x)],
            "C14": ["i 0 76 _ _", "l log %s" % h(x), "t std %s" % h(x), "i 0 76 _ _", "t derived %s" % h(x), "i 0 76 _ _", "e %s" % h(x), "t foreign 78", "i 0 76 _ _", "r _"],
            "C15": ["i 0 76 _ %s:%s/6b:%s" % (h(x), "31", h(x + b"y")), "n %s int" % h(x), "n %s int" % h(x + b"z"), "k %s int 1 _" % h(x + b"z"), "n 6b int", "k 6b int 0 _",
                    "k 6b string 1 _", "n %s bool" % h(x[1:]), "E", "r _"],
            "C09": ["i 0 76 %s/31 _" % h(x), "i 0 76 %s/32 _" % h(x + b"y"), "r %s" % h(x), "l log %s" % h(x), "i 0 77 %s _" % h(x), "r _", "r %s" % h(x)],
            "C08": ["b 0 %s p 6L" % h(x), "b 0 %s p 6M" % h(x), "u 0 %s" % h(x)],
            "C16": ["i 0 61 %s _" % h(x), "i 0 61 _ _", "i 0 62 %s _" % h(x), "i 0 62 _ _", "i 0 63 %s _" % h(x)],
            "C17": ["i 0 61 %s _" % h(x), "i 0 61 _ _", "i 0 62 %s _" % h(x), "i 0 63 %s _" % h(x)],
        }.get(prop)

    pre = {"C11": ["b 0 66 p 1L", "b 0 67 p 9L", "b 0 68 p 5L"], "C12": ["b 0 73 p 3L", "b 0 74 p 18M"], "C13": ["b 0 76 p 0L", "b 0 74 p 18L"], "C14": ["b 0 76 p 0L"],
           "C15": ["b 0 76 p 0L"], "C09": ["b 0 76 p 3L", "b 0 77 p 2L"], "C16": ["b 0 61 p v3", "b 0 62 p v1", "b 0 63 p v5"], "C17": ["b 0 61 p q9", "b 0 62 p p10", "b 0 63 p r10"]}.get(prop, [])
    if not some(b""):
        return []
    group = 12
    texts = [b"x" * n for n in LENGTHS] + DICTIONARY
    return [";".join(pre + [op for x in texts[i:i + group] for op in some(x)]) for i in range(0, len(texts), group)]


def soaked(rng, prop, n):
    """A few operations repeated many times on the same registries."""
    out = []
    while len(out) < n:
        w = dict(PROFILES[prop], steps=[rng.choice([2, 3, 5])], max=12)
        g = Gen(rng, w)
        for _ in range(rng.choice([1, 3])):
            g.step()
        start = len(g.out)
        for _ in range(w["steps"][0]):
            g.step()
        cycle = g.out[start:]
        if any(o[0] in "bxi" for o in cycle):
            out.append(";".join(g.out[:start] + cycle * (300 // len(cycle))))
    return out


def counted(rng, prop):
    """Any number of everything: names, overloads, arguments, errors, nested executions."""
    h = lambda b: b.hex() or "-"
    num = lambda i: h(b"%d" % i)
    out = []

    def crowd(n):
        """A registry that grows to n names and shrinks to none again, looked at meanwhile."""
        ids = ["%s" % h(b"n%d" % i) for i in range(n)]
        back = rng.sample(ids, n)
        ops = []
        look = lambda x: [rng.choice(["g 0 " + x, "i 0 %s _ _" % x])]
        ret = lambda o: o + ["r 31"] if o[0][0] == "i" else o
        gone = set()
        for i, x in enumerate(ids):
            ops.append("b 0 %s p 6L" % x)
            if rng.random() < .15:
                ops += ret(look(rng.choice(ids[:i + 1])))
        for x in back:
            ops.append("u 0 " + x)
            gone.add(x)
            if rng.random() < .15:
                ops += (lambda y: ret(look(y)) if y not in gone else look(y))(rng.choice(ids))
        return ops

    for n in COUNTS + MANY:
        if prop in ("C05", "C07", "C08") and n in (66, 130, 257, 300, 600):
            out.append(crowd(n))
        if prop == "C07" and n <= 301 and n % 3 == 0:
            ids = [h(b"n%d" % i) for i in range(n)]
            some = rng.sample(ids, min(n, 12))
            out.append(["b 0 %s p 6L" % x for x in ids] + ["m 2 0"] + ["g 2 " + x for x in some] + ["M 0 2 " + " ".join(some[:4])] + ["g 0 " + x for x in some] + ["D 2"] + [o for x in some for o in ("i 0 %s _ _" % x, "r 31")])
        if n > 301:
            continue
        many = ["6L"] * n
        mixed = [rng.choice(["6L", "2L", "9L", "1L", "10L", "12L", "3L", "v1", "p10"]) for _ in range(n)]
        call = lambda name, k: ["i 0 %s %s _" % (name, "/".join(["31"] * k) or "_"), "r 31"]
        if prop == "C06":
            out.append(["b 0 61 a %s" % " ".join(mixed), "g 0 61", "b 0 62 p %s" % " ".join(many), "g 0 62", "u 0 62", "g 0 61"])
        if prop == "C08":
            out.append(["b 0 61 p %s" % " ".join(many), "b 0 61 p %s" % " ".join(many[::2]), "d %s" % " ".join(many), "u 0 61"])
        if prop == "C10":
            out.append(["b 0 61 p %s" % " ".join(mixed), "b 0 62 p %s" % " ".join(many)] + [o for k in (0, 1, 2, 3, 5) for o in call("61", k)] + call("62", 1) + call("62", 0)
                       + ["i 0 62 %s _" % ("/".join(["31"] * n) or "_"), "r 31", "b 0 63 p 12L", "i 0 63 %s _" % ("/".join(["31"] * n) or "_"), "r _", "i 0 63 31/31/31/31/31 %s" % ("/".join(["6b:31"] * n) or "_"), "r _"])
        if prop == "C11":
            for bad in {0, n - 1, rng.randrange(n)} if n else set():
                v = ",".join("78" if i == bad else "31" for i in range(n))
                out.append(["b 0 61 p 5L", "i 0 61 %s/78 _" % v, "i 0 61 %s/31 _" % v])
            out.append(["b 0 62 p 9L", "i 0 62 78/%s _" % (",".join(["31"] * n) or "=")])
        if prop == "C12":
            v = ",".join(num(i) for i in range(n)) or "="
            out.append(["b 0 61 p 5L", "i 0 61 %s/31 _" % v, "r 31", "b 0 62 p 13L", "i 0 62 61/%s _" % v, "r 61", "b 0 63 p 19L", "i 0 63 %s/31 _" % v, "r 61,62"])
        if prop == "C13":
            out.append(["b 0 61 p 0L", "i 0 61 _ _"] + ["l %s %s" % (rng.choice(["log", "line", "logf", "linef"]), num(i)) for i in range(n)] + ["r _", "i 0 61 _ _"] + ["e %s" % num(i) for i in range(n)] + ["q", "r _", "R 1",
                        "i 0 61 _ _", "e %s" % (",".join(num(i) for i in range(n)) or "78"), "l log 78", "r _", "R 0", "R 2"])
        if prop == "C15":
            named = "/".join("%s:%s" % (h(b"k%d" % i), num(i)) for i in range(n)) or "_"
            some = {0, n - 1, n} | {rng.randrange(n + 1) for _ in range(3)}
            out.append(["b 0 61 p 0L", "i 0 61 _ %s" % named, "E"] + [o for i in some if i >= 0 for o in ("n %s int" % h(b"k%d" % i), "k %s int 1 _" % h(b"k%d" % i))] + ["E", "r _"])
        if prop in ("C09", "C13", "C14"):
            deep = ["b 0 61 p 0L 1L", "b 0 62 p 6L"]
            for i in range(n):
                deep += ["i 0 61 _ _" if prop != "C09" or rng.random() < .8 else "i 0 61 31 _", "l log %s" % num(i)] + (["e 78"] if rng.random() < .1 else []) + (["i 0 62 _ _", "r 31"] if rng.random() < .1 else [])
            if prop == "C09":
                deep += [rng.choice(["u 0 61", "b 0 61 p 2L", "c 0"])]
            deep += ["t %s 78" % rng.choice(["std", "int"])] if prop == "C14" else []
            deep += ["r _", "l log 79"] * n
            out.append(deep)
        if prop in ("C16", "C17"):
            v = ",".join(num(i) for i in range(n)) or "="
            out.append(["b 0 61 p v4", "b 0 62 p v15", "i 0 61 %s _" % v, "i 0 61 _ _", "i 0 62 %s _" % v, "i 0 62 _ _", "s 4 %s" % v.replace("=", "_"), "i 0 61 _ _"] if prop == "C16" else
                       ["b 0 61 p p10", "b 0 62 p q7"] + [o for i in range(n) for o in ["i 0 %s %s _" % (rng.choice(["61", "62"]), num(i))]] + ["i 0 61 _ _", "i 0 62 _ _"])
            if prop == "C16":
                out.append(["b 0 %s p %s" % (h(b"n%d" % i), rng.choice(["v1", "v1", "v2"])) for i in range(n)] + [o for i in rng.sample(range(n), min(n, 8)) for o in ("i 0 %s %s _" % (h(b"n%d" % i), num(i)), "i 0 %s _ _" % h(b"n%d" % ((i * 7) % n)))])
    if prop in ("C05", "C07", "C08"):
        # memory runs out at every point of binding, in registries of several sizes
        for n in (0, 1, 2, 3, 4, 8) if prop != "C08" else (0, 1, 3):
            for k in range(1, 13):
                api = rng.choice("pa")
                some = [h(b"n%d" % i) for i in range(n)]
                bind = ["b 0 %s p 6L" % x for x in some]
                look = [o for x in some[:2] + [h(b"new name, longer than most of them are"), "62"] for o in ("g 0 " + x, "i 0 %s _ _" % x, "r 31")]
                over = rng.choice(["6M", "0L", "2L 1M 6L", "v1", "6F0", "1S", "p10", "9L 10L"])
                out.append(bind + ["A %d" % k, "b 0 %s %s %s" % (h(b"new name, longer than most of them are"), api, over)] + look + ["A %d" % k, "b 0 62 %s 6M" % api] + look
                           + ["A %d" % k, "b 0 %s %s %s" % (some[0] if some else "62", api, over)] + look + ["u 0 62", "b 0 63 p 6L", "i 0 63 _ _", "r 32"] + (["m 2 0", "g 2 63", "g 0 63"] if prop == "C07" else []))
    return [";".join(o) for o in out if o]


OPS = dict(bind=4, unbind=1, clear=.2, get=.7, drop=.1, new=.2, delete=.1, move=.2, lexer=.1, poke=.3, exec=5)


def profile(**kw):
    ops = dict(OPS)
    ops.update(kw.pop("ops", {}))
    return dict(kw, ops=ops)


PROFILES = {
    "C04": profile(ops=dict(lexer=4, move=1.5, delete=.6, new=.8, exec=6), shapes=[6, 1, 3, 4], garble=.1),
    "C05": profile(faults=True, ops=dict(bind=6, unbind=4, clear=.3, get=5, exec=4, lexer=0, poke=0, move=0), shapes=[6, 6, 2], lens=[1, 1, 1, 1, 2, 0], busy=.1, many=True,
                   steps=[10, 30, 60, 80], hit=.5, max=150),
    "C06": profile(ops=dict(bind=6, unbind=2, get=6, exec=.3, move=.3), vars=.12, props=.15, lens=[0, 1, 1, 2, 3, 4, 6]),
    "C07": profile(faults=True, ops=dict(move=4, new=1.5, delete=1, bind=6, exec=5, get=2, lexer=1, unbind=1, clear=.4), spread=1, shapes=[6, 1, 0]),
    "C08": profile(faults=True, ops=dict(bind=7, unbind=3, clear=.8, drop=1.5, new=1, delete=1, move=1, exec=4, get=0), kinds=["L", "M", "L", "M", "F0"], spread=.7, shapes=[0, 1, 6], busy=.4, talk=.1,
                   lens=[1, 1, 2, 3, 5]),
    "C09": profile(faults=True, ops=dict(bind=5, unbind=3, clear=1, get=1, exec=7, move=.5, new=.4, delete=.4), busy=.75, talk=.25, shapes=[0, 1, 0, 3, 22, 23, 18], recall=.1, steps=[5, 8, 12], spread=.3),
    "C10": profile(lens=[0, 1, 2, 3, 4, 5], shapes=[0, 1, 2, 6, 9, 10, 12, 24, 25], miscount=.4, named=.25, good=.98, busy=.1),
    "C11": profile(ops=dict(bind=3, exec=9), shapes=[3, 5, 7, 8, 9, 10, 11, 12, 13, 16, 17, 24, 25, 26], good=.6, busy=.05, miscount=.02, lens=[1, 1, 1, 2]),
    "C12": profile(ops=dict(bind=4, exec=8), good=.99, busy=.05, miscount=0, lens=[1, 1, 1, 2]),
    "C13": profile(ops=dict(exec=9, bind=3), busy=.8, talk=.85, talks="lllllleeeq", steps=[5, 8, 12], shapes=[0, 1, 3, 4, 15, 13, 22], recall=.25),
    "C14": profile(ops=dict(exec=9, bind=3), busy=.5, talk=.6, talks="llleeq", throw=.6, steps=[6, 10, 15], shapes=[0, 1, 3, 6, 14, 20, 20, 21], vars=.1, props=.1, bombs=.4, varlist=["v1", "v3", "v19", "v19"]),
    "C15": profile(ops=dict(exec=9, bind=2), busy=.85, talk=.95, talks="nnnnkkkkkEq", named=.8, shapes=[0, 0, 1, 4], steps=[5, 8, 12], lens=[1, 1, 2]),
    "C16": profile(ops=dict(exec=9, bind=3, poke=3, unbind=.3), vars=.9, props=.02, varlist=VARS, good=.75, miscount=.12, busy=.2),
    "C17": profile(ops=dict(exec=9, bind=3, poke=3, unbind=.3), vars=.02, props=.9, good=.75, miscount=.12, busy=.2),
}


def follow(chk, hist, lines, env, tag, redo, block=60, module="T_Exec", driver="exec_driver", reports=(), full=None):
    """The trace specification on recorded histories; raises Violation for a confirmed rejection."""
    hist, lines = [h for h, l in zip(hist, lines) if l is not None], [l for l in lines if l is not None]
    d = os.path.join(chk.dir, "blocks-" + tag)
    os.makedirs(d, exist_ok=True)

    def judge(ls):
        n = 0
        for i in range(0, len(ls), block):
            n += 1
            with open(os.path.join(d, str(n)), "wb") as f:
                f.write(b"\n".join(ls[i:i + block]) + b"\n")
        return n, tlc(module, env=dict(env, VH_BLOCKS=d, VH_NBLOCKS=str(n)), heap="6g")

    n, r = judge(lines)
    events = sum(l.count(b'{"e":"') for l in lines)
    if r.ok:
        if r.distinct != 1 + n + len(lines) + events:
            raise CheckError("%s: TLC visited %d states for %d histories of %d events" % (tag, r.distinct, len(lines), events))
        kinds = {}
        for l in lines:
            for e in re.findall(rb'\{"e":"(\w+)"', l):
                kinds[e.decode()] = kinds.get(e.decode(), 0) + 1
        chk.observed(r, len(lines), {"what": tag, "module": module, "events": events, "by_kind": kinds})
        return
    last = r.trace[-1] if r.trace else {}
    m = re.search(r'<<"history", (\d+), (\d+)>>', last.get("at", ""))
    if not m:
        raise CheckError("%s: rejected without a position:\n%s" % (tag, r.out[-3000:]))
    i = (int(m.group(1)) - 1) * block + int(m.group(2)) - 1
    k = len(r.trace) - 3    # events followed
    # a rejection counts when a fresh run of the code repeats it: alone, or among the others
    program, again = hist[i], redo([hist[i]])
    n2, r2 = judge(again)
    if r2.ok:
        full = full or hist
        program = "\n".join(full)
        again = [redo(full)[full.index(hist[i])] or b'{"how":"ok","ev":[]}']
        n2, r2 = judge(again)
        if r2.ok and lines[i].startswith(b'{') and b'"how":"ok"' in lines[i]:
            # what was recorded did happen; only a crash or a hang may have a cause outside of the code
            again = [lines[i]]
            n2, r2 = judge(again)
        if r2.ok:
            raise CheckError("%s: history %d was rejected but is not repeatable: %s" % (tag, i, hist[i]))
    k = len(r2.trace) - 3
    what = describe(hist[i], again[0], k)
    replay = chk.save_replay(tag, {"history": program + "\n", "recording.json": again[0] + b"\n", "tlc.txt": r2.out,
                                   "README": "%s\nThe driver's program is in 'history' (notation: harness/%s.cpp), what the code did in 'recording.json';\n"
                                             "spec/%s.tla (%s) follows %d events of it and allows no further one.\n%s\n" % (what, driver, module, env, k, "\n".join(reports[-2:]))})
    raise Violation(replay, what)


def event_text(e):
    def f(v):
        if isinstance(v, list) and v and all(isinstance(x, int) for x in v):
            return "'%s'" % show_bytes(v) if max(v) < 256 and min(v) >= 0 and "all" not in e else str(v)
        if isinstance(v, list):
            return "[%s]" % ", ".join(f(x) for x in v)
        if isinstance(v, dict):
            return "{%s}" % ", ".join("%s: %s" % (k, f(x)) for k, x in v.items() if x not in ([], {}))
        return str(v)
    return e["e"] + " " + ", ".join("%s=%s" % (k, [*v] if k in ("dead", "mv", "lxdead") else f(v)) for k, v in e.items()
                                    if k not in ("e", "store") and v != [] and v != {} or k == "ret")


def describe(hist, rec, k):
    o = json.loads(rec)
    if o["how"] != "ok":
        return "history '%s': the library %s" % (hist[:300], "hangs" if o["how"] == "hang" else "crashes")
    if "th" in o:
        its = [iter(t) for t in o["th"]]
        ev = [dict(e, e="thread %d: %s" % (t, e["e"])) for t in o["order"] for e in [next(its[t - 1])]]
    else:
        ev = o["ev"]
    if k >= len(ev):
        return "history '%s': something was never destroyed" % hist[:300]
    return "event %d of %d is not allowed: %s; before it: %s" % (k + 1, len(ev), event_text(ev[k])[:700], " | ".join(event_text(e)[:160] for e in ev[max(0, k - 4):k]))


def model_histories(chk, model, limit):
    """Behaviours of the specification: an edge cover of its state graph."""
    r = chk.model_check("MC_Exec", env=dict(VH_MODEL=model, VH_CATCH="1", VH_DEEP="1" if THOROUGH else "0"), heap="6g")
    paths = [l[6:-1] for l in r.out.splitlines() if l.startswith('"PATH ')]
    whole = set(paths)
    for p in paths:
        whole.discard(p.rpartition(";")[0])
    whole = sorted(whole)
    chk.notes["model"] = {"transitions": len(paths), "maximal_programs": len(whole)}
    if len(whole) > limit:
        whole = chk.rng.sample(whole, limit)
    chk.notes["model"]["programs_replayed"] = len(whole)
    return whole


def check(chk, prop=None):
    prop = prop or chk.prop
    confs = ["san", "plain"] + (["sanx"] if prop == "C14" else []) + (["alias"] if prop in ("C06", "C11") or THOROUGH else [])
    exes = build_all([("exec_driver", c) for c in confs])
    hist = model_histories(chk, prop, 60000 if THOROUGH else 6000)
    nrand = 30000 if THOROUGH else 1500
    seen = set(hist)
    rnd = []
    while len(rnd) < nrand:
        h = Gen(chk.rng, PROFILES[prop]).history()
        if h and h not in seen:
            seen.add(h)
            rnd.append(h)
    hist += rnd
    sweep = swept(prop)
    hist += sweep
    chk.notes["texts_swept"] = len(LENGTHS) + len(DICTIONARY) if sweep else 0
    soak = soaked(chk.rng, prop, 80 if THOROUGH else 12)
    hist += soak
    crowds = counted(chk.rng, prop)
    hist += crowds
    chk.notes["random_histories"] = len(rnd)
    chk.notes["numbers_of_things"] = len(crowds)
    chk.notes["repeated_cycles"] = len(soak)

    def record(conf, hs):
        return drive_histories(exes[("exec_driver", conf)], hs, os.path.join(chk.dir, conf))

    base = None
    for conf in confs:
        c = CONFIGS[conf]
        env = dict(VH_CATCH="1" if c["exc"] else "0", VH_ALIAS="1" if c["alias"] else "0")
        # the same recordings under the same configuration need no second look
        hs = hist[::2] if conf in ("alias", "sanx") else hist
        lines = record(conf, hs)
        if conf == "san":
            base = dict(zip(hs, lines))
            sub = list(zip(hs, lines))
        elif conf == "plain":
            # without exceptions thrown the two configurations make the same recordings
            sub = [(h, l) for h, l in zip(hs, lines) if l != base[h] or (prop == "C14" and l and b'"e":"throw"' in l)]
            if prop == "C14":
                sub = sub[:len(sub) // 2] if not THOROUGH else sub
            chk.notes["plain_build"] = "%d of %d recordings equal those of the sanitized build" % (sum(l == base[h] for h, l in zip(hs, lines)), len(hs))
            if not sub:
                continue
        else:
            sub = list(zip(hs, lines))
        follow(chk, [h for h, _ in sub], [l for _, l in sub], env, conf, lambda h, conf=conf: record(conf, h), full=hs)
    for h in chk.rng.sample(rnd, 3):
        ev = json.loads(base[h])["ev"]
        chk.samples.append({"program": h[:400], "events": [event_text(e)[:200] for e in ev[:6]]})
    count = {}
    for l in base.values():
        for e in re.findall(rb'{"e":"(\w+)"', l):
            count[e.decode()] = count.get(e.decode(), 0) + 1
    chk.notes["events"] = count
