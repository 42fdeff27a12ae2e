"""Very large texts, lists, containers and registries (CoilBig), for every property they concern."""
import json, os, random
from vlib import *
from records import drive, check_records

EDGES = [32767, 32768, 65535, 65536, 65537, 70000, 131073]


class Programs:
    def __init__(self, rng):
        self.rng, self.lines = rng, []

    def sizes(self, k=2, always=(65537,)):
        return EDGES if THOROUGH else sorted(set(always) | set(self.rng.sample(EDGES, k)))

    def add(self, *fields):
        self.lines.append(" ".join(str(f) for f in fields))

    # command texts; cfg counts from 1
    def lex(self, pre, unit, suf=b"", cfg=1, **kw):
        for n in self.sizes(**kw):
            self.add("lex", cfg, hexs(pre), hexs(unit), n, hexs(suf))

    def conv(self, ty, pre, unit, suf=b"", roff=None, rper=None, eoff=None, eper=None, **kw):
        """One text of pre, n units, suf."""
        roff = len(pre) if roff is None else roff
        eoff = 19 + len(pre) if eoff is None else eoff
        for n in self.sizes(**kw):
            self.add("conv", ty, 0, hexs(pre), hexs(unit), n, hexs(suf), roff, rper or len(unit), eoff, eper or len(unit))

    def many(self, ty, pre, unit, suf=(), shown=None, **kw):
        """n subvalues, some before and some after them."""
        lst = lambda v: ",".join(hexs(x) for x in v) or "_"
        shown = unit if shown is None else shown      # (how a unit is rendered)
        head = lambda sep: sum(len(x) + sep for x in pre)
        value = ty == "value"       # rendered as "a b c", others as "[a, b, c]"
        for n in self.sizes(**kw):
            self.add("conv", ty, 1, lst(pre), hexs(unit), n, lst(suf), head(1) if value else 1 + head(2), len(shown) + (1 if value else 2), 19 + head(1), len(unit) + 1)

    def ops(self, kind, seqs):
        for head, ops in seqs:
            self.add(*([kind] + head + ["%s:%d:%d:%d:%d:%d" % o for o in ops]))


def op(o, d=1, s=1, x=0, lo=0, n=0):
    return (o, d, s, x, lo, n)


def sequences(p, text):
    """Histories of two vectors, or strings (whose operations take texts as well)."""
    rng, out = p.rng, []
    grow = ["push", "addt", "addz"] if text else ["push"]
    for n in p.sizes(1, (65535,)):
        for g in grow:
            out.append(([], [op(g, 1, x=97, n=n), op("copy", 2, 1), op(g, 1, x=98, n=1), op(g, 1, x=98, n=2), op("adds", 2, 1), op("pop", 1, n=3),
                             op("part", 2, 1, lo=n - 5, n=5), op("part", 2, 1, lo=1, n=n - 2), op("move", 1, 2), op("clear", 1)]))
        out.append(([], [op("reserve", 1, n=n + 1), op("push", 1, x=97, n=n), op("push", 1, x=99, n=2), op("resize", 1, n=5), op("resize", 1, n=n + 2), op("copy", 2, 1), op("push", 2, x=98, n=1)]))
        if text:
            out.append(([], [op("addt", 1, x=97, n=n), op("addt", 2, x=98, n=n), op("plus", 1, 2), op("adds", 1, 1), op("addp", 1, 1, lo=n - 1, n=3), op("addp", 2, 1, lo=2 * n - 1, n=n)]))
    for _ in range(30 if THOROUGH else 6):
        lens, ops = [0, 0], []
        for _ in range(8):
            o = rng.choice(grow + ["push", "adds", "pop", "resize", "reserve", "copy", "move", "part", "clear"] + (["addp", "plus"] if text else []))
            d = rng.choice([1, 2])
            s, x = 3 - d, rng.choice([97, 98, 200])
            n = rng.choice(EDGES + [1, 2, 3])
            lo = 0
            if o in ("push", "addt", "addz"):
                if lens[d - 1] + n > 300000:
                    continue
                lens[d - 1] += n
            elif o in ("adds", "plus"):
                if sum(lens) > 300000:
                    continue
                lens[d - 1] += lens[s - 1]
            elif o == "pop":
                n = min(n, lens[d - 1])
                lens[d - 1] -= n
            elif o == "resize":
                x = 0
                lens[d - 1] = n
            elif o == "copy":
                lens[d - 1] = lens[s - 1]
            elif o == "move":
                lens[d - 1], lens[s - 1] = lens[s - 1], 0
            elif o in ("part", "addp"):
                if lens[s - 1] == 0:
                    continue
                lo = rng.randrange(lens[s - 1])
                n = min(n, lens[s - 1] - lo)
                lens[d - 1] = n + (lens[d - 1] if o == "addp" else 0)
            elif o == "clear":
                lens[d - 1] = 0
            ops.append(op(o, d, s, x, lo, n))
        if ops:
            out.append(([], ops))
    return out


def tables(p, copies, heads, count=None):
    """Histories of two maps or registries."""
    rng, out = p.rng, []
    for n in (p.sizes(0, (70000,)) if not THOROUGH else EDGES)[:count]:
        second = op("copy", 2, 1) if copies else op("set", 2, x=3, lo=2, n=n - 2)
        out.append(([n] + heads, [op("set", 1, x=1, n=n), op("set", 1, x=2, lo=n // 2, n=n - n // 2), second, op("erase", 1, lo=n // 3, n=n // 2), op("set", 2, x=4, lo=n - 3, n=2),
                                  op("set", 1, x=5, lo=n // 3, n=3), op("move", 2, 1), op("set", 1, x=6, lo=0, n=4), op("clear", 2), op("set", 2, x=7, lo=n - 2, n=2)]))
    return out


def lexing(p, prop):
    kinds = {
        "C01": [(b"", b"a"), (b"f ", b"a"), (b"f", b" a"), (b"f", b" a=b"), (b"f a", b" ", b"b"), (b"", b" ", b"f a"), (b"f a", b" "), (b"f (", b"a ", b")"), (b"f a,", b"b,", b"b"), (b"f", b" (a b)"),
                (b"f ", b"k", b"=v"), (b"f k=", b"v"), (b"f k=(", b"v,", b")"), (b"f", b" k=(a b)", b" c d"), (b"f (", b",", b"a b)"), (b"f ab", b",", b"c d"), (b"f a k", b" ", b"= v"), (b"f k =", b"\t", b" v"),
                (b"'", b" ", b"' c"), (b"f", b"(a)")],
        "C02": [(b"f '", b"x", b"'"), (b"f '", b" ", b"' a"), (b'f "', b"=", b'"'), (b"f '", b"(", b"'"), (b"f '", b",", b"' b"), (b"f", b" 'a b'"), (b"f", b" ''"), (b"f (", b"'a b' ", b")"), (b"f ('", b",", b"' x)"),
                (b"f ('", b"a", b"')"), (b"f k='", b"=", b"' j=w"), (b"f '", b"\xff", b"'"), (b"f '", b"\0", b"'"), (b"f a,'", b";", b"' b"), (b"f a ", b"'b c' ", b"d"), (b"f (", b"'',", b"a)")],
        "C03": [(b"f '", b"x"), (b"f (", b"a "), (b"f", b" a=b", b" c="), (b"f", b" a", b" = ="), (b"f a", b" ", b"= "), (b"(", b"a", b") b"), (b"(", b",", b")"), (b"", b" "), (b"", b" ", b"= a"), (b"f", b" a=b", b" = c"),
                (b"f", b" a", b" '"), (b"f", b" (a b)", b" ("), (b"a,", b"b", b" c"), (b"f", b" a", b" = b = c"), (b"f", b" a=b", b" c == d")],
        "C10": [(b"f", b" a"), (b"f", b" (a b)", b" k=v"), (b"f", b" a,b")],
        "C12": [(b"f a ", b"b", b" c"), (b"f a k='", b" ", b"' b"), (b"f (", b"a ", b") b c d"), (b"f 'a' '", b"\0", b"'")],
        "C15": [(b"f ", b"k", b"=v"), (b"f", b" k=v"), (b"f k='", b"v", b"'")],
    }
    for k in kinds[prop]:
        p.lex(*k, k=1)


def custom_lexing(p):
    """Configurations 2..: (pre, unit, suf) in their own syntax; the delimiters themselves may be very many."""
    fill = b"\x01" * 65536
    cfgs = [dict(groups=b"()", quotes=b"'\"", seps=b",;|", spaces=b" \t\n\r"),
            dict(groups=b"[]", quotes=b"`", seps=b":", spaces=b"_"),
            dict(groups=fill + b"[]", quotes=b"\x02" * 70000 + b"`", seps=b"\x03" * 65537 + b":", spaces=b"\x04" * 131073 + b"_"),
            dict(groups=b"", quotes=b"", seps=b"", spaces=b" "),
            dict(groups=bytes(range(128, 192)), quotes=bytes(range(192, 256)), seps=bytes(range(33, 48)), spaces=bytes(range(0, 33)))]
    for c, t in ((2, (b"f[a_", b"b:", b"]_`c d`")), (2, (b"f_`", b"'", b"`_a")), (2, (b"f", b"_a=b")), (2, (b"f_", b" ", b"(b)")), (2, (b"f_[", b"a")),
                 (3, (b"f_[", b"b:", b"]_`c d`")), (3, (b"f_`", b",", b"`_a")), (3, (b"f", b"_a:b")), (3, (b"f", b"_a=`b`")), (3, (b"f_`", b":")), (3, (b"f\x04\x01", b"a\x03", b"\x01\x04\x02\x01\x02")),
                 (4, (b"f ", b"(", b"' b")), (4, (b"f", b" 'a")), (5, (b"f \x80", b"a!", b"\x81")), (5, (b"f\x01", b"a\x00\x1f", b"\xc0 !\xff"))):
        if c == 3:      # (every character is looked up among all of them)
            p.add("lex", c, hexs(t[0]), hexs(t[1]), 100, hexs(t[2] if len(t) > 2 else b""))
        else:
            p.lex(*t, cfg=c, k=1)
    return cfgs


def programs(prop, rng):
    p = Programs(rng)
    cfgs = [dict(groups=b"()", quotes=b"'\"", seps=b",;|", spaces=b" \t\n\r")]
    if prop in ("C01", "C02", "C03", "C10", "C12", "C15"):
        lexing(p, prop)
    if prop == "C04":
        cfgs = custom_lexing(p)
    if prop == "C05":
        p.ops("reg", tables(p, False, ["short"], 1 if not THOROUGH else 3))
        p.ops("reg", [([5, "long"], [op("set", 1, x=1, n=1), op("set", 1, x=2, lo=2, n=1), op("set", 1, x=3, lo=4, n=1), op("set", 2, x=4, n=5), op("erase", 1, lo=1, n=2), op("erase", 2, lo=2, n=1), op("set", 1, x=5, lo=1, n=3)])])
        for n in p.sizes(1):
            p.add("cmd", "name", n, hexs(b"n"))
    if prop == "C07":
        p.ops("reg", [([n, "short"], [op("set", 1, x=1, n=n), op("move", 2, 1), op("set", 1, x=2, lo=5, n=3), op("move", 1, 2), op("erase", 1, lo=2, n=n - 4)]) for n in p.sizes(0)])
    if prop == "C08":
        for n in p.sizes(0):
            p.add("cmd", "own", n)
    if prop == "C09":
        for n in p.sizes(1):
            p.add("cmd", "calls", n)
    if prop in ("C06", "C10"):
        for n in (255, 256, 257, 1000) + ((65537,) if THOROUGH else ()):
            p.add("cmd", "over", n, len("Wrong number of arguments to 'f': expected "))
    if prop in ("C11", "C20"):
        p.many("vec.int", [], b"7", [b"x"])
        p.many("vec.uchar", [b"1", b"2"], b"255", [b"256"])
        p.many("vec.int", [b"y"], b"7", [])
        p.many("opt.int", [], b"7", [])
        p.many("int", [], b"12", [])
        p.many("string", [b"a"], b"bc", [])
        p.conv("int", b"", b"0", b"x")
        p.conv("uchar", b"", b"1", b"")
    if prop in ("C12", "C20", "C21"):
        p.many("vec.int", [], b"7", [])
        p.many("vec.int", [b"1", b"-2"], b"34", [b"5"])
        p.many("vec.stdstr", [b"a b"], b"", [b"c"])
        p.many("vec.string", [], b"ab", [])
        p.many("vec.double", [], b"1.5", [], shown=b"1.5")
        p.many("value", [b"a"], b"bc", [b"d"])
        p.conv("opt.int", b"", b"0", b"12")
    if prop in ("C12", "C16", "C17", "C19", "C21"):
        for ty in ("string", "sview", "stdstr", "stdview", "value", "opt.stdstr", "opt.string"):
            p.conv(ty, b"a", b"x", b"z", k=1)
            p.conv(ty, b"", rng.choice([b"\0", b"\xff", b" "]), b"", k=1)
    if prop in ("C16", "C17"):
        p.lines = [l for l in p.lines if " string " in l]
        for n in p.sizes(2):
            p.add("cmd", "var", n, hexs(b"v"))
    if prop == "C18":
        for ty in ("int", "uchar", "ullong"):
            for t in ((b"", b"0", b"5"), (b"-", b"0", b"0"), (b"-", b"0", b"7"), (b"", b" ", b"5"), (b"5", b" ", b""), (b"5", b"0", b""), (b"", b"9", b""), (b"1", b"x", b"2"), (b"+", b"0", b"3"), (b"-", b"-", b"3"), (b"", b"\0", b""), (b"5", b"\0", b"")):
                p.conv(ty, *t, k=1, always=(65536,), rper=1000)
    if prop == "C19":
        for ty in ("double", "float", "bool"):
            for t in ((b"", b"0", b"1.5"), (b"1.5", b"0", b""), (b"1.5", b"x", b""), (b"-", b"0", b""), (b"", b" ", b"1"), (b"1", b" ", b""), (b"", b"true", b""), (b"tru", b"e", b""), (b"0", b"0", b"")):
                p.conv(ty, *t, k=1, always=(65536,), rper=1000)
    if prop == "C13":
        for n in p.sizes(1):
            for u in (b"a", b"line 1"):
                for nl in (0, 1):
                    p.add("cmd", "log", n, hexs(u), nl)
            p.add("cmd", "err", n, hexs(b"wrong"))
        for n in p.sizes(3, (65536, 65537)):
            for bad in (0, 1):
                p.add("cmd", "long", n, hexs(b"a"), bad)
    if prop == "C14":
        for n in p.sizes(2):
            p.add("cmd", "exc", n, hexs(b"e"))
    if prop == "C15":
        for n in p.sizes(2):
            p.add("cmd", "named", n, hexs(b"k"), hexs(b"1"), hexs(b"last"), hexs(b"2 3"), hexs(b"absent"))
    if prop == "C22":
        p.ops("vec", sequences(p, False))
    if prop == "C23":
        p.ops("str", sequences(p, True))
    if prop == "C26":
        p.ops("map", tables(p, True, []))
    if prop == "C27":
        p.conv("color", b"gree", b"n", b"")
        p.conv("point", b"1", b"0", b"")
        p.many("point", [b"1"], b"2", [])
        p.many("color", [], b"red", [])
        p.conv("color", b"", b" ", b"red")
    if prop == "C29":
        for n in p.sizes(3):
            for x in (b"a", b"\xe9"):
                p.add("cmd", "texts", n, hexs(x))
    return list(dict.fromkeys(p.lines)), cfgs


def describe(inp, obs):
    o = json.loads(obs)
    if o["how"] != "ok":
        return "'%s': the library %s" % (inp[:200], "hangs" if o["how"] == "hang" else "crashes")
    return "%s: %s" % (inp[:200], obs.decode(errors="replace")[:900])


def drive_programs(exe, cfile, inputs, base):
    """The programs in eight processes; one that crashes or hangs leaves the others alone."""
    def one(k):
        ifile, out = "%s-in%d" % (base, k), "%s-out%d" % (base, k)
        part = inputs[k::CPUS]
        if not part:
            return []
        open(ifile, "w").write("\n".join(part) + "\n")
        drive(exe, [cfile, ifile], out)
        lines = open(out, "rb").read().split(b"\n")[:-1]
        return lines + [b'{"how":"crash"}'] * (len(part) - len(lines))

    with ThreadPoolExecutor(CPUS) as ex:
        parts = list(ex.map(one, range(CPUS)))
    return [parts[i % CPUS][i // CPUS] for i in range(len(inputs))]


def check_big(chk):
    """Part of the check of a property that is about very large things."""
    inputs, cfgs = programs(chk.prop, random.Random("big %s %d" % (chk.prop, SEED)))
    if not inputs:
        return
    exe = build("big_driver", "fast")
    kinds = {i.split()[0] for i in inputs}
    parts = os.path.join(chk.dir, "big-parts")
    open(parts, "w").write("".join('"%s"\n' % p for p, ks in (("lex", {"lex"}), ("conv", {"conv"}), ("run", {"vec", "str", "map", "reg", "cmd"})) if ks & kinds))
    chk.model_check("MC_Big", env={"VH_DEEP": "1" if THOROUGH else "0", "VH_PARTS": parts})
    cfile, jfile = (os.path.join(chk.dir, "big-" + x) for x in ("configs", "configs.json"))
    open(cfile, "w").write("".join(" ".join(hexs(c[k]) for k in ("groups", "quotes", "seps", "spaces")) + "\n" for c in cfgs))
    open(jfile, "w").write("".join(json.dumps({k: sorted(set(c[k])) for k in c}) + "\n" for c in cfgs))

    def observe():
        return drive_programs(exe, cfile, inputs, os.path.join(chk.dir, "big"))

    lines = observe()
    check_records(chk, "T_Big", lines, {"VH_CONFIGS": jfile}, "big", describe, inputs, observe, block=4)
    chk.notes["big"] = {"programs": len(inputs), "sizes": EDGES}
