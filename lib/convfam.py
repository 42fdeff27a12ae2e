"""C18-C21, C27: conversions and rendering (CoilConv) against TypeSerializer, Value, commands and named arguments."""
import itertools, json, os
from vlib import *
from records import drive, check_records

SIGNED = {"char": 8, "schar": 8, "short": 16, "int": 32, "long": 64, "llong": 64}
UNSIGNED = {"uchar": 8, "ushort": 16, "uint": 32, "ulong": 64, "ullong": 64}
INTS = list(SIGNED) + list(UNSIGNED)
FLOATS = {"float": (6, 37), "double": (15, 307), "ldouble": (18, 4931)}
STRS = ["string", "sview", "stdstr", "stdview"]
SCALARS = INTS + list(FLOATS) + ["bool"] + STRS + ["value", "color", "point"]
NESTED = ["vec.vec.int", "vec.vec.stdstr", "opt.vec.int", "opt.vec.string", "vec.opt.int", "vec.opt.color", "opt.opt.int",
          "opt.opt.stdstr", "opt.vec.opt.uchar", "vec.opt.vec.int", "vec.vec.vec.short", "opt.vec.point"]


def bounds(t):
    n = SIGNED.get(t) or UNSIGNED[t]
    return (-(1 << n - 1), (1 << n - 1) - 1) if t in SIGNED else (0, (1 << n) - 1)


ALL_BOUNDS = sorted({b + d for t in INTS for b in bounds(t) for d in (-2, -1, 0, 1, 2)} | {-bounds(t)[1] + d for t in UNSIGNED for d in (-2, -1, 0, 1, 2)}
                    | {10 ** k for k in (18, 19, 20, 21, 30)} | {-10 ** k for k in (18, 19, 20, 21, 30)} | {1 << 128, -(1 << 128), (1 << 64) + 5, (1 << 65), (1 << 64) + 1, (1 << 32) + 1, 3 << 32})


def any_int(rng, t):
    lo, hi = bounds(t)
    k = rng.random()
    if k < .35:
        v = rng.randint(lo, hi)
    elif k < .6:
        v = rng.choice(ALL_BOUNDS)
    elif k < .8:
        v = rng.randint(-300, 300)
    else:
        v = rng.choice([-1, 1]) * rng.getrandbits(rng.randint(1, 90))
    return str(v).encode()


def int_text(rng, t):
    s = any_int(rng, t)
    k = rng.random()
    if k < .55:
        return s
    if k < .62:
        return (b"" if s.startswith(b"-") else b"+") + s
    if k < .70:
        z = b"0" * rng.randint(1, 30)
        return b"-" + z + s[1:] if s.startswith(b"-") else z + s
    if k < .78:
        return bytes(rng.choice(b" \t\n\v\f\r") for _ in range(rng.randint(1, 3))) + s
    if k < .84:
        return s + bytes([rng.choice(b" \t\nxL.eE\x00-+u0")])
    if k < .92:
        s = bytearray(s)
        s.insert(rng.randint(0, len(s)), rng.choice(b" +-.,_x\x00ae0\xff'"))
        return bytes(s)
    return rng.choice([b"", b"-", b"+", b"--1", b"+-1", b"-+1", b"0x10", b"0b1", b"1e3", b"1.0", b"1.", b".5", b"true", b"abc", b" ", b"\x00", b"1\x00", b"\x001", b"1\x002", b"\xb2", b"\xd9\xa1", b"1'000", b"0x", b"010", b"08", b"- 1", b"1 2", b" 1 "])


def digits(rng, n):
    return "".join(rng.choice("0123456789") for _ in range(n))


def float_text(rng, t):
    p, ex = FLOATS[t]
    k = rng.random()
    if k < .12:
        return rng.choice([b"", b".", b"-", b"+", b"e5", b"1e", b"1e+", b"1.5.5", b"--1", b"1 ", b"1,5", b"1.e", b".e1", b"abc", b"1f", b"1\x00", b"\x00", b"\x001", b" ", b"1e5 ", b"1e5x", b"- 1", b"+-1", b"0x", b"1d5", b"true"])
    if k < .2:
        return rng.choice([b"0", b"-0", b"+0", b"0.0", b".0", b"0.", b"-0.000", b"0e99999", b"0e-99999", b"000", b"1.", b".5", b"-.5", b"5.e3", b"1E5", b"1e+05", b"0.000001", b"0.0000009", b"-0.0000009", b"0.00001", b"999999", b"1000000", b"123456", b"1234567", b"999999.7", b"0.0001", b"0.00001234", b"99999.97", b"1e10", b"1e-10", b"100000", b"0.1", b"3.14", b"-2.5e-3"])
    if k < .28:  # out of range, certainly
        m = digits(rng, rng.randint(1, p)).lstrip("0") or "7"
        over = {"float": 39, "double": 309, "ldouble": 4933}[t]
        under = {"float": 47, "double": 326, "ldouble": 4953}[t]
        e = rng.choice([over + rng.randint(1, 50), 10 ** rng.randint(4, 12), -(under + rng.randint(20, 60)), -10 ** rng.randint(4, 12)])
        return ("%s%s.%se%d" % (rng.choice(["", "-"]), m[0], m[1:], e)).encode()
    n = rng.choice([1, 2, 3, 6, p, rng.randint(1, p)])
    ds = digits(rng, n).lstrip("0") or "1"
    s = rng.choice(["", "", "-", "+"]) + rng.choice(["", "", "0", "00"])
    j = rng.random()
    if j < .3:
        s += ds
    elif j < .6:
        i = rng.randint(0, len(ds))
        s += ds[:i] + "." + ds[i:]
    elif j < .7:
        s += "0." + "0" * rng.randint(0, 9) + ds
    elif j < .75:
        s += ds + "0" * rng.randint(1, 12)
    else:
        i = rng.randint(0, len(ds))
        e = rng.choice([rng.randint(-12, 12), rng.randint(-(ex - 8 - p), ex - 8 - p) if ex > 40 else rng.randint(-20, 20)])
        s += ds[:i] + rng.choice(["", "."] if i == len(ds) else ["."]) + ds[i:] + rng.choice("eE") + (rng.choice(["", "+"]) if e >= 0 else "") + str(e)
    s = s.encode()
    if rng.random() < .08:
        s = rng.choice([b" ", b"\t", b"\n "]) + s
    if rng.random() < .06:
        s = bytearray(s)
        s.insert(rng.randint(0, len(s)), rng.choice(b" +-.,_e0'\x00"))
        s = bytes(s)
    return s


def bool_text(rng):
    k = rng.random()
    if k < .6:
        w = rng.choice([b"true", b"false"])
        w = bytes(c ^ 32 if rng.random() < .4 else c for c in w)
        if rng.random() < .4:
            w = bytearray(w)
            i = rng.randrange(len(w))
            w[i] ^= rng.choice([1, 2, 32, 64, 128, 0x20 ^ 0x01])
            w = bytes(w)
        return w
    return rng.choice([b"0", b"1", b"", b"00", b"01", b"1 ", b" 1", b"t", b"f", b"yes", b"no", b"on", b"2", b"-1", b"+1", b"true ", b" true", b"truee", b"tru", b"TRUE", b"FALSE", b"1\x00", b"true\x00", b"\x00", b"truefalse", b"1.0", b"nil", b"T", b"fals", b"false\n"])


def str_text(rng):
    k = rng.random()
    if k < .3:
        return bytes(rng.randrange(256) for _ in range(rng.randint(0, 12)))
    if k < .6:
        return bytes(rng.randrange(32, 127) for _ in range(rng.randint(0, 40)))
    if k < .65:
        return bytes(rng.randrange(256) for _ in range(rng.randint(50, 600)))
    return rng.choice([b"", b" ", b"abc", b"a b", b"\x00", b"a\x00b", b"\xff", b"null", b"true", b"%s%d%n", b"'", b"\"", b"[1, 2]", b"\xc3\xa9"])


def scalar(rng, t):
    """A list of subvalues for a scalar type, usually right."""
    k = rng.random()
    n = 1
    if t == "point":
        n = 2
    if t == "value":
        n = rng.randint(0, 5)
    if k < .06:
        n = rng.choice([0, 1, 2, 3, 4])
    if t == "point":
        return [int_text(rng, "int") for _ in range(n)]
    return [one(rng, t) for _ in range(n)]


def one(rng, t):
    if t in SIGNED or t in UNSIGNED:
        return int_text(rng, t)
    if t in FLOATS:
        return float_text(rng, t)
    if t == "bool":
        return bool_text(rng)
    if t == "color":
        return rng.choice([b"red", b"green", b"blue", b"red", b"green", b"blue", b"Red", b"", b"redd", b"re", b"red\x00", b" red", b"0", b"purple"])
    if t == "point":
        return int_text(rng, "int")
    return str_text(rng)


def good(rng, t):
    """A subvalue that converts (most of the time)."""
    if t in SIGNED or t in UNSIGNED:
        lo, hi = bounds(t)
        return str(rng.choice([lo, hi, 0, rng.randint(lo, hi), rng.randint(max(lo, -99), min(hi, 99))])).encode()
    if t in FLOATS:
        return rng.choice([b"1.5", b"0", b"-2.25e3", b"1e-3", b"123456", b"0.5"])
    if t == "bool":
        return rng.choice([b"0", b"1", b"true", b"False"])
    if t == "color":
        return rng.choice([b"red", b"green", b"blue"])
    if t == "point":
        return b"1"
    return str_text(rng)


def compound(rng, t):
    names = t.split(".")
    leaf = names[-1]
    k = rng.random()
    if k < .05:
        return []
    if k < .12:
        return [b""]
    if k < .2:
        return scalar(rng, leaf)
    n = rng.choice([1, 1, 2, 2, 3, rng.randint(0, 9)])
    subs = [good(rng, leaf) for _ in range(n)]
    if rng.random() < .1:
        subs = [good(rng, leaf) for _ in range(rng.randint(10, 40))]
    if subs and rng.random() < .4:
        for _ in range(rng.randint(1, 2)):
            subs[rng.randrange(len(subs))] = one(rng, leaf)
    if subs and rng.random() < .15:
        subs[rng.randrange(len(subs))] = b""
    return subs


def workload(prop, rng):
    big = THOROUGH
    k = 10 if big else 1
    out = []
    if prop == "C18":
        for t in INTS:
            for v in ALL_BOUNDS:
                for s in ("%d", "0%d", "+%d", " %d") if v >= 0 else ("%d", " %d"):
                    out.append((t, [(s % v).encode()]))
                if v < 0:
                    out.append((t, [b"-00" + str(-v).encode()]))
            for m in range(4 if big else 3):
                for s in itertools.product(b"0129+- " if not big else b"01289+- \x00x", repeat=m + 1):
                    out.append((t, [bytes(s)]))
            for b in range(256):
                out += [(t, [bytes([b])]), (t, [b"7" + bytes([b])]), (t, [bytes([b]) + b"7"])]
            if t in ("char", "schar", "uchar") or big:
                out += [(t, [str(i).encode()]) for i in range(-400, 700)]
            for _ in range(400 * k):
                out.append((t, [int_text(rng, t)]))
            for _ in range(10):
                out.append((t, [int_text(rng, t) for _ in range(rng.choice([0, 2, 3]))]))
    elif prop == "C19":
        out += [("bool", [bytes(c ^ 32 if m >> i & 1 else c for i, c in enumerate(w))]) for w in (b"true", b"false") for m in range(1 << len(w))]
        out += [("bool", [bytes([b])]) for b in range(256)]
        for w in (b"true", b"false", b"0", b"1"):
            for i in range(len(w)):
                for b in range(256):
                    out.append(("bool", [w[:i] + bytes([b]) + w[i + 1:]]))
                out.append(("bool", [w[:i] + w[i + 1:]]))
        for t in FLOATS:
            for m in range(5 if big else 4):
                for s in itertools.product(b"05.e-+ ", repeat=m + 1):
                    out.append((t, [bytes(s)]))
            for _ in range(2500 * k):
                out.append((t, [float_text(rng, t)]))
        for t in STRS:
            out += [(t, [bytes([b])]) for b in range(256)] + [(t, [b"a" + bytes([b]) + b"z"]) for b in range(256)]
            for _ in range(250 * k):
                out.append((t, [str_text(rng)]))
            out += [(t, [str_text(rng) for _ in range(n)]) for n in (0, 2, 3)]
        for _ in range(800 * k):
            out.append(("bool", [bool_text(rng)]))
    elif prop == "C20":
        types = ["vec." + t for t in SCALARS] + ["opt." + t for t in SCALARS] + NESTED
        for t in SCALARS:
            for n in (0, 1, 2, 3, 5):
                for _ in range(3):
                    out.append((t, [good(rng, t) for _ in range(n)]))
        for t in types:
            leaf = t.split(".")[-1]
            out += [(t, []), (t, [b""]), (t, [b"", b""])]
            for n in (1, 2, 3, 4):  # one bad element at every position, and two
                g = [good(rng, leaf) for _ in range(n)]
                out.append((t, g))
                for i in range(n):
                    for bad in (b"", b"zz", b"1x", b"999999999999999999999999"):
                        h = list(g)
                        h[i] = bad
                        out.append((t, h))
                        if i + 1 < n:
                            h = list(h)
                            h[rng.randrange(i + 1, n)] = b"z!"
                            out.append((t, h))
            for _ in range(80 * k):
                out.append((t, compound(rng, t)))
    elif prop == "C21":
        for t in SCALARS:
            for _ in range((400 if t in FLOATS else 80) * k):
                out.append((t, scalar(rng, t)))
        for t in ["vec." + x for x in SCALARS] + ["opt." + x for x in SCALARS] + NESTED:
            leaf = t.split(".")[-1]
            for _ in range(40 * k):
                out.append((t, [good(rng, leaf) for _ in range(rng.choice([0, 1, 1, 2, 3, rng.randint(0, 25)]))]))
        for _ in range(300 * k):
            out.append(("cstr", [str_text(rng)]))
        out += [("cstr", [bytes([b])]) for b in range(256)]
    elif prop == "C27":
        types = [t for t in ["color", "point", "vec.color", "vec.point", "opt.color", "opt.point", "vec.opt.color", "opt.vec.point"]]
        for t in types:
            leaf = t.split(".")[-1]
            words = [b"red", b"green", b"blue", b"", b"Red", b"redred", b"red\x00"] if leaf == "color" else [b"1", b"-7", b"", b"x", b"2147483647", b"2147483648", b" 3", b"4 "]
            for n in range(4):
                for s in itertools.product(words, repeat=n):
                    out.append((t, list(s)))
            for _ in range(200 * k):
                out.append((t, compound(rng, t)))
                out.append((t, scalar(rng, leaf)))
    for t in {"C18": INTS, "C19": ["bool"] + list(FLOATS) + STRS, "C20": ["vec.int", "vec.string", "vec.bool", "opt.int", "opt.bool", "opt.stdstr", "opt.string", "opt.value", "opt.vec.string", "int", "bool"],
              "C21": ["value", "string", "stdstr", "opt.string", "vec.stdstr", "cstr"], "C27": ["color", "vec.color", "opt.color", "point"]}[prop]:
        for x in DICTIONARY:
            if t in FLOATS and (x[:2] in (b"0x", b"0X") or b"inf" in x.lower() or b"nan" in x.lower()):
                continue
            out.append((t, [x]))
            if "." in t:
                out += [(t, [x, x]), (t, [good(rng, t.split(".")[-1]), x]), (t, [x, good(rng, t.split(".")[-1])])]
    for n in LENGTHS:    # texts of every length
        x = b"x" * n
        if prop == "C18":
            out += [("int", [x]), ("ullong", [b"7" * n]), ("schar", [b"-" + b"0" * n + b"1"])]
        elif prop == "C19":
            out += [("bool", [x]), ("double", [x]), ("string", [x])]
        elif prop == "C20":
            out += [("vec.int", [b"1", x]), ("opt.color", [x]), ("vec.string", [x, b""]), ("int", [b"1"] * min(n, 600)), ("value", [x])]
        elif prop == "C21":
            out += [("string", [x]), ("cstr", [x]), ("vec.string", [b"", x]), ("opt.string", [x]), ("value", [x, x[1:]])]
        elif prop == "C27":
            out += [("color", [x]), ("vec.color", [b"red", x]), ("opt.color", [x])]
    for n in COUNTS + MANY:    # any number of elements
        v = [b"%d" % i for i in range(n)]
        spoilt = list(v)
        if n:
            spoilt[rng.choice([0, n - 1, rng.randrange(n)])] = b"x"
        if prop == "C20":
            out += [("vec.int", v), ("vec.int", spoilt), ("vec.string", v), ("vec.bool", [b"01"[i % 2:i % 2 + 1] for i in range(n)]), ("opt.vec.string", v), ("int", v), ("value", v), ("opt.int", v)]
        elif prop == "C21":
            out += [("vec.int", v), ("vec.stdstr", spoilt), ("value", v), ("vec.opt.int", v)]
        elif prop == "C27":
            out += [("vec.point", v), ("vec.color", [b"red"] * n), ("vec.color", [b"blue"] * n + [b"x"]), ("color", v), ("point", v)]
    return out


def describe(inp, obs):
    o = json.loads(obs)
    t = "argument (%s) of type %s" % (", ".join("'%s'" % show_bytes(x) for x in o["s"]), ".".join(o["t"]))
    if o.get("how") != "ok":
        return "%s: the library %s" % (t, "hangs" if o["how"] == "hang" else "crashes")
    if "lit" in o:
        return "%s: returned as C string %s" % (t, [show_bytes(x) for x in o["lit"]["r"]])

    def shown(v):
        if isinstance(v, list) and v and all(isinstance(x, int) for x in v):
            return "'%s'" % show_bytes(v)
        return "[%s]" % ", ".join(shown(x) for x in v) if isinstance(v, list) else str(v)

    def echo(e):
        return "received %s, returned %s, errors %s" % ([shown(x) for x in e["c"]], [show_bytes(x) for x in e["r"]], [show_bytes(x) for x in e["e"]])
    parts = [echo(o["echo"])]
    for f in ("ref", "cref", "ptr", "cptr", "var", "prop"):
        if o[f] != o["echo"]:
            parts.append("as '%s': %s" % (f, echo(o[f])))
    for f in ("get", "named"):
        if f in o:
            x = o[f]
            parts.append("%s: %s" % (f, "?" if "ok" not in x else shown(x["v"]) if x["ok"] else show_bytes(x["e"])))
    parts.append("rendered %s" % [show_bytes(x) for x in o["ts"]])
    if o.get("rt") is False:
        parts.append("the rendered value does not convert back")
    names = {show_bytes(x) for x in o["names"]}
    parts.append("type name %s" % "/".join(sorted(names)))
    return "%s: %s" % (t, "; ".join(parts))


def check_names(chk):
    """The metadata of commands of every type, and the errors that name it, in both configurations of the names."""
    types = [p + t for t in SCALARS for p in ("", "vec.", "opt.")] + NESTED
    inputs = [" ".join([t] + [hexs(x) for x in s]) for t in types for s in ((b"1",), (b"x",), (b"1", b"2", b"3"))]
    confs = ["plain", "alias"]
    exes = build_all([("conv_driver", c) for c in confs])
    ifile = os.path.join(chk.dir, "names-inputs")
    open(ifile, "w").write("\n".join(inputs) + "\n")

    def observe(conf):
        out = os.path.join(chk.dir, "names-" + conf)
        drive(exes[("conv_driver", conf)], [ifile], out)
        return open(out, "rb").read().split(b"\n")[:-1]

    for conf in confs:
        check_records(chk, "T_Conv", observe(conf), {}, "names-" + conf, describe, inputs, lambda: observe(conf), block=30)
    chk.notes["type_names"] = types


def check(chk):
    confs = ["san", "plain"] + (["alias"] if chk.prop in ("C18", "C20", "C27") or THOROUGH else [])
    exes = build_all([("conv_driver", c) for c in confs])
    chk.model_check("MC_Conv", cfg="MC_Conv.cfg" if not THOROUGH else "MC_Conv_deep.cfg")
    cases = list(dict.fromkeys((t, tuple(s)) for t, s in workload(chk.prop, chk.rng)))
    inputs = [" ".join([t] + [hexs(x) for x in s]) for t, s in cases]
    ifile = os.path.join(chk.dir, "inputs")
    open(ifile, "w").write("\n".join(inputs) + "\n")

    def observe(conf):
        out = os.path.join(chk.dir, "out-" + conf)
        drive(exes[("conv_driver", conf)], [ifile], out)
        return open(out, "rb").read().split(b"\n")[:-1]

    lines = observe("san")
    check_records(chk, "T_Conv", lines, {}, "san", describe, inputs, lambda: observe("san"), block=120)
    plain = observe("plain")
    if plain != lines:
        check_records(chk, "T_Conv", plain, {}, "plain", describe, inputs, lambda: observe("plain"), block=120)
    else:
        chk.notes["plain_build"] = "the default build (asserts and exceptions off, -O2) made the same %d observations" % len(plain)
    if "alias" in confs:
        pick = sorted(chk.rng.sample(range(len(inputs)), min(len(inputs), 3000 if not THOROUGH else 30000)))
        sub = [inputs[i] for i in pick]
        open(ifile, "w").write("\n".join(sub) + "\n")
        check_records(chk, "T_Conv", observe("alias"), {}, "alias", describe, sub, lambda: observe("alias"), block=120)
    for i in sorted(chk.rng.sample(range(len(lines)), 5)):
        chk.samples.append(describe(inputs[i], lines[i])[:600])
    chk.notes["distinct_arguments"] = len(cases)
    chk.notes["types"] = sorted({t for t, _ in cases})
    chk.notes["converted"] = sum(b'"echo":{"c":[],"e":[' not in l for l in lines)
