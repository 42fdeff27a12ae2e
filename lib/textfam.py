"""C29: texts and untyped values at the boundary of the API (CoilText)."""
import json
from vlib import *
from records import drive, check_records
import convfam


def text(rng):
    k = rng.random()
    if k < .2:
        return rng.choice(DICTIONARY)
    if k < .5:
        return bytes(rng.choice([0, 97, 98, 255, 32]) for _ in range(rng.choice([0, 1, 2, 3, 4, 5])))
    if k < .8:
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 7, 15, 16, 17, 31, 33, rng.randrange(80)])))
    return convfam.str_text(rng)


def near(rng, a):
    """Almost the same text, or the same one."""
    k = rng.random()
    if k < .35:
        return a
    if k < .45:
        return a + rng.choice([b"\0", b" ", b"a", a])
    if k < .55:
        return a[:-1]
    if k < .65:
        return a[1:]
    if k < .85 and a:
        i = rng.choice([0, len(a) - 1, len(a) // 2, rng.randrange(len(a))])
        return a[:i] + bytes([a[i] ^ rng.choice([1, 32, 128])]) + a[i + 1:]
    if k < .92:
        return a[::-1]
    return text(rng)


def values(rng):
    return [text(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))]


def nearlist(rng, v):
    k = rng.random()
    if k < .3 or not v:
        return list(v)
    if k < .6:
        i = rng.randrange(len(v))
        return v[:i] + [near(rng, v[i])] + v[i + 1:]
    if k < .7:
        return v[:-1]
    if k < .8:
        return v + [rng.choice([b"", v[-1]])]
    if k < .9:
        return [b" ".join(v)]
    return v[::-1]


def lst(v, empty="_"):
    return ",".join(hexs(s) for s in v) or empty


def workload(rng):
    many = 12 if THOROUGH else 1
    out = []
    fmt = lambda k, s, t, m, n: "format %s %s %s %d %d" % (k, hexs(s), hexs(t), m, n)
    for x in [b"x" * n for n in LENGTHS] + DICTIONARY:
        out += ["view " + hexs(x) if len(x) < 40 or len(x) % 7 == 0 else "std " + hexs(x), "std " + hexs(x), fmt("s", x, b"", 0, 0), fmt("p", x, b"", 0, 0), fmt("f", x.replace(b"\0", b"~"), b"", 0, 0),
                fmt("m", x, x[:5], len(x), 33), "pair %s %s" % (hexs(x), hexs(near(rng, x))), "value %s %s" % (lst([x, b"1"]), lst([x, x]))]
        if len(x) < 600:
            out += ["stream %s %d 2a %s" % (hexs(x), max(0, len(x) + rng.choice([-1, 0, 1, 5])), rng.choice("lrid")), fmt("w", x, b"", 0, rng.choice([-1, 1]) * (len(x) + rng.choice([0, 1, 4]))), fmt("D", b"", b"", 12, len(x)), fmt("z", b"", b"", -12, len(x))]
    for m in (0, 1, -1, 7, -9, 10, 99, 100, 12345, -54321, 2147483647, -2147483648, 2147483646, 1000000000):
        for n in (0, 1, 2, 5, 10, 11, 12, 20, -1, -5, -12):
            out += [fmt("d", b"", b"", m, n), fmt("D", b"", b"", m, n)] + ([fmt("z", b"", b"", m, n)] if n >= 0 else []) + ([fmt("u", b"", b"", m, n)] if m >= 0 else [])
    for b in range(256):
        out += ["view %02x" % b, "std %02x" % b, "std 61%02x62" % b, "pair %02x %02x" % (b, b ^ 128), fmt("c", b"", b"", 0, b), "stream %02x 3 %02x l" % (b, b), "value %02x,61 %02x" % (b, b)]
    for n in COUNTS + MANY:
        v = [b"%d" % i for i in range(n)]
        out += ["value %s %s" % (lst(v), lst(nearlist(rng, v))), "value %s %s" % (lst([b""] * n), lst([b""] * max(0, n - 1)))]
    for _ in range(2500 * many):
        a, b, v = text(rng), text(rng), values(rng)
        out += ["view " + hexs(a), "std " + hexs(b), "pair %s %s" % (hexs(a), hexs(near(rng, a))), "value %s %s" % (lst(v), lst(nearlist(rng, v))),
                "stream %s %d %02x %s" % (hexs(a), rng.choice([0, 1, 5, 10, 40]), rng.choice([32, 42, 0, 255]), rng.choice("lrid")),
                fmt(rng.choice("spwm"), a, b, rng.randrange(-1000, 1000), rng.choice([0, 3, 40, 65]))]
    for _ in range(700 * many):
        def args():
            return "/".join(lst(values(rng)[:3], "=") for _ in range(rng.choice([0, 1, 2, 4, 9]))) or "_"

        def named():
            return "/".join("%s:%s" % (hexs(text(rng)), lst(values(rng)[:3], "=")) for _ in range(rng.choice([0, 0, 1, 2, 5]))) or "_"
        out.append("input %s %s %s %s %s" % (hexs(text(rng)), args(), named(), args(), named()))
    return list(dict.fromkeys(out))


def describe(inp, obs):
    o = json.loads(obs)
    if o["how"] != "ok":
        return "'%s': the library %s" % (inp[:300], "hangs" if o["how"] == "hang" else "crashes")
    def f(v):
        if isinstance(v, list) and v and all(isinstance(x, int) for x in v):
            return "'%s'" % show_bytes(v)[:200]
        if isinstance(v, list):
            return "[%s]" % ", ".join(f(x) for x in v[:8])
        if isinstance(v, dict):
            return "{%s}" % ", ".join("%s: %s" % (k, f(x)) for k, x in v.items())
        return str(v)
    return ", ".join("%s=%s" % (k, f(v)) for k, v in o.items() if k != "how")[:1200]


def check(chk):
    exes = build_all([("api_driver", "san"), ("api_driver", "plain")])
    r = chk.model_check("MC_Text", env={"VH_DEEP": "1" if THOROUGH else "0"})
    inputs = sorted({l[6:-1] for l in r.out.splitlines() if l.startswith('"PATH ')})
    chk.notes["model"] = {"inputs": len(inputs)}
    inputs = list(dict.fromkeys(inputs + workload(chk.rng)))
    ifile = os.path.join(chk.dir, "inputs")
    open(ifile, "w").write("\n".join(inputs) + "\n")

    def observe(conf):
        out = os.path.join(chk.dir, "out-" + conf)
        drive(exes[("api_driver", conf)], [ifile], out)
        return open(out, "rb").read().split(b"\n")[:-1]

    lines = observe("san")
    check_records(chk, "T_Text", lines, {}, "san", describe, inputs, lambda: observe("san"))
    plain = observe("plain")
    if plain != lines:
        check_records(chk, "T_Text", plain, {}, "plain", describe, inputs, lambda: observe("plain"))
    else:
        chk.notes["plain_build"] = "the default build made the same %d observations" % len(plain)
    kinds = {}
    for i in inputs:
        kinds[i.split()[0]] = kinds.get(i.split()[0], 0) + 1
    chk.notes["observations"] = kinds
    for i in sorted(chk.rng.sample(range(len(lines)), 5)):
        chk.samples.append(describe(inputs[i], lines[i])[:300])
