"""C01-C04: the command language (CoilLexer) against DefaultLexer and Bindings::execute."""
import itertools, json, os
from vlib import *
from records import drive, check_records

DEFAULT = dict(groups=b"()", quotes=b"'\"", seps=b",;|", spaces=b" \t\n\r")
CUSTOM = [
    dict(groups=b"[]", quotes=b"`", seps=b":", spaces=b" "),
    dict(groups=b"<>{}", quotes=b"'\"`", seps=b"/,", spaces=b"_ \t"),
    dict(groups=b"", quotes=b"", seps=b"", spaces=b" "),
    dict(groups=b"()", quotes=b"", seps=b",", spaces=b" \n"),
    dict(groups=b"", quotes=b"'", seps=b",;", spaces=b" "),
    dict(groups=b"\xab\xbb", quotes=b"\xff\x80", seps=b"\xfe", spaces=b"\xa0"),
    dict(groups=b"(", quotes=b"'", seps=b" ,", spaces=b"\t"),
    dict(groups=b"=()", quotes=b"='", seps=b"=,", spaces=b" "),
    dict(groups=b"()'", quotes=b"'(", seps=b"('", spaces=b" "),
    dict(groups=b"ab", quotes=b"x", seps=b"y", spaces=b"z"),
    dict(groups=b"\x00", quotes=b"\x01", seps=b"\x02", spaces=b"\x03"),
    dict(groups=b"()[]{}", quotes=b"'\"", seps=b",", spaces=b" \t\n\r\v\f"),
]

WORDS = [b"a", b"f", b"foo", b"x1", b"-5", b"3.14", b"snake_case", b"camera.fov", b"\xc3\xa9", b"\x80\xff", b"a\x00b", b"@#$%^&*", b"+", b"/", b"\\", b"[1]", b"{}", b"<>", b"`", b"~", b"!", b"?", b":"]


def word(rng, cfg=DEFAULT, lo=1, hi=8):
    special = set(cfg["groups"] + cfg["quotes"] + cfg["spaces"] + cfg["seps"] + b"=")
    if cfg is DEFAULT and rng.random() < .5:
        return rng.choice(WORDS)
    while True:
        n = rng.randint(lo, hi)
        w = bytes(c for c in (rng.choice([rng.randrange(256), rng.randrange(33, 127)]) for _ in range(n)) if c not in special)
        if w:
            return w


def ws(rng, cfg, opt=False):
    if not cfg["spaces"]:
        return b""
    n = rng.choice([0, 0, 1, 2] if opt else [1, 1, 1, 2, 3])
    return bytes(rng.choice(cfg["spaces"]) for _ in range(n))


def quoted(rng, cfg, big=20):
    q = rng.choice(cfg["quotes"])
    n = rng.choice([0, 1, 2, 3, rng.randint(0, big)])
    pool = list(set(cfg["groups"] + cfg["seps"] + cfg["spaces"] + b"=ab\x00\\")) if rng.random() < .6 else list(range(256))
    return bytes([q]) + bytes(c for c in (rng.choice(pool) for _ in range(n)) if c not in cfg["quotes"]) + bytes([rng.choice(cfg["quotes"]) if rng.random() < .2 else q])


def group(rng, cfg, elems=6):
    g = bytes([rng.choice(cfg["groups"])])
    out = g
    n = rng.choice([0, 1, 2, 3, rng.randint(0, elems)])
    seps = list(cfg["seps"] + cfg["spaces"]) or [32]
    out += bytes(rng.choice(seps) for _ in range(rng.choice([0, 0, 1, 2])))
    for i in range(n):
        if cfg["quotes"] and rng.random() < .35:
            e = quoted(rng, cfg, 8)
            e = bytes(c for c in e if c not in cfg["groups"])
            if rng.random() < .2:
                e += word(rng, cfg)
        else:
            e = word(rng, cfg)
        out += e + bytes(rng.choice(seps) for _ in range(rng.choice([1, 1, 1, 2, 3])))
    return out + bytes([rng.choice(cfg["groups"])])


def value(rng, cfg, qbias=.3):
    r = rng.random()
    if r < qbias and cfg["quotes"]:
        return quoted(rng, cfg)
    if r < qbias + .2 and cfg["groups"]:
        return group(rng, cfg)
    if r < qbias + .35 and cfg["seps"]:
        return word(rng, cfg) + b"".join(bytes([rng.choice(cfg["seps"])]) * rng.choice([1, 1, 2]) + word(rng, cfg) for _ in range(rng.randint(0, 3))) + rng.choice([b"", bytes([rng.choice(cfg["seps"])])])
    return word(rng, cfg)


def structured(rng, cfg=DEFAULT, maxargs=6, qbias=.3):
    """A well-formed command, with random spacing and quoting."""
    name = word(rng, cfg) if rng.random() < .85 or not cfg["quotes"] else quoted(rng, cfg)
    out = ws(rng, cfg, True) + name
    n = rng.choice([0, 1, 2, 3, rng.randint(0, maxargs)])
    keys = [word(rng, cfg) for _ in range(3)]
    for _ in range(n):
        if rng.random() < .4:
            k = rng.choice(keys) if rng.random() < .8 else value(rng, cfg)
            out += ws(rng, cfg) + k + ws(rng, cfg, True) + b"=" + ws(rng, cfg, True) + value(rng, cfg, qbias)
        else:
            out += ws(rng, cfg) + value(rng, cfg, qbias)
    return out + ws(rng, cfg, True)


def mutate(rng, s, cfg=DEFAULT):
    s = bytearray(s)
    pool = cfg["groups"] + cfg["quotes"] + cfg["seps"] + cfg["spaces"] + b"=a\x00\xff"
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        if k < .4:
            s.insert(rng.randint(0, len(s)), rng.choice(pool))
        elif k < .7 and s:
            del s[rng.randrange(len(s))]
        elif s:
            s[rng.randrange(len(s))] = rng.choice(pool)
    return bytes(s)


def soup(rng, cfg, maxlen):
    pool = list(cfg["groups"] + cfg["quotes"] + cfg["seps"] + cfg["spaces"] + b"==ab")
    return bytes(rng.choice(pool) if rng.random() < .9 else rng.randrange(256) for _ in range(rng.randint(0, maxlen)))


def exhaustive(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield bytes(t)


def workload(prop, rng):
    """[(config index, text)], configs"""
    big = THOROUGH
    out = []
    cfgs = [DEFAULT]
    if prop == "C01":
        # every short text over the characters that build structure; then random well-formed commands
        out += [(1, s) for s in exhaustive(b"a= ,(", 6 if not big else 7)]
        out += [(1, s) for s in exhaustive(b"ab=; ()\t|,", 4 if not big else 5)]
        for _ in range(12000 if not big else 120000):
            out.append((1, structured(rng, qbias=.15)))
        for _ in range(40 if not big else 400):  # long commands
            out.append((1, b" ".join(structured(rng, maxargs=12) for _ in range(rng.randint(5, 20)))))
    elif prop == "C02":
        out += [(1, b"f " + s) for s in exhaustive(b"'\"a (", 5 if not big else 7)]
        out += [(1, b"f (" + s + b")") for s in exhaustive(b"'\"a ,", 5 if not big else 6)]
        for b in range(256):
            for q in b"'\"":
                q = bytes([q])
                for t in (b"f " + q + bytes([b]) + q, b"f k=" + q + bytes([b]) + q, b"f (" + q + bytes([b]) + q + b")",
                          b"f " + q + b"x" + bytes([b]) + b"y" + q + b" z", q + bytes([b]) + q + b" 1"):
                    out.append((1, t))
        for _ in range(12000 if not big else 120000):
            out.append((1, structured(rng, qbias=.75)))
        for _ in range(60):
            out.append((1, b"f " + quoted(rng, DEFAULT, 1500) + b" " + quoted(rng, DEFAULT, 300)))
    elif prop == "C03":
        out += [(1, s) for s in exhaustive(b"a='( ", 6 if not big else 7)]
        out += [(1, bytes([b])) for b in range(256)] + [(1, b"f " + bytes([b])) for b in range(256)] + [(1, b"f (" + bytes([b])) for b in range(256)]
        out += [(1, bytes([a, b])) for a in range(0, 256, 1 if big else 5) for b in range(256)]
        for _ in range(10000 if not big else 150000):
            out.append((1, mutate(rng, structured(rng))))
            if rng.random() < .5:
                out.append((1, soup(rng, DEFAULT, 40)))
        for _ in range(2000 if not big else 20000):
            out.append((1, bytes(rng.randrange(256) for _ in range(rng.randint(0, 60)))))
        for _ in range(30):
            out.append((1, soup(rng, DEFAULT, 2000)))
    elif prop == "C04":
        cfgs = [DEFAULT] + CUSTOM
        for i, c in enumerate(cfgs):
            chars = bytearray()
            for f in ("groups", "quotes", "seps", "spaces"):
                chars += c[f][:2]
            chars = bytes(dict.fromkeys(bytes(chars) + b"a="))
            out += [(i + 1, s) for s in exhaustive(chars, 3 if not big else 4)]
            out += [(i + 1, b"f" + (c["spaces"][:1] or b" ") + s) for s in exhaustive(chars, 3 if not big else 4)]
            out += [(i + 1, bytes([b])) for b in range(256)]
            for _ in range(1200 if not big else 12000):
                out.append((i + 1, structured(rng, c)))
                out.append((i + 1, mutate(rng, structured(rng, c), c)))
                out.append((i + 1, mutate(rng, structured(rng), c)))
                out.append((i + 1, soup(rng, c, 24)))
        for _ in range(10 if not big else 60):  # random configurations
            pool = [rng.randrange(256) for _ in range(10)]
            cfg = {f: bytes(rng.sample(pool, rng.randint(0, 3))) for f in ("groups", "quotes", "seps", "spaces")}
            if not cfg["spaces"]:
                cfg["spaces"] = b" "
            cfgs.append(cfg)
            for _ in range(300):
                out.append((len(cfgs), soup(rng, cfg, 20)))
                out.append((len(cfgs), mutate(rng, structured(rng, cfg), cfg)))
    for x in DICTIONARY:
        y = rng.choice(DICTIONARY)
        if prop == "C01":
            out += [(1, t) for t in (x, b"f " + x, b"f a " + x + b" b", b"f k=" + x + b" b", b"f " + x + b"=v b", b"f (a " + x + b" b) c", b"f a," + x + b",b c", b"f " + x + b" " + y + b" z")]
        elif prop == "C02":
            out += [(1, t.replace(b"Q", q)) for q in (b"'", b'"') for t in (b"QQ".replace(b"QQ", b"Q" + x + b"Q"), b"f Q" + x + b"Q", b"f a Q" + x + b"Q b", b"f k=Q" + x + b"Q b", b"f Q" + x + b"Q=v b",
                                                                        b"f (a Q" + x + b"Q b) c", b"f Q" + x + b"Q Q" + y + b"Q z", b"f Q" + x + b"Q=Q" + y + b"Q")]
        elif prop == "C03":
            out += [(1, t) for t in (x, x + y, b"f " + x + y, b"f (" + x, b"f '" + x, b"f " + x + b"=", b"= " + x, x + b"=" + y, b"(" + x + b") " + y)]
        elif prop == "C04":
            out += [(rng.randint(1, len(cfgs)), t) for t in (x, b"f " + x, b"f " + x + b"=" + y, x + y)]
    for n in LENGTHS:    # texts of every length
        x = b"x" * n
        if prop == "C01":
            out += [(1, b"f " + x + b" k=" + x), (1, b"f (1," + x + b" 2)")]
        elif prop == "C02":
            out += [(1, b"f '" + x + b"' \"" + x + b" \""), (1, b"'" + x + b"' k='" + x + b"'")]
        elif prop == "C03":
            out += [(1, x), (1, b"f '" + x), (1, b"(" + x + b") f"), (1, b"f (" + x), (1, b"f " + x + b"= =")]
        elif prop == "C04":
            out += [(2, b"f [" + x + b":1] `" + x + b"`")]
    num = lambda i: b"%d" % i
    for n in COUNTS + MANY:    # any number of words, elements, ...
        r = range(n)
        if prop == "C01":
            out += [(1, b"f " + b" ".join(map(num, r))), (1, b"f" + b"".join(b" k%d=%d" % (i % 7, i) for i in r)), (1, b"f (" + b",".join(map(num, r)) + b") " + b",".join(map(num, r)) + b" k=(" + b";".join(map(num, r)) + b")"),
                    (1, b"f" + b"".join(rng.choice([b" %d", b" k=%d", b" (%d, 1)", b" %d,2", b" k%%d = (%d 4)".replace(b"%%d", b"")]) % i for i in r)), (1, b"f" + b" \t" * n + b"a" + b" " * n + b"=" + b" " * n + b"b")]
        elif prop == "C02":
            out += [(1, b"f " + b" ".join(b"'%d='" % i for i in r)), (1, b"'f'" + b"".join(b" 'k '=\"%d'\"".replace(b"'\"", b"\"") % i for i in r)), (1, b"f (" + b",".join(b"' %d'" % i for i in r) + b")"),
                    (1, b"f" + b"".join(rng.choice([b" '%d'", b" '='=\"%d \"", b" ('%d,' \"1\")"]) % i for i in r))]
        elif prop == "C03":
            some = b"".join(rng.choice([b" %d", b" k=%d", b" (%d, 1)", b" '%d'"]) % i for i in r)
            out += [(1, b"f" + some + t) for t in (b" =", b" k=", b" k==1", b" k= =", b" (", b" '", b" a = = b")] + [(1, b"=" * n), (1, b"(" * n), (1, b"()" * n), (1, b"''" * n), (1, b"f" + b" =" * n), (1, b" " * n)]
        elif prop == "C04":
            out += [(2, b"f" + b"".join(rng.choice([b" %d", b" k=%d", b" [%d:1]", b" `%d`", b" %d:2"]) % i for i in r))]
    return cfgs, out


def describe(inp, obs):
    o = json.loads(obs)
    t = "text \"%s\"" % show_bytes(o["s"])
    if o.get("how") != "ok":
        return "%s: the library %s" % (t, "hangs" if o["how"] == "hang" else "crashes")
    p = o["p"]

    def val(v):
        return "(%s)" % ", ".join("'%s'" % show_bytes(x) for x in v)
    if p["ok"]:
        s = "parsed as name '%s', positional %s, named %s" % (show_bytes(p["n"]), [val(a) for a in p["a"]], [(show_bytes(k["k"]), val(k["v"])) for k in p["k"]])
    else:
        s = "rejected with '%s'" % show_bytes(p["msg"])
    return "%s (lexer configuration %d): %s; execution errors %s, calls %d" % (t, o["c"], s, [show_bytes(e) for e in o["x"]["e"]], len(o["x"]["c"]))


def check(chk):
    exes = build_all([("lex_driver", "san"), ("lex_driver", "plain")])
    chk.model_check("MC_Lexer", cfg="MC_Lexer.cfg" if not THOROUGH else "MC_Lexer_deep.cfg")
    cfgs, cases = workload(chk.prop, chk.rng)
    cases = list(dict.fromkeys(cases))
    inputs = ["%d %s" % (c, hexs(s)) for c, s in cases]
    cfile, jfile, ifile = (os.path.join(chk.dir, n) for n in ("configs", "configs.json", "inputs"))
    with open(cfile, "w") as f, open(jfile, "w") as j:
        for c in cfgs:
            f.write(" ".join(hexs(c[k]) for k in ("groups", "quotes", "seps", "spaces")) + "\n")
            j.write(json.dumps({k: list(c[k]) for k in c}) + "\n")
    open(ifile, "w").write("\n".join(inputs) + "\n")

    def observe(conf):
        out = os.path.join(chk.dir, "out-" + conf)
        drive(exes[("lex_driver", conf)], [cfile, ifile], out)
        return open(out, "rb").read().split(b"\n")[:-1]

    env = {"VH_CONFIGS": jfile}
    lines = observe("san")
    check_records(chk, "T_Lex", lines, env, "san", describe, inputs, lambda: observe("san"))
    plain = observe("plain")
    if plain != lines:
        check_records(chk, "T_Lex", plain, env, "plain", describe, inputs, lambda: observe("plain"))
    else:
        chk.notes["plain_build"] = "the default build (asserts and exceptions off, -O2) made the same %d observations" % len(plain)
    for i in sorted(chk.rng.sample(range(len(lines)), 5)):
        chk.samples.append(describe(inputs[i], lines[i]))
    chk.notes["distinct_texts"] = len(cases)
    chk.notes["accepted_by_lexer"] = sum(b'"p":{"ok":true' in l for l in lines)
    chk.notes["rejected_by_lexer"] = sum(b'"p":{"ok":false' in l for l in lines)
    if chk.prop == "C04":   # which lexer a registry uses, and its lifetime
        import execfam
        execfam.check(chk)
