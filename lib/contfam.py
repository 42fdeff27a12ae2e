"""C22-C26: the containers.  Histories generated by TLC from the specifications' state graphs and by seeded random
search, run on the code, and followed by T_Vector, T_String, T_Holder, T_UniquePtr and T_Map."""
from vlib import *
from records import drive_histories
from execfam import follow


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


class Gen:
    """Writes one history.  Which slots are alive only steers the choices: the driver skips what makes no sense."""

    def __init__(self, rng):
        self.rng, self.out, self.live = rng, [], set()
        self.slots = rng.choice([2, 3, 4, 4])
        self.faulty = rng.random() < .25      # some copies or allocations fail

    faults = ["allocs"]

    def op(self, *f):
        if self.faulty and self.rng.random() < .35 and f[0] not in ("hash", "keys"):
            self.out.append("arm %s %d" % (self.rng.choice(self.faults), self.rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 7, 10])))
        self.out.append(" ".join(str(x) for x in f))

    def alive(self):
        return self.rng.choice(sorted(self.live)) if self.live else 0

    def fresh(self):
        d = [s for s in range(self.slots) if s not in self.live]
        return self.rng.choice(d) if d else None

    def common(self, k):
        """Operations of every container; False if k is not one of them."""
        if k in ("cctor", "mctor"):
            d = self.fresh()
            if d is not None and self.live:
                self.op(k, d, self.alive())
                self.live.add(d)
        elif k in ("cas", "mas"):
            if self.live:
                d = self.alive()
                self.op(k, d, d if self.rng.random() < .25 else self.alive())
        elif k == "drop":
            if self.live:
                s = self.alive()
                self.op(k, s)
                self.live.discard(s)
        elif k in ("eq", "cmp"):
            if self.live:
                self.op(k, self.alive(), self.alive())
        else:
            return False
        return True

    def history(self, head):
        self.out.append(head)
        weights = self.weights(self.rng)
        n = self.rng.choice([5, 10, 20, 40, 80])
        while n > 0 and len(self.out) < 120:
            n -= 1
            k = self.rng.choices(list(weights), list(weights.values()))[0]
            if not self.live or k == "make":
                d = self.fresh()
                if d is not None:
                    self.make(d)
                    self.live.add(d)
            elif not self.common(k):
                self.own(k)
        return ";".join(self.out)


def wobble(rng, w):
    """Every history stresses some operations and neglects others."""
    return {k: v * rng.choice([.2, 1, 1, 3]) for k, v in w.items()}


class Vectors(Gen):
    faults = ["copies", "copies", "allocs"]

    def weights(self, rng):
        return wobble(rng, dict(make=1, push=7, pushown=2, pop=2, resize=2, reserve=1, clear=.5, put=2, cctor=1, mctor=1, cas=1, mas=1, eq=1, drop=.6))

    def value(self):
        return self.rng.randrange(1, 100)

    def make(self, d):
        if self.rng.random() < .4:
            self.op("from", d, ",".join(str(self.value()) for _ in range(self.rng.choice([0, 1, 2, 3, 5, 9, 17]))) or "-")
        else:
            self.op("make", d, self.rng.choice([0, 0, 0, 1, 2, 3, 7, 16]))

    def own(self, k):
        rng, s = self.rng, self.alive()
        if k == "push":
            for _ in range(rng.choice([1, 1, 1, 2, 5, 12] if rng.random() < .99 else [40, 70, 140])):
                self.op(k, s, self.value())
        elif k == "pushown":
            self.op(k, s, rng.choice([0, 0, 1, 2, 3, 5]))
        elif k in ("pop", "clear"):
            self.op(k, s)
        elif k in ("resize", "reserve"):
            self.op(k, s, rng.choice([0, 1, 2, 3, 4, 5, 8, 13, 31] if rng.random() < .98 else [64, 65, 100, 255]))
        elif k == "put":
            self.op(k, s, rng.choice([0, 0, 1, 2, 3, 7]), self.value(), rng.choice(["it", "idx", "data", "front", "back"]))


WORDS = [b"", b"a", b"ab", b"bA", b"\0", b"a\0b", b"\0\0", b"\xff\x80", b"hello world", b"x" * 15, b"x" * 16, b"y" * 40, b"\x7f", b"aa", b"aaa", b"y" * 20 + b"\0" + b"z" * 21, b"\0" * 33, b"x" * 63 + b"\0"]


class Strings(Gen):
    def weights(self, rng):
        return wobble(rng, dict(make=1, app=6, apps=4, cat=1.5, reserve=1, resize=2, put=1.5, cmp=2, cmpt=2, sub=2, cctor=1, mctor=1, cas=1, mas=1, drop=.6))

    def text(self):
        rng = self.rng
        if rng.random() < .6:
            return pick(rng, WORDS)
        if rng.random() < .04:
            return bytes(rng.choice(b"\0ab\xff") for _ in range(rng.choice([rng.randint(0, 300), rng.randint(0, 1100), rng.choice([127, 128, 129, 255, 256, 257, 511, 512, 513])])))
        return bytes(rng.choice([0, 97, 98, 255, 128, 32, 10]) for _ in range(rng.choice([1, 2, 3, 6])))

    def make(self, d):
        t = self.text()
        self.op("make", d, hexs(t), self.rng.choice(["c", "none", "view", "len"]))

    def own(self, k):
        rng, s = self.rng, self.alive()
        if k == "app":
            t = self.text() if rng.random() < .7 else bytes([rng.choice([0, 97, 200])])
            self.op(k, s, hexs(t), rng.choice(["c", "char", "str", "view", "len"]))
        elif k == "apps":
            off = rng.choice([0, 0, 0, 1, 2, 5])
            self.op(k, s, s if rng.random() < .6 else self.alive(), off, rng.choice([0, 1, 2, 3, 4, 7, 11, 16]), rng.choice(["str", "view", "c", "char", "len"]))
            if rng.random() < .5:
                self.op(k, s, s, 0, 1, "len")
        elif k == "cat":
            d = self.fresh()
            if d is not None:
                self.op(k, d, s, hexs(self.text()), rng.choice(["c", "char", "str", "view"]))
                self.live.add(d)
        elif k == "reserve":
            self.op(k, s, rng.choice([0, 1, 2, 7, 20, 64]))
        elif k == "resize":
            self.op(k, s, rng.choice([0, 0, 1, 2, 3, 5, 9, 33]), rng.choice(["61", "00", "ff"]))
        elif k == "put":
            self.op(k, s, rng.choice([0, 0, 1, 2, 3, 7, 14]), rng.choice(["61", "00", "c8"]), rng.choice(["data", "back"]))
        elif k == "cmpt":
            self.op(k, s, hexs(self.text()))
        elif k == "sub":
            for _ in range(3):
                self.op(k, s, rng.choice([0, 0, 1, 2, 3, 5]), rng.choice([0, 1, 2, 3, 4, 10]))


class Maps(Gen):
    faults = ["copies", "copies", "allocs"]

    def weights(self, rng):
        self.keys = rng.choice([3, 5, 8, 11, 16]) if rng.random() < .95 else rng.choice([30, 60, 140])
        self.slots = 1 if self.keys > 20 else self.slots
        if rng.random() < .5:
            self.slots = 1
        return wobble(rng, dict(make=.5, ins=9, insown=.5, erase=6, eraseown=1, clear=.3, mut=1.5, cctor=.5, mctor=.5, cas=.5, mas=.5, drop=.3))

    def make(self, d):
        rng = self.rng
        if not self.live and rng.random() < .8:
            self.op("hash", rng.randrange(7))
        if not self.live and self.keys > 16:
            self.op("keys", self.keys)
        k = rng.random()
        if k < .2:
            self.op("make", d)
        elif k < .5:
            self.op("make", d, rng.choice([0, 1, 2, 3, 4, 7, 16]))
        else:
            self.op("make", d, rng.choice([0, 1, 2, 3, 4, 7, 16]), rng.choice([0, 25, 50, 100, 150, 300, 1000, 100000]))

    def own(self, k):
        rng, s = self.rng, self.alive()
        key = rng.randrange(self.keys)
        if k == "ins":
            for _ in range(rng.choice([1, 1, 2, 4]) if self.keys < 20 else rng.choice([1, 4, 20])):
                self.op(k, s, rng.randrange(self.keys), rng.randrange(1, 1000))
        elif k == "erase":
            self.op(k, s, key, rng.choice(["key", "other"]))
        elif k in ("insown", "eraseown"):
            self.op(k, s, key)
        elif k == "clear":
            self.op(k, s)
        elif k == "mut":
            self.op(k, s, key, rng.randrange(1, 1000), rng.choice(["it", "find"]))


class Optionals(Gen):
    faults = ["copies", "copies", "allocs"]

    def weights(self, rng):
        return wobble(rng, dict(make=2, set=3, reset=2, put=2, cctor=1, mctor=1, cas=4, mas=4, eq=2, eqv=1, drop=.6))

    def make(self, d):
        if self.rng.random() < .4:
            self.op("none", d)
        else:
            self.op("val", d, self.rng.randrange(1, 9), self.rng.choice(["copy", "move"]))

    def own(self, k):
        rng, s = self.rng, self.alive()
        self.op(k, s, rng.randrange(1, 9), rng.choice(["copy", "move", "own", "arrow", "star"]))


class Expecteds(Gen):
    faults = ["copies", "copies", "allocs"]

    def weights(self, rng):
        return wobble(rng, dict(make=2, setv=2, sete=2, put=2, take=1, cctor=1, mctor=1, cas=4, mas=4, eq=2, eqv=1, eqe=1, drop=.6))

    def make(self, d):
        if self.rng.random() < .5:
            self.op("err", d, self.rng.randrange(1, 9), self.rng.choice(["conv", "lval", "cconv", "lconv", "lwrap", "cwrap", "rwrap", "direct"]))
        else:
            self.op("val", d, self.rng.randrange(1, 9))

    def own(self, k):
        self.op(k, self.alive(), self.rng.randrange(1, 9), self.rng.choice(["conv", "direct", "lval", "lwrap", "star", "arrow", "value"]))


class Pointers(Gen):
    def weights(self, rng):
        self.faulty = False
        self.slots = 4
        return wobble(rng, dict(make=3, set=2, cctor=0.001, mctor=2, mas=4, conv=3, cas=3, drop=1))

    def make(self, d):
        self.op(*self.rng.choice([("null", d), ("make", d, "new"), ("make", d, "make"), ("make", d, "make")]))

    def own(self, k):
        rng = self.rng
        if k == "set":
            self.op(k, self.alive(), rng.choice(["conv", "make", "make"])) if rng.random() < .7 else self.op("unset", self.alive(), rng.choice(["empty", "nullptr", "conv"]))
        elif k == "conv":
            d = self.fresh()
            if d is not None and d > 1 and self.live & {0, 1}:
                self.op(k, d, rng.choice(sorted(self.live & {0, 1})))
                self.live.add(d)
        elif k == "cas":
            self.op(k, rng.choice([2, 3]), rng.choice([0, 1]))


def counted(rng, spec, heads):
    """Any number of elements, bytes, keys."""
    out = []
    h = lambda b: hexs(b)
    add = lambda *ops: out.append(";".join((pick(rng, heads),) + ops))
    if spec == "Vector":
        for n in COUNTS:
            v = ",".join(str(1 + i % 97) for i in range(n)) or "-"
            add("from 0 " + v, "push 0 98", "cctor 1 0", "eq 0 1", "pushown 1 0", "pushown 1 %d" % max(0, n - 1), "eq 0 1", "mas 2 0", "mctor 2 0", "pop 2", "reserve 2 %d" % (n + 3), "clear 2", "push 2 5")
            add("make 0 0", "resize 0 %d" % n, "push 0 3", "resize 0 %d" % (n + 2), "make 1 %d" % n, "push 1 3", "reserve 1 %d" % (n + 5), "push 1 4", "cas 0 1", "cas 1 1", "mas 1 1", "resize 0 %d" % (n // 2), "eq 0 1")
        for n in (130, 258):
            add("make 0 0", *["push 0 %d" % (1 + i % 97) for i in range(n)] + ["pop 0"] * n)
    elif spec == "String":
        for i in range(0, len(LENGTHS), 2):
            ops = []
            for k, n in enumerate(LENGTHS[i:i + 2]):
                x = b"x" * n
                y = x[:-1] + b"y" if n else b""
                ops += ["make 0 %s %s" % (h(x), rng.choice(["c", "view", "len"])), "app 0 61 char", "app 0 %s %s" % (h(x), rng.choice(["c", "str", "view", "len"])), "cmpt 0 %s" % h(x + b"a" + y),
                        "sub 0 %d 2" % n, "sub 0 0 %d" % n, "apps 0 0 0 %d view" % n, "make 1 %s view" % h(x + b"a"), "resize 0 %d 61" % (n + 1), "cmp 0 1", "reserve 1 %d" % (n + 2), "cas 0 1", "app 1 00 char", "cmp 0 1",
                        "resize 1 %d 00" % (n // 2), "cat 2 1 %s %s" % (h(y), rng.choice(["c", "str", "view"])), "drop 2", "drop 1", "drop 0"]
            add(*ops)
    elif spec == "Map":
        for n in (24, 33, 65, 130, 200, 258, 300):
            for hash in ([0, 1, 2, 3, 4, 5, 6] if n < 66 else rng.sample(range(7), 2)):
                keys = rng.sample(range(n), n)
                ops = ["hash %d" % hash, "keys %d" % n, "make 0"] + ["ins 0 %d %d" % (k, 1 + k) for k in keys]
                ops += ["cctor 1 0"] if n < 66 else []
                ops += ["erase 0 %d key" % k for k in rng.sample(keys, n)]
                out.append(";".join([heads[0]] + ops + ["ins 0 1 5"]))
    return out


# property -> [(specification, environment, heads of the histories, generator)]
FAMILIES = {
    "C22": [("Vector", {}, ["vec.elem", "vec.elem", "vec.string", "vec.int", "vec.char", "vec.copy"], Vectors)],
    "C23": [("String", {}, ["str"], Strings)],
    "C24": [("Holder", {"VH_EXPECTED": "0"}, ["opt"], Optionals), ("Holder", {"VH_EXPECTED": "1"}, ["exp"], Expecteds)],
    "C25": [("UniquePtr", {}, ["ptr"], Pointers)],
    "C26": [("Map", {}, ["map.key", "map.key", "map.string", "map.int"], Maps)],
}


def maximal(paths):
    whole = set(paths)
    for p in paths:
        whole.discard(p.rpartition(";")[0])
    return sorted(whole)


def known(chk, program, what, env, tag, record):
    """A recorded finding: does exactly this history still fail?"""
    try:
        follow(chk, [program], record("san", [program]), env, tag + "-known", lambda hs: record("san", hs), module="T_Holder", driver="cont_driver")
    except Violation as v:
        shutil.rmtree(v.replay, ignore_errors=True)
        print("KNOWN-FINDING: property=%s %s" % (chk.prop, what))
        chk.notes.setdefault("known findings", []).append(what)


def check(chk):
    confs = ["san", "plain"]
    exes = build_all([("cont_driver", c) for c in confs])
    for spec, env, heads, gen in FAMILIES[chk.prop]:
        tag = heads[0].split(".")[0]
        r = chk.model_check("MC_" + spec, env=dict(env, VH_DEEP="1" if THOROUGH else "0"), heap="8g")
        paths = [l[6:-1] for l in r.out.splitlines() if l.startswith('"PATH ')]
        whole = maximal(paths)
        limit = (100000 if THOROUGH else 6000) // len(FAMILIES[chk.prop])
        note = {"transitions": len(paths), "maximal_programs": len(whole)}
        if len(whole) > limit:
            whole = chk.rng.sample(whole, limit)
        note["programs_replayed"] = len(whole)
        hist = [pick(chk.rng, heads) + p for p in whole]
        seen = set(hist)
        n = (40000 if THOROUGH else 2500) // len(FAMILIES[chk.prop])
        note["random_histories"] = n
        while n > 0:
            h = gen(chk.rng).history(pick(chk.rng, heads))
            if h not in seen:
                seen.add(h)
                hist.append(h)
                n -= 1

        crowds = counted(chk.rng, spec, heads)
        hist += crowds
        note["numbers_of_things"] = len(crowds)

        def record(conf, hs):
            return drive_histories(exes[("cont_driver", conf)], hs, os.path.join(chk.dir, conf))

        base = record("san", hist)
        follow(chk, hist, base, env, tag + "-san", lambda hs: record("san", hs), module="T_" + spec, driver="cont_driver")
        base = dict(zip(hist, base))
        lines = record("plain", hist)
        sub = [(h, l) for h, l in zip(hist, lines) if l != base[h]]
        note["plain_build"] = "%d of %d recordings equal those of the sanitized build" % (len(hist) - len(sub), len(hist))
        if sub:
            follow(chk, [h for h, _ in sub], [l for _, l in sub], env, tag + "-plain", lambda hs: record("plain", hs), module="T_" + spec, driver="cont_driver", full=hist)
        chk.notes["model " + tag] = note
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=%s history=(\S+ \S.*?) :: (.*)" % chk.prop, line)
            if m and m.group(1).split(";")[0] in heads:
                known(chk, m.group(1), m.group(2), env, tag, record)
        for h in chk.rng.sample(hist[-100:], 2):
            chk.samples.append({"program": h[:400], "recording": base[h][:600].decode(errors="replace")})
