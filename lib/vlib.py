"""Common machinery of the checks: building the drivers from /repo, running TLC, evidence, verdicts."""
import fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CPUS = os.cpu_count() or 4
CXX = "g++"

# Build configurations of coil.  san: asserts and exceptions on, with sanitizers.  plain: the library defaults.
# sanx: like san, but exceptions pass through.  alias: integer aliases in type names.
CONFIGS = {
    "san": dict(flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                       "-fno-omit-frame-pointer", "-DCOIL_CONFIG_ENABLE_ASSERTS=1", "-DCOIL_CONFIG_CATCH_EXCEPTIONS=1"],
                asserts=True, exc=True, alias=False),
    "sanx": dict(flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                        "-fno-omit-frame-pointer", "-DCOIL_CONFIG_ENABLE_ASSERTS=1"],
                 asserts=True, exc=False, alias=False),
    # only the library's own synchronisation (none) and the threads' start and end order what is done
    "tsan": dict(flags=["-O1", "-g1", "-fsanitize=thread", "-DCOIL_CONFIG_ENABLE_ASSERTS=1", "-DCOIL_CONFIG_CATCH_EXCEPTIONS=1"],
                 asserts=True, exc=True, alias=False),
    # for very large things: the sanitizers take too long
    "fast": dict(flags=["-O2", "-DCOIL_CONFIG_ENABLE_ASSERTS=1", "-DCOIL_CONFIG_CATCH_EXCEPTIONS=1"], asserts=True, exc=True, alias=False),
    "plain": dict(flags=["-O2"], asserts=False, exc=False, alias=False),
    "alias": dict(flags=["-O1", "-DCOIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS=1", "-DCOIL_CONFIG_ENABLE_ASSERTS=1",
                         "-DCOIL_CONFIG_CATCH_EXCEPTIONS=1"],
                  asserts=True, exc=True, alias=True),
}
ASAN = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:print_legend=0"


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


class Violation(Exception):
    def __init__(self, replay, what):
        super().__init__(what)
        self.replay, self.what = replay, what


class Uncompilable(Exception):
    """A program that uses the library's interface compiled at the pinned commit and is now rejected by the compiler."""


def run(cmd, timeout=600, env=None, cwd=None, stdout=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=stdout or subprocess.PIPE,
                              stderr=subprocess.STDOUT if stdout is None else subprocess.PIPE)
    except subprocess.TimeoutExpired:
        raise CheckError("timeout: %s" % " ".join(cmd[:4]))


def _files(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


def _tree_hash(extra):
    h = hashlib.sha256()
    for f in _files(os.path.join(REPO, "include"), (".h", ".hpp", ".inl")) + _files(os.path.join(REPO, "src"), (".h", ".hpp", ".cpp")):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    for x in extra:
        h.update(x if isinstance(x, bytes) else x.encode())
    return h.hexdigest()[:20]


LINK = {d: ["-Wl,--wrap=_Znwm,--wrap=_Znam"] for d in ("cont_driver", "exec_driver")}


def build(driver, config):
    """Builds harness/<driver>.cpp with coil's sources from /repo's working tree; returns the executable."""
    flags = CONFIGS[config]["flags"]
    dfiles = sorted(glob.glob(os.path.join(HARNESS, driver + ".cpp")) + glob.glob(os.path.join(HARNESS, driver + ".p*.cpp")))
    hfiles = _files(HARNESS, (".h",)) + dfiles
    common = ["-std=c++17", "-w", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS] + flags
    libdir = os.path.join(BUILD, "lib-%s-%s" % (config, _tree_hash(common)))
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (driver, config, _tree_hash([open(f, "rb").read() for f in hfiles] + common)))
    os.makedirs(libdir, exist_ok=True)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    with open(libdir + ".lock", "w") as lock, open(exe + ".lock", "w") as lock2:
        fcntl.flock(lock2, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = []
        objs = []
        for src in _files(os.path.join(REPO, "src"), (".cpp",)):
            obj = os.path.join(libdir, os.path.relpath(src, os.path.join(REPO, "src")).replace("/", "_") + ".o")
            objs.append(obj)
            if not os.path.exists(obj):
                jobs.append((src, obj))
        dobjs = []
        for src in dfiles:
            dobjs.append("%s.%d.o" % (exe, len(dobjs)))
            jobs.insert(0, (src, dobjs[-1]))

        def comp(j):
            tmp = j[1] + ".%d.tmp" % os.getpid()
            r = run([CXX] + common + ["-c", j[0], "-o", tmp], timeout=400)
            if r.returncode == 0:
                os.rename(tmp, j[1])
            return r

        with ThreadPoolExecutor(CPUS) as ex:
            bad = [(j, r.stdout.decode(errors="replace")) for j, r in zip(jobs, ex.map(comp, jobs)) if r.returncode != 0]
        for j, out in bad:
            if j[0] not in dfiles:
                raise CheckError("compilation failed:\n" + out[:6000])
        for j, out in bad:
            r = comp(j)
            out = r.stdout.decode(errors="replace")
            if r.returncode == 0:
                continue
            if re.search(r"^\S+:\d+:\d+: error: ", out, re.M) and not re.search(r"Killed|internal compiler error", out):
                raise Uncompilable("%s: %s\n%s" % (os.path.relpath(j[0], VERIF), re.search(r": error: (.*)", out).group(1), out[:6000]))
            raise CheckError("compilation failed:\n" + out[:6000])
        r = run([CXX] + flags + LINK.get(driver, []) + dobjs + objs + ["-o", exe + ".tmp"], timeout=300)
        if r.returncode != 0:
            raise CheckError("link failed:\n" + r.stdout.decode(errors="replace")[:6000])
        for o in dobjs:
            os.remove(o)
        os.rename(exe + ".tmp", exe)
    return exe


def build_all(pairs):
    with ThreadPoolExecutor(len(pairs)) as ex:
        return dict(zip(pairs, ex.map(lambda p: build(*p), pairs)))


TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcResult:
    pass


def tlc(module, cfg=None, env=None, workers=None, timeout=800, heap="3g", extra=(), simulate=None):
    """Runs TLC on spec/<module>.tla; returns states/transitions, and the outcome."""
    tmp = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx" + heap, "-cp", TLA_CP, "tlc2.TLC",
               "-workers", str(workers or CPUS), "-metadir", tmp, "-noGenerateSpecTE", "-config", cfg or module + ".cfg"]
        cmd += list(extra) + [module + ".tla"]
        t0 = time.time()
        r = run(cmd, timeout=timeout, env=env, cwd=SPEC)
        out = r.stdout.decode(errors="replace")
        res = TlcResult()
        res.out, res.rc, res.wall = out, r.returncode, time.time() - t0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        res.generated, res.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        res.ok = "Model checking completed. No error has been found." in out
        res.invariant = None
        m = re.search(r"Invariant (\w+) is violated", out) or re.search(r"Action property (\w+) is violated", out)
        if m:
            res.invariant = m.group(1)
        res.deadlock = "Deadlock reached" in out
        res.trace = parse_error_trace(out)
        res.coverage = parse_coverage(out)
        if not (res.ok or res.invariant or res.deadlock):
            raise CheckError("TLC failed on %s:\n%s" % (module, "\n".join(l for l in out.splitlines() if not re.match(r"(Semantic|Linting|Parsing)", l))[-6000:]))
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def parse_error_trace(out):
    """The states of TLC's error trace, each a dict variable -> text."""
    states = []
    for m in re.finditer(r"^State \d+: [^\n]*\n((?:(?!^$).*\n?)*)", out, re.M):
        st = {}
        cur = None
        for line in m.group(1).splitlines():
            mm = re.match(r"(?:/\\ )?(\w+) = (.*)", line)
            if mm:
                cur = mm.group(1)
                st[cur] = mm.group(2)
            elif cur:
                st[cur] += " " + line.strip()
        states.append(st)
    return states


def parse_coverage(out):
    cov = {}
    for m in re.finditer(r"^<(\w+) line \d+[^>]*>: ([\d,]+):([\d,]+)", out, re.M):
        cov[m.group(1)] = cov.get(m.group(1), 0) + int(m.group(3).replace(",", ""))
    return cov


class Check:
    """Book-keeping of one run of one property's check."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.rng = random.Random("%s-%d" % (prop, SEED))
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.notes = {}
        self.dir = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
        self.replays = os.path.join(BUILD, "replays", prop)

    def model_check(self, module, cfg=None, **kw):
        """Exhaustive check of the specification itself: a failure is an error of the specification."""
        r = tlc(module, cfg, **kw)
        if not r.ok:
            raise CheckError("the specification %s violates %s:\n%s" % (module, r.invariant or "deadlock freedom", r.out[-5000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("specification", {})[cfg or module] = {"distinct_states": r.distinct, "states_generated": r.generated, "wall_s": round(r.wall, 1)}
        return r

    def observed(self, r, n, what):
        self.states += r.distinct
        self.transitions += r.generated
        self.validated += n
        self.notes.setdefault("conformance", []).append(dict(what, validated=n, distinct_states=r.distinct, wall_s=round(r.wall, 1)))

    def save_replay(self, name, files):
        d = os.path.join(self.replays, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f, content in files.items():
            with open(os.path.join(d, f), "wb") as fh:
                fh.write(content if isinstance(content, bytes) else content.encode())
        return d

    def finish(self, level="model_checking", assumptions=()):
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": level,
            "coverage": dict({"states": self.states, "transitions": self.transitions,
                              "traces_validated_against_impl": self.validated, "samples": self.samples[:6]}, **self.notes),
            "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
            "violations": 0,
        }
        self.write(ev)
        self.cleanup()

    def write(self, ev):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# Lengths of texts: all of them up to one, then the neighbourhoods of the sizes buffers are given.
LENGTHS = list(range(0, 530 if not THOROUGH else 2100)) + [n + d for n in ((640, 768, 800, 1000, 1024, 2048, 4096) if not THOROUGH else (2500, 3000, 4096, 5000, 8192, 10000, 16384))
                                                          for d in (-2, -1, 0, 1)]


# words that some program might treat specially; nothing here does
DICTIONARY = [w.encode("latin-1") for w in (
    "yes no on off y n t f T F Y N null NULL Null nil none None undefined void default auto empty true True TRUE false False FALSE enable disable "
    "- -- --- _ __ * ** . .. ... / // \\ \\\\ # ## #c //c /*c*/ -c --c ;c % %% %s %d %n %c $ $c ${c} $(c) @ @c & && c&&d c> >c >> < ~ ~/c ^ ! !c !! ? c? + ++ "
    "0x10 0X1F 0b101 0o17 017 1_000 12_000 1_2 1'000 1k 1K 1M 1G 50% 1h 10s 5u 5U 5l 5L 5ll 5LL 5ul 1f 1.5f 1.0 1. .5 1e3 1E3 1e+3 2^8 1/2 1+1 -0 +0 00 -00 +5 -5 "
    "inf -inf infinity nan NaN INF 0x1p3 0x.8 1.#INF "
    "[1] [1,2] [] {} {1} <1> [x] [null] a.b a.b.c .a a. a:b a::b a-b a/b a\\b a+b a*b a[0] a{} a<b> self this help exit quit -h --help --a --ab --a-b -abc "
    "\\n \\t \\0 \\x41 \\' a\\ \\a \x01 \x7f \x80 \xa0 \xff \xef\xbb\xbf \xc2\xa0 \x1a \x1b[0m \x0b \x0c c\x0b \x0bc \x0cc c\x0c \x85 "
    "red RED Red reD green Green blue Blue purple 0 1 2 3 10 true1 1true string int bool value vector optional").split(" ")] + [
    b"\x00", b"\x00\x00", b"a\x00", b"\x00a", b"1\x00", b"\n", b"\r\n", b"a\n", b"\na", b"a\r", b"\t", b" ", b"  ", b" a", b"a ", b"\ta", b"a\t", b"a b", b"a  b", b"a\nb", b"%s%s%n",
    b"'", b'"', b"''", b'""', b"'a'", b'"a"', b"'1'", b"(", b")", b"()", b"(a)", b"(1)", b"(1, 2)", b"=", b"==", b"a=", b"=a", b"a=b", b"a = b", b"a==b", b",", b",,", b"a,", b",a", b"a,b", b"1,2",
    b";", b"a;b", b";;", b"|", b"a|b", b"||", b"a, b", b"a; b", b"f f", b"No", b"Syntax error: ", b"Exception caught during execution", b"rem x", b"1 2", b" 1", b"1 ", b"1\n", b"\n1"]
DICTIONARY = list(dict.fromkeys(DICTIONARY))


def show_bytes(b):
    """A byte list (or bytes) as readable text."""
    return "".join(chr(c) if 32 <= c < 127 and c != 92 else "\\x%02x" % c for c in b)


def hexs(b):
    return bytes(b).hex() or "-"
# numbers of things: around every plausible limit
COUNTS = sorted(set(list(range(0, 21)) + [24, 25, 30, 31, 32, 33, 34, 40, 48, 50, 51, 60, 63, 64, 65, 66, 70, 80, 99, 100, 101, 102, 120, 127, 128, 129, 130, 150, 199, 200, 201,
                                          250, 254, 255, 256, 257, 258, 299, 300, 301] + ([] if not THOROUGH else list(range(20, 300, 3)) + [399, 400, 401, 499, 500, 511, 512, 513, 514])))
MANY = [510, 512, 513, 600, 1000, 1001, 1023, 1024, 1025, 1100] + ([] if not THOROUGH else [2000, 2048, 2049, 4096, 4097])
