"""Conformance of independent observations: driver output lines -> blocks -> TLC (Records.tla)."""
import json, os, re
from vlib import *


def drive(exe, args, out, timeout=700):
    r = run([exe] + args + [out], timeout=timeout, env={"ASAN_OPTIONS": ASAN, "UBSAN_OPTIONS": "print_stacktrace=0", "TSAN_OPTIONS": "halt_on_error=1:exitcode=99"})
    if r.returncode != 0:
        raise CheckError("driver %s failed (%d):\n%s" % (os.path.basename(exe), r.returncode, r.stdout.decode(errors="replace")[-3000:]))
    return r.stdout.decode(errors="replace")


def drive_histories(exe, histories, base, timeout=700, args=(), procs=CPUS, reports=None):
    """One recording per history (None where a driver gave up after many crashes), made by several processes."""
    n = max(1, min(procs, len(histories) // 50))
    parts = [histories[k * len(histories) // n:(k + 1) * len(histories) // n] for k in range(n)]

    def one(k):
        ifile, out = "%s-in%d" % (base, k), "%s-out%d" % (base, k)
        with open(ifile, "w") as f:
            f.write("\n".join(parts[k]) + "\n")
        said = drive(exe, list(args) + [ifile], out, timeout)
        if reports is not None and said:
            reports.append(said[:4000])
        lines = open(out, "rb").read().split(b"\n")[:-1]
        if len(lines) < len(parts[k]) and any(b'"how":"crash"' in l or b'"how":"hang"' in l for l in lines):
            lines += [None] * (len(parts[k]) - len(lines))
        if len(lines) != len(parts[k]):
            raise CheckError("%s: %d recordings of %d histories" % (os.path.basename(exe), len(lines), len(parts[k])))
        return lines

    with ThreadPoolExecutor(n) as ex:
        return [l for ls in ex.map(one, range(n)) for l in ls]


def check_records(chk, module, lines, env, tag, describe, inputs, redo, block=250):
    """lines: one JSON observation per input. Raises Violation for a confirmed rejection."""
    if len(lines) != len(inputs) and not any(b'"how":"crash"' in l or b'"how":"hang"' in l for l in lines):
        raise CheckError("%s: %d observations for %d inputs" % (tag, len(lines), len(inputs)))
    d = os.path.join(chk.dir, "blocks-" + tag)
    os.makedirs(d, exist_ok=True)

    def write(ls):
        n = 0
        for i in range(0, len(ls), block):
            n += 1
            with open(os.path.join(d, str(n)), "wb") as f:
                f.write(b"\n".join(ls[i:i + block]) + b"\n")
        return n

    n = write(lines)
    e = dict(env, VH_BLOCKS=d, VH_NBLOCKS=str(n))
    r = tlc(module, env=e)
    if r.ok:
        if r.distinct != 1 + n + len(lines):
            raise CheckError("%s: TLC visited %d states for %d observations" % (tag, r.distinct, len(lines)))
        chk.observed(r, len(lines), {"what": tag, "module": module})
        return
    m = re.search(r'<<"rec", (\d+), (\d+)>>', r.trace[-1].get("pos", "")) if r.trace else None
    if not m:
        raise CheckError("%s: TLC rejected without a position:\n%s" % (tag, r.out[-3000:]))
    idx = (int(m.group(1)) - 1) * block + int(m.group(2)) - 1
    # a rejection counts when a fresh run of the code repeats it
    again = redo()
    if idx >= len(again) or again[idx] != lines[idx]:
        r2 = None
        if idx < len(again):
            write([again[idx]])
            r2 = tlc(module, env=dict(e, VH_NBLOCKS="1"))
        # what was recorded did happen; only a crash or a hang may have a cause outside of the code
        if (r2 is None or r2.ok) and b'"how":"ok"' not in lines[idx]:
            raise CheckError("%s: observation %d was rejected but is not repeatable: %r" % (tag, idx, lines[idx][:400]))
    what = describe(inputs[idx], lines[idx])
    replay = chk.save_replay(tag, {"input": inputs[idx] + "\n", "observation.json": lines[idx] + b"\n",
                                   "README": "%s\nThe driver's input line is in 'input', what the code did in 'observation.json';\n"
                                             "spec/%s.tla (with %s) does not allow it.\n" % (what, module, env),
                                   "tlc.txt": r.out})
    raise Violation(replay, what)
