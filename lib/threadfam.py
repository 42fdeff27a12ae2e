"""C28: threads that use registries of their own (T_Threads: the product of one CoilExec per thread), and registries handed
from thread to thread (T_Exec: the same as if one thread had done everything)."""
import json
from vlib import *
from records import drive_histories
import execfam


def check(chk):
    confs = [("exec_driver", "san"), ("exec_driver", "tsan"), ("exec_driver", "plain")]
    exes = build_all(confs)
    env = dict(VH_CATCH="1", VH_ALIAS="0")
    # every schedule of every pair of the model's scripts
    r = chk.model_check("MC_Threads", env=dict(env, VH_MODEL="C05", VH_DEEP="1" if THOROUGH else "0"), heap="6g")
    sched = sorted({l[6:-1] for l in r.out.splitlines() if l.startswith('"PATH ')})
    chk.notes["model"] = {"schedules": len(sched)}
    limit = 40000 if THOROUGH else 4000
    if len(sched) > limit:
        sched = chk.rng.sample(sched, limit)
    chk.notes["model"]["schedules_replayed"] = len(sched)

    def histories(n, steps):
        out = []
        while len(out) < n:
            prof = dict(execfam.PROFILES[chk.rng.choice(sorted(execfam.PROFILES))], steps=steps, max=max(steps) * 3)
            h = execfam.Gen(chk.rng, prof).history()
            if h:
                out.append(h)
        return out

    def groups(n, steps):
        out = []
        for i in range(n):
            hs = histories(chk.rng.choice([2, 3]), steps)
            if chk.rng.random() < .3:
                hs = [hs[0]] * len(hs)      # the same, at the same time
            out.append("_#%d|%s" % (chk.rng.randrange(1 << 30), "|".join(hs)))
        return out

    many = 15 if THOROUGH else 1
    reports = []

    def record(conf, mode, gs, name):
        return drive_histories(exes[("exec_driver", conf)], gs, os.path.join(chk.dir, name), args=[mode], procs=CPUS if mode != "--free" else CPUS // 2, reports=reports)

    def again(conf, mode, name):
        def redo(gs):
            for _ in range(12 if mode == "--free" and len(gs) == 1 else 1):     # threads running free may meet or not
                lines = record(conf, mode, gs, name)
                if any(l and b'"how":"ok"' not in l for l in lines):
                    break
            return lines
        return redo

    for tag, conf, mode, gs, module in (
            ("schedules of the model", "san", "--lock", sched, "T_Threads"),
            ("random schedules", "san", "--lock", groups(700 * many, [6, 10, 15]), "T_Threads"),
            ("random schedules, defaults", "plain", "--lock", groups(250 * many, [6, 10, 15]), "T_Threads"),
            ("threads running free", "tsan", "--free", groups(500 * many, [15, 30]), "T_Threads"),
            ("handed from thread to thread", "tsan", "--hand", ["_#%d|%s" % (i, h) for i, h in enumerate(histories(500 * many, [10, 15, 20]))], "T_Exec")):
        e = dict(env, VH_CATCH="1" if CONFIGS[conf]["exc"] else "0")
        name = tag.replace(" ", "-").replace(",", "")
        lines = record(conf, mode, gs, name)
        execfam.follow(chk, gs, lines, e, name, again(conf, mode, name), module=module, block=40, reports=reports)
        o = json.loads(lines[0])
        chk.samples.append({"what": tag, "program": gs[0][:300], "order": o.get("order", [])[:40]})
