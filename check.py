#!/usr/bin/env python3
"""check.py PROPERTY - decides one property by seeded search over simulated runs.

Builds the simulator from /repo's working tree, runs `llsim sweep` in several worker processes with
runs numbered from VERIF_SEED, and turns the first violation into a minimised replay file.
Exit 0: held on everything explored; 1: violated (a VIOLATION line is printed); 2: error of the check.
check.py replay FILE   runs a replay file and prints what happens."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import build  # noqa: E402

QUICK_S = float(os.environ.get("LLSIM_SECONDS", "45"))
THOROUGH_S = float(os.environ.get("LLSIM_SECONDS", "600"))
MINIMISE_S = 45
STUCK = {"hang", "no-progress", "memory-exhausted"}
OUT = os.environ.get("LLSIM_OUT", VERIF)  # where evidence/ and replays/ go


# ------------------------------------------------------------------ running one plan
class Runner:
    def __init__(self, llsim, tmp):
        self.llsim, self.tmp, self.n = llsim, tmp, 0
        self.env = dict(os.environ, LLSIM_TMP=tmp)

    def run(self, text, out=None, timeout=200):
        self.n += 1
        p = os.path.join(self.tmp, "p%d.plan" % (self.n % 7))
        with open(p, "w") as f:
            f.write(text)
        cmd = [self.llsim, "run", p] + ([out] if out else [])
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, env=self.env)
            return json.loads(r.stdout.decode("utf-8", "replace"))
        except (subprocess.TimeoutExpired, ValueError):
            return {"done": 3, "cls": "", "msg": "", "hash": ""}


# --------------------------------------------------------------------- minimisation
class Plan:
    def __init__(self, text):
        self.head, self.lists, self.ops, self.sched = [], [], [], None
        for line in text.splitlines():
            if line.startswith("list"):
                self.lists.append(line.split(" ")[1:])
            elif line.startswith("op "):
                self.ops.append(line)
            elif line.startswith("sched"):
                self.sched = line.split(" ")[1:]
            elif line.startswith("cfg "):
                self.cfg = line.split(" ")[1:]
            else:
                self.head.append(line)

    def copy(self):
        q = Plan("")
        q.head, q.lists, q.ops = list(self.head), [list(x) for x in self.lists], list(self.ops)
        q.cfg = list(self.cfg)
        q.sched = None if self.sched is None else list(self.sched)
        return q

    def text(self):
        o = self.head + ["cfg " + " ".join(self.cfg)]
        o += [" ".join(["list"] + x) for x in self.lists] + self.ops
        if self.sched is not None:
            o.append(" ".join(["sched"] + self.sched))
        return "\n".join(o) + "\n"


def shorter(tok):
    """Simpler variants of one encoded term."""
    if tok.startswith("="):
        s = tok[1:]
        return ["=" + s[: len(s) // 2], "=" + s[:-1], "=" + s[1:]] if s else []
    if tok.startswith("x"):
        b = [tok[i:i + 2] for i in range(1, len(tok), 2)]
        return ["x" + "".join(v) if v else "=" for v in (b[: len(b) // 2], b[:-1], b[1:])] if b else []
    return []


def term_key(tok):
    return tok[1:].encode() if tok.startswith("=") else bytes.fromhex(tok[1:])


class Minimiser:
    def __init__(self, runner, cls, deadline):
        self.r, self.cls, self.deadline = runner, cls, deadline

    def left(self):
        return time.time() < self.deadline

    def fails(self, plan, seeds=1):
        base = plan.cfg[0]
        threaded = any(not o.startswith(("op 0 ", "op 9 ")) for o in plan.ops)
        for k in range(seeds if threaded and plan.sched is None else 1):
            if not self.left():
                return False
            q = plan
            if k:
                q = plan.copy()
                q.cfg[0] = str((int(base) + 7919 * k) % (1 << 64))
            res = self.r.run(q.text())
            if res["done"] == 2 and res["cls"] == self.cls:
                if k:
                    plan.cfg[0] = q.cfg[0]
                return True
        return False

    def chunks(self, plan, get, put, seeds):
        """ddmin over the items of one list attribute."""
        n = 2
        while self.left():
            items = get(plan)
            if not items:
                break
            size = max(1, (len(items) + n - 1) // n)
            hit = False
            for i in range(0, len(items), size):
                q = plan.copy()
                put(q, items[:i] + items[i + size:])
                if self.fails(q, seeds):
                    plan, hit = q, True
                    n = max(2, n - 1)
                    break
            if not hit:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return plan

    def minimise(self, plan):
        plan = plan.copy()
        plan.sched = None
        seeds = 6
        if not self.fails(plan, 1):
            return None
        # whole clients first
        for c in "123456":
            q = plan.copy()
            q.ops = [o for o in q.ops if not o.startswith("op %s " % c)]
            if len(q.ops) < len(plan.ops) and self.fails(q, seeds):
                plan = q
        plan = self.chunks(plan, lambda p: p.ops, lambda p, v: setattr(p, "ops", v), seeds)
        # faults that are not needed
        for i in range(len(plan.ops)):
            q = plan.copy()
            body, f = q.ops[i].rsplit(" | ", 1)
            if not f.startswith("none") and self.left():
                q.ops[i] = body + " | none 0 0 0"
                if self.fails(q, seeds):
                    plan = q
        # one repetition is enough?
        if plan.cfg[-1] != "1":
            q = plan.copy()
            q.cfg[-1] = "1"
            if self.fails(q, seeds):
                plan = q
        # terms of the lists
        for li in range(len(plan.lists)):
            plan = self.chunks(plan, lambda p: p.lists[li], lambda p, v: p.lists.__setitem__(li, v), seeds)
        # characters of the terms
        for li in range(len(plan.lists)):
            asc = [term_key(t) for t in plan.lists[li]]
            asc = asc == sorted(asc)
            i = 0
            while i < len(plan.lists[li]) and self.left():
                for v in shorter(plan.lists[li][i]):
                    q = plan.copy()
                    q.lists[li][i] = v
                    if asc:
                        q.lists[li] = sorted(set(q.lists[li]), key=term_key)
                    if q.lists[li] != plan.lists[li] and self.fails(q, seeds):
                        plan = q
                        break
                else:
                    i += 1
        # strings of the operations
        for i in range(len(plan.ops)):
            again = True
            while again and self.left():
                again = False
                a, s, f = plan.ops[i].split(" |", 2)
                toks = s.split()
                for k in range(len(toks)):
                    for v in shorter(toks[k]):
                        q = plan.copy()
                        q.ops[i] = a + " | " + " ".join(toks[:k] + [v] + toks[k + 1:]) + " |" + f
                        if self.fails(q, seeds):
                            plan, again = q, True
                            break
                    if again:
                        break
        # plain memory layout, plain locks
        for at, v in ((1, "0"), (2, "205"), (5, "0"), (6, "0"), (4, "0")):
            if plan.cfg[at] != v and self.left():
                q = plan.copy()
                q.cfg[at] = v
                if self.fails(q, seeds):
                    plan = q
        return plan

    def minimise_schedule(self, plan, recorded):
        """Fewest preemptions. `recorded` is the plan text with the full schedule."""
        q = Plan(recorded)
        if q.sched is None:
            return plan
        forced = [s for s in q.sched if s.endswith(":1")]
        pre = [s for s in q.sched if s.endswith(":0")]
        p = q.copy()

        def put(pl, v):
            pl.sched = v + forced
        put(p, pre)
        if not self.fails(p):
            return Plan(recorded)
        p = self.chunks(p, lambda pl: [s for s in pl.sched if s.endswith(":0")], put, 1)
        return p


def report(runner, prop, plan_text, cls):
    """Minimises, proves that the replay file reproduces, returns (path, result) or None."""
    keep = os.path.join(OUT, "replays")
    os.makedirs(keep, exist_ok=True)
    path = os.path.join(keep, prop + ".plan")
    out = os.path.join(runner.tmp, "rec.plan")
    candidates = [plan_text]
    if cls not in STUCK:
        m = Minimiser(runner, cls, time.time() + MINIMISE_S)
        small = m.minimise(Plan(plan_text))
        if small is not None:
            candidates.insert(0, small.text())
            res = runner.run(small.text(), out)
            if res["done"] == 2 and res["cls"] == cls and not res.get("overflow"):
                m.deadline = time.time() + MINIMISE_S / 2
                candidates.insert(0, m.minimise_schedule(small, open(out).read()).text())
    for text in candidates:
        a = runner.run(text, out)
        if a["done"] != 2 or a["cls"] != cls:
            continue
        final = text if a.get("overflow") or cls in STUCK else open(out).read()
        b, c = runner.run(final), runner.run(final)
        same = b["done"] == c["done"] == 2 and b["cls"] == c["cls"] == cls
        exact = same and (cls in STUCK or (b["hash"] == c["hash"] and b["msg"] == c["msg"]))
        if same and not exact:
            # the code under test draws on something no simulator decides (a hardware random number, the address a
            # fresh process is loaded at): the class of the failure must then come out every time
            same = all(r["done"] == 2 and r["cls"] == cls for r in (runner.run(final) for _ in range(8)))
        if same:
            with open(path, "w") as f:
                f.write(final)
            with open(path + ".txt", "w") as f:
                f.write("%s violated: %s\n%s\nreplay: python3 check.py replay %s\n" % (prop, cls, b["msg"], path))
            return path, b
    return None


# ------------------------------------------------------------------- known findings
def known_findings(runner, prop):
    """Replays the recorded findings; returns (lines to print, violation or None)."""
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        kf = json.load(f)
    lines = []
    for e in kf["findings"]:
        if e["property"] != prop:
            continue
        p = os.path.join(VERIF, e["plan"])
        res = runner.run(open(p).read())
        if res["done"] == 2 and res["cls"] == e["class"]:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    return lines


# ---------------------------------------------------------------------------- main
def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        llsim, libkey = build.build()
    except build.BuildError as e:
        sys.stderr.write(str(e) + "\n")
        return 2
    base = os.environ.get("TMPDIR", "/tmp")
    tmp = tempfile.mkdtemp(prefix="llsim-", dir=base if os.path.isdir(base) else "/tmp")
    try:
        if prop == "replay":
            r = Runner(llsim, tmp).run(open(sys.argv[2]).read())
            print(json.dumps({k: r.get(k) for k in ("done", "cls", "msg", "hash")}, indent=1))
            return 1 if r["done"] == 2 else 0 if r["done"] in (1, 4) else 2
        return decide(prop, tier, seed, llsim, libkey, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, llsim, libkey, tmp, t0):
    runner = Runner(llsim, tmp)
    print("%s: tier %s, seed %d, library %s" % (prop, tier, seed, libkey), flush=True)
    try:
        for line in known_findings(runner, prop):
            print(line, flush=True)
    except OSError as e:
        sys.stderr.write("known findings: %s\n" % e)
        return 2
    # executions that once failed, before anything is drawn
    replayed, again = 0, None
    for name in sorted(os.listdir(os.path.join(VERIF, "known"))):
        if not name.startswith("fixed-" + prop + "-"):
            continue
        with open(os.path.join(VERIF, "known", name)) as f:
            text = f.read()
        res = runner.run(text)
        replayed += 1
        if res["done"] == 2 and again is None:
            again = (text, res["cls"])
            print("%s: a failure that was fixed is back: %s: %s" % (prop, res["cls"], res["msg"][:600]), flush=True)
    workers = int(os.environ.get("LLSIM_WORKERS", "0")) or min(8, os.cpu_count() or 4)
    seconds = QUICK_S if tier == "quick" else THOROUGH_S
    violation = report(runner, prop, *again) if again else None
    procs = []
    for w in range(0 if violation else workers):
        out = os.path.join(tmp, "w%d" % w)
        cmd = [llsim, "sweep", prop, str(seed), str(w), str(workers), str(seconds), str(1 << 40), "0" if tier == "quick" else "1", out]
        procs.append((subprocess.Popen(cmd, env=dict(runner.env, LLSIM_CPU=str(w)), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), out))
    found, errors = [], []
    limit = time.time() + seconds + 150
    pending = list(procs)
    while pending:
        time.sleep(0.05)
        for p, out in list(pending):
            rc = p.poll()
            if rc is None:
                continue
            pending.remove((p, out))
            if rc == 10:
                found.append(out)
            elif rc != 0:
                errors.append((rc, out))
        if found:
            # give the others a moment: a smaller or more telling run may end as well
            end = time.time() + 1
            while time.time() < end and any(p.poll() is None for p, _ in pending):
                time.sleep(0.05)
            for p, out in pending:
                if p.poll() == 10:
                    found.append(out)
            break
        if time.time() > limit:
            errors.append(("timeout", ""))
            break
    for p, _ in procs:
        if p.poll() is None:
            p.kill()
        p.wait()

    for out in found:
        with open(out + ".result") as f:
            res = json.load(f)
        with open(out + ".plan") as f:
            text = f.read()
        print("%s: run fails: %s: %s" % (prop, res["cls"], res["msg"][:600]), flush=True)
        got = report(runner, prop, text, res["cls"])
        if got:
            violation = got
            break
        errors.append(("not reproducible", res["cls"]))
    write_evidence(prop, tier, seed, procs, t0, workers, llsim, violation, replayed)
    if violation:
        path, res = violation
        print("%s: %s: %s" % (prop, res["cls"], res["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if errors:
        for e in errors:
            detail = ""
            try:
                detail = json.load(open(e[1])).get("detail", "")
            except (OSError, ValueError):
                pass
            sys.stderr.write("%s: worker error %s %s\n" % (prop, e, detail))
        return 2
    print("%s: held on everything explored" % prop)
    return 0


FAULTS = {"lock_eagain": "retryable lock error", "alloc_failures": "failing allocation", "open_failures": "open fails", "short_writes": "short write",
          "write_eintr": "interrupted write", "disk_full": "disk full", "write_eio": "write error", "close_failures": "close fails", "short_reads": "short read",
          "read_eintr": "interrupted read", "read_eio": "read error", "crashes": "process crash inside a save", "power_losses": "unsynchronised data lost",
          "stream_write_failures": "stream refuses bytes", "stream_read_failures": "stream fails part-way", "truncations": "image cut off",
          "corruptions": "image damaged", "stalled_threads": "stalled thread", "preemptions": "preemption", "refused_inputs": "refused input",
          "meta_failures": "rename, truncation, synchronisation or removal fails", "spurious_wakeups": "spurious wake-up", "clock_jumps": "clock jump", "abandoned_iterators": "abandoned iterator", "layout_changes": "allocator policy changed mid-run"}


def write_evidence(prop, tier, seed, procs, t0, workers, llsim, violation, replayed):
    import props
    runs = dbl = other = plans = nondet = 0
    hashes, scheds, samples, ctr = set(), set(), [], {}
    cpu = 0.0
    for _, out in procs:
        try:
            with open(out) as f:
                d = json.load(f)
        except (OSError, ValueError):
            continue
        runs += d["runs"]
        dbl += d["double_runs"]
        other += d["other"]
        nondet += d["nondeterministic"]
        plans += d["plans"]
        cpu += d["seconds"]
        hashes.update(d["hashes"])
        scheds.update(d["scheds"])
        samples += d["samples"]
        for k, v in d["ctr"].items():
            a = ctr.setdefault(k, [0, 0])
            a[0] += v[0]
            a[1] += v[1]
    wall = time.time() - t0
    faults = {k: {"what": FAULTS[k], "fired": ctr[k][0], "in_runs": ctr[k][1]} for k in FAULTS if ctr.get(k, [0])[0]}
    rate = runs / cpu * workers * 3600 if cpu else 0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if violation else 0,
          "assumptions": props.ASSUMPTIONS + props.INFO[prop].get("assumptions", []),
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": len(hashes),
              "rule": "One evaluation is one simulated run of a plan generated from mix(VERIF_SEED, run number). Two runs are the same if their event logs (every scheduling decision with its step, every fault that fired, every operation's observable outcome) hash equally; distinct event logs are counted. " + props.INFO[prop]["rule"],
              "samples": samples[:3] or ["(no worker finished)"],
              "runs_per_hour": round(rate), "seeds_per_hour": round(rate), "workers": workers,
              "simulated_steps": ctr.get("steps", [0])[0], "simulated_time": "logical: one step per instrumented memory access, lock, atomic, allocation; the code under test reads no clock",
              "distinct_interleavings": len(scheds), "interleaving_measure": "hash of the sequence of (step, chosen thread) over all preemptions and blocking switches of a run",
              "determinism_double_runs": dbl, "nondeterministic_runs": nondet, "distinct_plans": plans, "replays_of_fixed_failures": replayed, "runs_ended_by_another_property": other,
              "faults": faults, "activity": {k: v[0] for k, v in sorted(ctr.items()) if k not in FAULTS and v[0]},
              "runs_with": {k: v[1] for k, v in sorted(ctr.items()) if v[1]},
              "real_components": props.REAL, "simulated_components": props.STUB}}
    if violation:
        ev["coverage"]["violation"] = {"class": violation[1]["cls"], "message": violation[1]["msg"][:1500], "replay": violation[0]}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    p = os.path.join(OUT, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
