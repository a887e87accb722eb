#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]

Builds /repo's current sources with the explorers of property ID, runs the complete enumeration (sharded), confirms every
reported violation by replaying the single case, writes evidence/ID.json and prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held on everything explored. Exit 1: violated. Exit 2: the check itself could not run.
"""
import array, json, os, re, shutil, struct, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/tools")
import build as B
from props import P

NSHARD = int(os.environ.get("MC_JOBS", "0")) or max(1, os.cpu_count() or 1)
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:malloc_context_size=12:detect_stack_use_after_return=0:quarantine_size_mb=32:handle_abort=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
ENV["TSAN_OPTIONS"] = "exitcode=97:halt_on_error=1:second_deadlock_stack=0"
ENV["TZ"] = "UTC"
MAX_CRASH_PER_SHARD = 6


def load_known():
    known = {}
    path = V + "/known_findings.txt"
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.rstrip("\n")
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", ln)
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known


def read_status(path):
    try:
        b = open(path, "rb").read()
        idx, running, hang = struct.unpack("QQQ", b[:24])
        fam = b[24:].split(b"\0")[0].decode()
        return idx, running, hang, fam
    except Exception:
        return None


def crash_kind(err, rc):
    m = re.search(r"SUMMARY: \w+Sanitizer: (\S+)", err)
    if m and m.group(1) != "undefined-behavior":
        return m.group(1)
    m = re.search(r"runtime error: (.{0,60})", err)
    if m:
        return "ub-" + re.sub(r"[^a-zA-Z]+", "-", m.group(1))[:40].strip("-")
    m = re.search(r"Assertion '([^']{0,60})", err)
    if m:
        return "assert"
    if "terminate called" in err:
        return "terminate"
    if rc == 77:
        return "hang"
    return f"exit{rc}"


class Explorer:
    def __init__(self, prop, name, cfg, binary, tier, work):
        self.prop, self.name, self.cfg, self.bin, self.tier, self.work = prop, name, cfg, binary, tier, work
        self.results, self.violations, self.crashes = [], [], []

    def cmd(self, *extra):
        return [self.bin, "--tier", self.tier] + list(extra)

    def run(self, deadline):
        procs = {}
        for s in range(NSHARD):
            self.start(procs, s, 0, 0)
        crash_count = {}
        while procs:
            time.sleep(0.02)
            for s in list(procs):
                p, out, status, errf, part = procs[s]
                rc = p.poll()
                if rc is None:
                    if time.time() > deadline:
                        for q in procs.values():
                            q[0].kill()
                        return "timeout"
                    continue
                del procs[s]
                if os.path.exists(out):
                    self.results.append((json.load(open(out)), out))
                if rc in (0, 3) and os.path.exists(out):
                    continue
                err = open(errf, errors="replace").read()
                st = read_status(status)
                if st is None or st[1] == 0 and st[2] == 0:
                    # died outside a case
                    self.crashes.append(dict(idx=-1, family="outside-case", kind=crash_kind(err, rc), err=err, rc=rc))
                    continue
                idx, running, hang, fam = st
                self.crashes.append(dict(idx=idx, family=fam, kind=crash_kind(err, rc), err=err, rc=rc, shard=s))
                crash_count[s] = crash_count.get(s, 0) + 1
                if crash_count[s] < MAX_CRASH_PER_SHARD:
                    self.start(procs, s, idx + 1, part + 1)
        return None

    def start(self, procs, s, frm, part):
        base = f"{self.work}/{self.name}.{s}.{part}"
        scratch = base + ".scratch"
        os.makedirs(scratch, exist_ok=True)
        errf = base + ".err"
        e = open(errf, "w")
        p = subprocess.Popen(self.cmd("--shard", f"{s}/{NSHARD}", "--from", str(frm), "--out", base + ".json", "--status", base + ".st", "--scratch", scratch),
                             stdout=subprocess.DEVNULL, stderr=e, env=ENV, cwd=self.work)
        e.close()
        procs[s] = (p, base + ".json", base + ".st", errf, part)

    def replay(self, idx, cpu=None):
        """Replays a single case alone: returns (violated, kind, text)."""
        scratch = f"{self.work}/{self.name}.replay.scratch"
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch, exist_ok=True)
        c = self.cmd("--only", str(idx), "--describe", "--scratch", scratch)
        if cpu:
            c += ["--cpu", str(cpu)]
        try:
            p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=self.work, timeout=300, errors="replace")
        except subprocess.TimeoutExpired:
            return True, "hang", "replay did not terminate within 300 s"
        bad = p.returncode != 0
        return bad, ("check" if p.returncode == 3 else crash_kind(p.stderr, p.returncode)), (p.stdout[-6000:] + "\n" + p.stderr[-6000:])


def explorers_of(prop):
    """checks/<ID>*.cc, config from a '// config:' line (default asan)."""
    out = []
    for f in sorted(os.listdir(V + "/checks")):
        if f.endswith(".cc") and (f == prop + ".cc" or f.startswith(prop + "_")):
            cfg = "asan"
            for ln in open(V + "/checks/" + f):
                m = re.match(r"// config: *(.*)", ln)
                if m:
                    cfg = m.group(1).strip()
            for c in cfg.split():
                out.append((f[:-3], c))
    return out


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    spec = next(p for p in P if p["id"] == prop)
    t0 = time.time()
    known = load_known().get(prop, {})
    work = f"{B.BUILD}/run/{prop}-{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    exps = []
    for name, cfg in explorers_of(prop):
        r = B.build(cfg, [name])
        if r is None:
            print(f"BUILD-ERROR property={prop}: the current tree does not build with explorer {name}")
            sys.exit(2)
        exps.append(Explorer(prop, name, cfg, r[0], tier, work))
    tb = time.time()
    if "--replay" in args:
        a = json.load(open(args[args.index("--replay") + 1]))
        e = next(x for x in exps if x.name == a["explorer"])
        e.tier = a["tier"]
        bad, kind, text = e.replay(a["idx"])
        print(text)
        sys.exit(1 if bad else 0)

    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    os.makedirs(V + "/evidence", exist_ok=True)
    for f in os.listdir(V + "/evidence"):
        if f.startswith(prop + "-violation-"):
            os.unlink(V + "/evidence/" + f)
    found = []  # (sig, msg, replay dict)
    tot = dict(evaluations=0, transitions=0, nontrivial=0, validated=0)
    fams, counters, samples, total = {}, {}, {}, 0
    states, outcomes = set(), set()
    incomplete = None
    for e in exps:
        to = e.run(deadline)
        if to:
            incomplete = "time limit hit"
        tots = 0
        for r, out in e.results:
            for k in tot:
                tot[k] += r[k]
            tots = max(tots, r["total"])
            for k, v in r["families"].items():
                fams[k] = fams.get(k, 0) + v
            for k, v in r["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in r["samples"].items():
                samples.setdefault(k, v)
            for nm, st in (("states", states), ("outcomes", outcomes)):
                p = out + "." + nm
                if os.path.exists(p):
                    a = array.array("Q")
                    a.frombytes(open(p, "rb").read())
                    st.update(a)
        total += tots
        best = {}
        for r, _ in e.results:
            for v in r["violations"]:
                if v["sig"] not in best or v["idx"] < best[v["sig"]]["idx"]:
                    best[v["sig"]] = v
        for v in sorted(best.values(), key=lambda v: v["idx"]):
            if len(found) >= 12:
                break
            bad, kind, text = e.replay(v["idx"])
            if not bad:
                bad, kind, text = e.replay(v["idx"])
            if bad:
                found.append((v["sig"], v["msg"], dict(explorer=e.name, config=e.cfg, tier=tier, idx=v["idx"], case=v["desc"], message=v["msg"], transcript=text)))
            else:
                # depends on earlier cases in the same process: replay the shard prefix
                incomplete_sig = v["sig"] + "(history-dependent)"
                sc = f"{work}/{e.name}.hist"
                os.makedirs(sc, exist_ok=True)
                s = v["idx"] % NSHARD
                p = subprocess.run(e.cmd("--shard", f"{s}/{NSHARD}", "--upto", str(v["idx"] + 1), "--scratch", sc), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=work, errors="replace")
                if p.returncode == 3:
                    found.append((incomplete_sig, v["msg"], dict(explorer=e.name, config=e.cfg, tier=tier, idx=v["idx"], shard=f"{s}/{NSHARD}", case=v["desc"], message=v["msg"], transcript=p.stdout[-4000:])))
                else:
                    print(f"note: unreproducible report dropped: {v['sig']} idx={v['idx']}")
        seen = set()
        for c in sorted(e.crashes, key=lambda c: c["idx"]):
            sig = f"{c['family']}:crash-{c['kind']}"
            if sig in seen or len(found) >= 12:
                continue
            if c["idx"] < 0:
                found.append((sig, "process died outside of any case", dict(explorer=e.name, config=e.cfg, tier=tier, idx=-1, transcript=c["err"][-6000:])))
                seen.add(sig)
                continue
            bad, kind, text = e.replay(c["idx"], cpu=20 if c["kind"] == "hang" else None)
            if not bad:
                if c["kind"] == "hang":
                    print(f"note: slow case idx={c['idx']} finished when run alone")
                    continue
                s = c["shard"]
                sc = f"{work}/{e.name}.hist"
                os.makedirs(sc, exist_ok=True)
                p = subprocess.run(e.cmd("--shard", f"{s}/{NSHARD}", "--upto", str(c["idx"] + 1), "--scratch", sc), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=work, errors="replace")
                if p.returncode in (0, 3):
                    print(f"note: unreproducible crash dropped: {sig} idx={c['idx']}")
                    incomplete = "unreproducible crash"
                    continue
                text = p.stderr[-6000:]
            seen.add(sig)
            first = next((l for l in text.splitlines() if "ERROR" in l or "runtime error" in l or "MC-HANG" in l or "terminate" in l), "")
            found.append((sig, f"crash/hang while executing the case: {first.strip()}", dict(explorer=e.name, config=e.cfg, tier=tier, idx=c["idx"], transcript=text)))
        if len(e.crashes) >= MAX_CRASH_PER_SHARD:
            incomplete = incomplete or "stopped after repeated crashes"
    if tot["evaluations"] == 0 and not found:
        print(f"ERROR property={prop}: nothing was explored")
        sys.exit(2)

    new = [f for f in found if f[0] not in known]
    old = [f for f in found if f[0] in known]
    cov = dict(evaluations=tot["evaluations"], rule=spec["qtext"] + "; a case is non-trivial when the explorer's oracle compared at least one observable produced by the code under test and its outcome hash was not seen before",
               distinct_nontrivial=len(outcomes), samples=[dict(family=k, case=v) for k, v in sorted(samples.items())][:24],
               families=fams, counters=counters, exhaustive=incomplete is None and not found and tot["evaluations"] == total, enumerated_total=total)
    if spec["level"] == "model_checking":
        cov["states"] = len(states)
        cov["transitions"] = tot["transitions"]
        cov["traces_validated_against_impl"] = tot["validated"] or tot["evaluations"]
    else:
        if states:
            cov["distinct_states"] = len(states)
        if tot["transitions"]:
            cov["steps_compared"] = tot["transitions"]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=spec["level"], coverage=cov,
              assumptions=["bounds as printed in DESIGN.md; the enumeration is deterministic and uses no random choice",
                           "the reference model inside the explorer states the intended behaviour"] + ([f"incomplete: {incomplete}"] if incomplete else []),
              wall_s=round(time.time() - t0, 2), build_s=round(tb - t0, 2), violations=len(new), known_findings=len(old))
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for f in old:
        print(f"KNOWN-FINDING: property={prop} {f[0]} {known[f[0]]}")
    for i, f in enumerate(new):
        path = f"{V}/evidence/{prop}-violation-{i}.json"
        json.dump({**f[2], "property": prop, "sig": f[0], "message": f[1]}, open(path, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {f[0]}: {f[1][:1500]}")
    shutil.rmtree(work, ignore_errors=True)
    print(f"{prop} {tier}: {tot['evaluations']}/{total} executions, {len(states)} states, {tot['transitions']} transitions, {len(outcomes)} outcomes, build {tb-t0:.1f}s total {time.time()-t0:.1f}s, {len(new)} violations, {len(old)} known")
    if incomplete == "time limit hit" and not new:
        print("incomplete: time limit hit (covered part held)")
    sys.exit(1 if new else 0)


if __name__ == "__main__":
    main()
