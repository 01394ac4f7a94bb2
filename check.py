#!/usr/bin/env python3
"""check.py <property> [--replay FILE]   run the generated-input search for one property
   check.py --build                      build everything (setup)

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
"""
import fcntl, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
from registry import PROPS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
JOURNAL_MAX = 8192
STALL = 100.0  # seconds without a new case before a run counts as hanging (cases take milliseconds)

CMAKE_FLAGS = """-G Ninja -DCMAKE_BUILD_TYPE=Release -DDISCOTEC_TIMING=ON -DDISCOTEC_ENABLEFT=OFF
 -DDISCOTEC_GENE=OFF -DDISCOTEC_USE_HIGHFIVE=OFF -DDISCOTEC_OPENMP=ON -DDISCOTEC_USE_LTO=OFF
 -DDISCOTEC_WITH_COMPRESSION=ON -DDISCOTEC_COMPILE_ARCH=x86-64-v2 -DCOMPILER_SUPPORTS_MARCH_NATIVE=OFF
 -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_CXX_FLAGS=-w""".split()


def log(*a):
    print(*a, flush=True)


def limit_memory():
    # a runaway case must end as a crash of that case, not of the sandbox
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


# ------------------------------------------------------------------ build
def source_hashes():
    out = {}
    for base in ("src", "third_level_manager", "tools"):
        for dp, dn, fn in os.walk(os.path.join(REPO, base)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".cpp", ".hpp", ".h", ".cc", ".c", ".txt", ".cmake")):
                    p = os.path.join(dp, f)
                    with open(p, "rb") as fh:
                        out[p] = hashlib.sha1(fh.read()).hexdigest()
    return out


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ, CC="gcc", CXX="g++")
    stamp = os.path.join(BUILD, "sources.json")
    hashes = source_hashes()
    if os.path.exists(stamp):
        # content changed although the time stamp is older than our objects: rebuild everything
        old = json.load(open(stamp))
        t = os.path.getmtime(stamp)
        stale = [p for p in hashes if old.get(p) != hashes[p] and os.path.getmtime(p) <= t]
        if stale or set(old) - set(hashes):
            subprocess.call(["ninja", "-C", BUILD, "-t", "clean"], env=env,
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.remove(stamp)
    lg = os.path.join(BUILD, "build.log")
    for attempt in range(2):
        with open(lg, "w") as f:
            rc = subprocess.call(["cmake", "-S", os.path.join(ROOT, "harness"), "-B", BUILD,
                                  "-DREPO=" + REPO] + CMAKE_FLAGS, env=env, stdout=f, stderr=f)
            if rc == 0:
                rc = subprocess.call(["ninja", "-C", BUILD, "-j8"] + list(targets), env=env,
                                     stdout=f, stderr=f)
        if rc == 0:
            break
        if attempt == 0:  # e.g. a stale or foreign build folder
            for n in os.listdir(BUILD):
                if n not in (".lock", "build.log"):
                    p = os.path.join(BUILD, n)
                    shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    if rc != 0:
        log("build failed:")
        log("\n".join(open(lg, errors="replace").read().splitlines()[-40:]))
        sys.exit(2)
    json.dump(hashes, open(stamp, "w"))
    fcntl.flock(lock, fcntl.LOCK_UN)


# ------------------------------------------------------------------ running harnesses
def mpi_env(extra):
    e = dict(os.environ)
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_mpi_yield_when_idle="1", OMP_NUM_THREADS="1", OMP_WAIT_POLICY="passive",
             TMPDIR="/tmp", OMPI_MCA_plm_rsh_agent="false", OMPI_MCA_btl_base_warn_component_unused="0")
    e.update({k: str(v) for k, v in (extra or {}).items()})
    return e


def read_journal(path):
    try:
        b = open(path, "rb").read()
        case, sub, n = struct.unpack_from("QQQ", b, 0)
        n = min(n, JOURNAL_MAX)
        return case, sub, list(struct.unpack_from("%dQ" % n, b, 24))
    except Exception:
        return 0, 0, []


class Run:
    def __init__(self, camp, scratch, args, cap, stall=STALL):
        self.scratch = tempfile.mkdtemp(prefix="run", dir=scratch)
        self.res = os.path.join(self.scratch, "res")
        self.journal = os.path.join(self.scratch, "journal")
        self.logf = os.path.join(self.scratch, "log")
        work = os.path.join(self.scratch, "work")
        os.makedirs(work)
        cmd = ["mpiexec", "--oversubscribe", "--bind-to", "none", "-n", str(camp["np"]),
               os.path.join(BUILD, "bin", camp["bin"]), camp["arg"],
               "--result", self.res, "--journal", self.journal, "--scratch", work] + args
        if camp["np"] == 0:
            cmd = cmd[6:]
        t0 = time.time()
        with open(self.logf, "wb") as f:
            p = subprocess.Popen(cmd, cwd=work, env=mpi_env(camp.get("env")), stdout=f, stderr=f,
                                 stdin=subprocess.DEVNULL, start_new_session=True,
                                 preexec_fn=limit_memory)
            last, lastt, self.hang = -1, time.time(), False
            while True:
                try:
                    p.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time()
                c = read_journal(self.journal)[0]
                if c != last:
                    last, lastt = c, now
                if now - lastt > stall or now - t0 > cap + 200:
                    self.hang = now - lastt > stall
                    try:
                        os.killpg(p.pid, signal.SIGTERM)
                        time.sleep(2)
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    subprocess.call(["pkill", "-9", "-f", self.scratch], stdout=subprocess.DEVNULL,
                                    stderr=subprocess.DEVNULL)
                    break
        self.rc = p.returncode
        self.case, self.sub, self.choices = read_journal(self.journal)
        self.fail = None
        if os.path.exists(self.res + ".fail"):
            self.fail = open(self.res + ".fail").read()
            self.failtext = open(self.res + ".failtext", errors="replace").read()
        self.stats = None
        if os.path.exists(self.res + ".json"):
            try:
                self.stats = json.load(open(self.res + ".json"))
            except ValueError:
                pass
        self.log = open(self.logf, errors="replace").read()
        # mpiexec itself could not start the job (no oracle or library code involved)
        self.infra = self.rc != 0 and self.fail is None and not self.hang and self.case == 0
        self.ok = self.rc == 0
        shutil.rmtree(work, ignore_errors=True)

    def kind(self):
        return "ok" if self.ok else "hang" if self.hang else "fail" if self.fail else "crash"


def write_replay(prop, camp, sub, choices, kind, text, seed, count=None):
    d = os.path.join(ROOT, "replay")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "bin": camp["bin"], "arg": camp["arg"], "np": camp["np"],
            "env": camp.get("env", {}), "kind": kind, "sub": sub, "choices": choices,
            "text": text[:6000], "seed": seed, "campaign_count": count}
    h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    json.dump(body, open(p, "w"), indent=1)
    return p


def replay_case(camp, scratch, sub, choices, stall):
    f = os.path.join(scratch, "case-%d.txt" % int(time.time() * 1e6))
    with open(f, "w") as fh:
        fh.write(sub + "\n" + " ".join(map(str, choices)) + "\n")
    return Run(camp, scratch, ["--replay", f], 600, stall)


def sub_name(camp, scratch, r):
    return r.sub


def shrink_outside(camp, scratch, sub, choices, stall, budget, kind):
    """shrink a crashing / hanging case by re-running the harness on candidates"""
    t0 = time.time()
    best = list(choices)

    def bad(c):
        r = replay_case(camp, scratch, sub, c, min(stall, 30) if kind == "hang" else stall)
        if not r.ok and r.kind() == kind and not r.infra:
            return True
        return False

    size = max(1, len(best) // 2)
    while size >= 1 and time.time() - t0 < budget:
        i = 0
        while i + size <= len(best) and time.time() - t0 < budget:
            cand = best[:i] + best[i + size:]
            if bad(cand):
                best = cand
            else:
                i += size
        size //= 2
    for i in range(len(best)):
        if time.time() - t0 > budget:
            break
        if best[i]:
            cand = list(best)
            cand[i] = 0
            if bad(cand):
                best = cand
    return best


def run_campaign(prop, camp, tier, seed, scratch):
    """returns (stats or None, violation or None)"""
    count = camp["quick"] if tier == "quick" else camp["thorough"]
    cap = camp.get("cap", 150) if tier == "quick" else camp.get("thorough_cap", 1500)
    stall = camp.get("stall", STALL)
    args = ["--seed", str(seed), "--count", str(count), "--time", str(cap)]
    if tier == "thorough":
        args += ["--shrink-time", "120"]
    r = None
    for attempt in range(3):
        r = Run(camp, scratch, args, cap, stall)
        if not r.infra:
            break
        log("note: could not start the harness (attempt %d), exit %s" % (attempt, r.rc))
        log(r.log[-1500:])
        time.sleep(2)
    if r.ok:
        return r.stats, None
    kind = r.kind()
    log("campaign %s/%s ended with %s at case %d" % (camp["bin"], camp["arg"], kind, r.case))
    names = camp_subs(camp, scratch)
    if r.fail:
        lines = r.fail.splitlines()
        sub, choices = lines[0], [int(x) for x in lines[1].split()]
        text = r.failtext
    else:
        sub = names[r.sub] if r.sub < len(names) else "?"
        choices = r.choices
        text = "%s in sub-property %s\n%s" % (kind, sub, r.log[-3000:])
    # confirm: replay the single case in fresh processes
    hits, tries = 0, 0
    limit = 3 if kind == "hang" else 8
    while tries < limit and hits < 3:
        rr = replay_case(camp, scratch, sub, choices, min(stall, 60))
        tries += 1
        if not rr.ok and not rr.infra:
            hits += 1
        elif kind == "hang":
            break
    if hits >= (3 if kind == "hang" else 2):
        if not r.fail:
            choices = shrink_outside(camp, scratch, sub, choices, stall, 60, kind)
            rr = replay_case(camp, scratch, sub, choices, min(stall, 60))
            text = "%s (%d/%d replays)\n%s" % (kind, hits, tries, rr.log[-3000:])
        return r.stats, (write_replay(prop, camp, sub, choices, kind, text, seed), text)
    # not reproducible from the single case: does the whole campaign fail again?
    again = 0
    for k in range(3):
        rr = Run(camp, scratch, args, cap, stall)
        if not rr.ok and not rr.infra and (kind != "hang" or rr.hang):
            again += 1
            text = (rr.failtext if rr.fail else rr.log[-3000:])
        if again >= 2:
            return rr.stats or r.stats, (write_replay(prop, camp, sub, None, kind + "-campaign", text,
                                                      seed, count), text)
        if rr.ok and again == 0 and k >= 1:
            break
    log("note: the %s did not reproduce (%d/%d single, %d campaign): not counted" % (kind, hits, tries, again))
    return (rr.stats if rr.ok else r.stats), None


_subs_cache = {}


def camp_subs(camp, scratch):
    key = (camp["bin"], camp["arg"])
    if key not in _subs_cache:
        r = subprocess.run(["mpiexec", "--oversubscribe", "--bind-to", "none", "-n", "1",
                            os.path.join(BUILD, "bin", camp["bin"]), camp["arg"], "--list"],
                           env=mpi_env(camp.get("env")), capture_output=True, text=True)
        _subs_cache[key] = [l[4:].strip() for l in r.stdout.splitlines() if l.startswith("SUB ")]
    return _subs_cache[key]


def cleanup_old():
    pass


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        build([])
        return 0
    prop = sys.argv[1]
    p = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    build(sorted({c["bin"] for c in p["campaigns"]} | set(p.get("targets", []))))
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
    try:
        if "--replay" in sys.argv:
            body = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            camp = {k: body[k] for k in ("bin", "arg", "np", "env")}
            if body["choices"] is None:
                r = Run(camp, scratch, ["--seed", str(body["seed"]), "--count", str(body["campaign_count"]),
                                        "--time", "600"], 600)
            else:
                r = replay_case(camp, scratch, body["sub"], body["choices"], STALL)
            log(r.log[-5000:])
            if not r.ok:
                log("VIOLATION property=%s replay=%s" % (prop, sys.argv[sys.argv.index("--replay") + 1]))
            return 0 if r.ok else 1
        agg = {"evaluations": 0, "distinct_nontrivial": 0, "oracle_checks": 0, "campaigns": []}
        samples, labels, per_sub = [], {}, {}
        viol = None
        for camp in p["campaigns"]:
            if tier == "quick" and camp["quick"] == 0:
                continue
            st, v = run_campaign(prop, camp, tier, seed, scratch)
            if st:
                agg["evaluations"] += st["evaluations"]
                agg["distinct_nontrivial"] += st["distinct_nontrivial"]
                agg["oracle_checks"] += st["oracle_checks_rank0"]
                agg["campaigns"].append({"bin": camp["bin"], "arg": camp["arg"], "ranks": camp["np"],
                                         "evaluations": st["evaluations"], "seconds": st["seconds"],
                                         "time_capped": st["time_capped"]})
                samples += st["samples"][:8]
                for k, n in st["labels"].items():
                    labels[k] = labels.get(k, 0) + n
                for k, n in st["per_sub"].items():
                    per_sub[k] = per_sub.get(k, 0) + n
            if v:
                viol = v
                break
        cov = dict(agg)
        cov["rule"] = p["rule"]
        cov["samples"] = samples[:20]
        cov["per_sub_property"] = per_sub
        cov["case_classes"] = labels
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "build_s": round(tb, 2), "violations": 1 if viol else 0}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in p.get("known", []):
            log("KNOWN-FINDING: property=%s %s" % (prop, k))
        if viol:
            log(viol[1][:3000])
            log("VIOLATION property=%s replay=%s" % (prop, viol[0]))
            return 1
        log("%s: held on %d cases (%d distinct non-trivial), %.0fs" %
            (prop, agg["evaluations"], agg["distinct_nontrivial"], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
