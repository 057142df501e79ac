#!/usr/bin/env python3
"""check.py <property> : decide one property.

For each job of the property: build the harness from /repo's working tree, run it to record traces
of the real code, and let TLC check the traces against the TLA+ specification.  Jobs without a
harness are pure model checking of the specification.

exit 0: held on everything explored; exit 1 with VIOLATION line; exit 2: the check itself failed.
"""
import hashlib, json, os, re, resource, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from jobs import CHECKS  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CLASSES = os.path.join(ROOT, "build", "classes")
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
MODS = "/opt/veriftools/tla/CommunityModules-deps.jar"
OUTPUTS = {"id", "events", "result", "out"}


class ToolError(Exception):
    pass


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                              errors="replace", **kw)
    except subprocess.TimeoutExpired:
        raise ToolError("timeout after %ds: %s" % (timeout, " ".join(cmd)[:200]))


def build_java():
    src = os.path.join(ROOT, "java", "Rat.java")
    stamp = os.path.join(CLASSES, "stamp")
    # the definitions of Rat under a name without override, for RatSelfTest
    os.makedirs(CLASSES, exist_ok=True)
    text = open(os.path.join(SPEC, "Rat.tla")).read().replace("MODULE Rat ", "MODULE RatDef ", 1)
    with open(os.path.join(CLASSES, "RatDef.tla"), "w") as f:
        f.write(text)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(CLASSES, exist_ok=True)
    p = sh(["javac", "-nowarn", "-cp", TLA, "-d", CLASSES, src], 300)
    if p.returncode:
        raise ToolError("javac: " + p.stdout[-2000:])
    open(stamp, "w").write(h)


def build_harness(jobs):
    for profile in sorted({j.get("profile", "release") for j in jobs if "bin" in j}):
        bins = {j["bin"] for j in jobs if "bin" in j and j.get("profile", "release") == profile}
        p = sh([os.path.join(ROOT, "tools", "hb.sh")] + sorted(bins), 840, env=dict(os.environ, PROFILE=profile))
        if p.returncode:
            raise ToolError("building the harness failed:\n" + p.stdout[-6000:])


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def case_key(line):
    d = {k: v for k, v in line.items() if k not in OUTPUTS}
    return hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:16]


def run_harness(job, out, work):
    """Record traces; answers (lines, early violation or None)."""
    binary = os.path.join(ROOT, "harness", "target", job.get("profile", "release"), job["bin"])
    args = [str(a) for a in (job["thorough"] if TIER == "thorough" else job["quick"])]
    for suffix in ("", ".hang", ".cur"):
        if os.path.exists(out + suffix):
            os.remove(out + suffix)
    try:
        p = subprocess.run([binary, out, str(SEED), TIER] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=job.get("limit", 1200 if TIER == "thorough" else 400), preexec_fn=limit, text=True, errors="replace", cwd=work)
    except subprocess.TimeoutExpired:
        raise ToolError("harness %s timed out" % job["bin"])
    early = None
    if p.returncode == 3 or p.returncode < 0 or p.returncode == 134:
        why = "does not return" if p.returncode == 3 else "process ended by signal %d" % -p.returncode
        cur = ""
        for f in (out + ".hang", out + ".cur"):
            if os.path.exists(f):
                cur = open(f, errors="replace").read()
                break
        try:
            case = json.loads(cur)
        except ValueError:
            case = {"text": cur}
        if not isinstance(case, dict):
            case = {"case": case}
        early = (why, case)
    elif p.returncode:
        raise ToolError("harness %s: exit %d\n%s" % (job["bin"], p.returncode, p.stdout[-3000:]))
    lines = []
    for raw in open(out, errors="replace"):
        try:
            lines.append(json.loads(raw))
        except ValueError:
            if early is None:
                raise ToolError("bad trace line")
    if early is not None:
        with open(out, "w") as f:
            for l in lines:
                f.write(json.dumps(l) + "\n")
    return lines, early


def run_tlc(job, out, work, n):
    meta = os.path.join(work, "tlc-" + job["name"])
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cfg = job.get("cfg_thorough", job["cfg"]) if TIER == "thorough" else job["cfg"]
    env = dict(os.environ, TRACE=out or "", VERIF_TIER=TIER)
    env.update(job.get("env", {}))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx12g", "-Xss64m", "-cp", ":".join([CLASSES, TLA, MODS]),
           "-DTLA-Library=%s:%s" % (SPEC, CLASSES), "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(job.get("workers", 8)),
           "-fp", "1", "-seed", str(SEED)]
    cmd += job.get("tlc_args", [])
    cmd += ["-config", cfg, job["module"] + ".tla"]
    p = sh(cmd, job.get("tlc_limit", 3000 if TIER == "thorough" else 840), cwd=SPEC, env=env)
    shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(work, job["name"] + ".tlc"), "w") as f:
        f.write(p.stdout)
    text = p.stdout
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    states, trans = (int(m[-1][1].replace(",", "")), int(m[-1][0].replace(",", ""))) if m else (0, 0)
    simulation = "-simulate" in job.get("tlc_args", [])
    if simulation:
        m = re.search(r"number of states generated: ([\d,]+)", text)
        states = trans = int(m.group(1).replace(",", "")) if m else 0
    if (not m or "Error:" in text) if simulation else ("No error has been found" not in text):
        unreadable = re.search(r"\bt = (\d+)", text) if out is not None else None
        if not unreadable or "OutOfMemory" in text or "StackOverflow" in text:
            raise ToolError("TLC on %s: %s" % (job["module"], text[-4000:]))
        # a record of the code under test that no behaviour of the specification can have
        error = re.search(r"Error: (?!The behavior)(.*(?:\n(?!Error).*){0,4})", text)
        ident = json.loads(open(out).read().splitlines()[int(unreadable.group(1)) - 1])["id"]
        return states, trans, {ident: [(0, "ANY", "not readable as a behaviour of the specification: "
                                        + " ".join((error.group(1) if error else "").split())[:200])]}
    done, rejects = {}, {}
    job["verdicts"] = {}
    for line in text.splitlines():
        line = line.strip().strip('"').replace('\\"', '"')
        if line.startswith("DONE "):
            _, i, b = line.split()
            done[int(i)] = int(b)
        elif line.startswith("REJECT "):
            _, i, l, tag, why = line.split(" ", 4)
            rejects.setdefault(int(i), []).append((int(l), tag, why))
        elif line.startswith("VERDICT "):
            # how the specification classifies the recorded inputs
            k = line[8:].strip()
            job["verdicts"][k] = job["verdicts"].get(k, 0) + 1
        elif line.startswith("SPECERROR"):
            raise ToolError("the specification's own answer fails its certificate: " + line)
    if out is not None:
        if len(done) != n:
            raise ToolError("TLC judged %d of %d traces of %s" % (len(done), n, job["name"]))
        for i, b in done.items():
            if bool(b) != (i in rejects):
                raise ToolError("trace %d: inconsistent report" % i)
    return states, trans, rejects


def known_findings(prop):
    known = {}
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3).strip()
    return known


def main():
    prop = sys.argv[1]
    start = time.time()
    work = os.path.join(ROOT, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    jobs = [j for j in CHECKS[prop] if TIER == "thorough" or not j.get("thorough_only")]
    build_java()
    build_harness(jobs)
    known = known_findings(prop)
    violations, seen_known = [], {}
    states = trans = traces = 0
    stats, samples = {}, []
    for job in jobs:
        t0 = time.time()
        if "bin" not in job:
            s, t, _ = run_tlc(job, None, work, 0)
            states, trans = states + s, trans + t
            stats[job["name"]] = {"distinct_states": s, "transitions": t, "seconds": round(time.time() - t0, 1)}
            continue
        out = os.path.join(work, job["name"] + ".ndjson")
        if "gen" in job:
            # behaviours generated from the specification, to be replayed by the harness
            plans = set()
            for k, g in enumerate(job["gen"]):
                if g.get("thorough_only") and TIER != "thorough":
                    continue
                g = dict(g, name="%s-gen%d" % (job["name"], k))
                s, t, _ = run_tlc(g, None, work, 0)
                states, trans = states + s, trans + t
                for line in open(os.path.join(work, g["name"] + ".tlc")):
                    line = line.strip()
                    if line.startswith('"PLAN '):
                        plans.add(json.loads(line)[5:])
            if not plans:
                raise ToolError("the specification generated no behaviours")
            with open(os.path.join(work, job["name"] + ".plan"), "w") as f:
                f.write("".join(p + "\n" for p in sorted(plans)))
        lines, early = run_harness(job, out, work)
        by_id = {l["id"]: l for l in lines}
        if len(by_id) != len(lines):
            raise ToolError("duplicate case ids")
        rejects = {}
        s = t = 0
        if lines:
            s, t, rejects = run_tlc(job, out, work, len(lines))
        states, trans, traces = states + s, trans + t, traces + len(lines)
        found = []
        for i, why in sorted(rejects.items()):
            mine = [w for w in why if w[1] in (prop, "ANY")]
            if mine:
                found.append((by_id[i], mine))
        if early is not None:
            found.append((early[1], [(0, "ANY", early[0])]))
        for case, why in found:
            key = case_key(case)
            if key in known:
                seen_known[key] = known[key]
            else:
                violations.append((job["name"], key, case, why))
        kinds = {}
        events = 0
        for l in lines:
            st = l.get("result", {}).get("st") if isinstance(l.get("result"), dict) else None
            k = "/".join(str(x) for x in (l.get("kind"), l.get("path"), l.get("bi"), st) if x)
            kinds[k] = kinds.get(k, 0) + 1
            events += len(l.get("events", []))
        stats[job["name"]] = {"cases": len(lines), "distinct_cases": len({case_key(l) for l in lines}), "kinds": kinds,
                              "events": events, "distinct_states": s, "transitions": t,
                              "seconds": round(time.time() - t0, 1)}
        if job.get("verdicts"):
            stats[job["name"]]["verdicts"] = job["verdicts"]
        if lines:
            d = lines[len(lines) // 2]
            text = json.dumps(d)
            samples.append(json.loads(text) if len(text) < 6000 else {"job": job["name"], "case": text[:3000]})
    replay_dir = os.path.join(work, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    shown = 0
    for name, key, case, why in violations:
        if shown >= 20:
            break
        path = os.path.join(replay_dir, "%s-%s.json" % (name, key))
        with open(path, "w") as f:
            json.dump({"property": prop, "job": name, "key": key, "seed": SEED, "tier": TIER,
                       "reasons": ["event %d: %s" % (w[0], w[2]) for w in why], "case": case}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  key=%s %s" % (key, "; ".join(w[2] for w in why)[:300]))
        shown += 1
    for key, what in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, key, what))
    evidence = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": traces,
                     "samples": samples or ["model checking only"], "jobs": stats},
        "assumptions": ["the TLC evaluator, the Java override of exact rational arithmetic (compared with its TLA+ definition by RatSelfTest)"],
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s: %d traces, %d states, %d violations, %.1f s" % (prop, traces, states, len(violations), time.time() - start))
    if not os.environ.get("VERIF_KEEP"):
        for f in os.listdir(work):
            if f.endswith(".ndjson") or f.endswith(".tlc") or f.endswith(".plan"):
                os.remove(os.path.join(work, f))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
