#!/usr/bin/env python3
"""Decide one property: build its harness from /repo's working tree, search,
print VIOLATION / KNOWN-FINDING lines, write the evidence file.

usage: check.py ID [--thorough] [--cases-scale X]     (env: VERIF_SEED, VERIF_TIER, VP_REPO, VP_KEEP)
       check.py ID --replay FILE
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VP_REPO", "/repo"))
JOBS = os.cpu_count() or 8
sys.path.insert(0, str(HERE))
from plan import PLAN, FLAVOURS, WRAPS, LEVEL_NOTES  # noqa: E402

class CompileError(Exception):
    pass

os.environ["OMP_WAIT_POLICY"] = "passive"      # real threads share the cores with other workers
os.environ["GOMP_SPINCOUNT"] = "0"
for v in ("OMP_NUM_THREADS", "OMP_DYNAMIC", "OMP_SCHEDULE", "OMP_THREAD_LIMIT", "OMP_PROC_BIND"):
    os.environ.pop(v, None)

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def include_dir(plan, bdir):
    return REPO / "include"

def type_config(seed, part):
    """Parts from 8 on are configurations of types drawn from the seed."""
    import random
    r = random.Random(seed * 7919 + part)
    ints = ["uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t"]
    label, ordinal = r.choice(ints), r.choice(ints)
    weight = r.choice(ints + ["float", "double", "float", "double"])
    st = r.choice(["RAW", "VEC", "SPTR"])
    so, sw = (st, st) if r.random() < 0.4 else (r.choice(["RAW", "VEC", "SPTR"]), r.choice(["RAW", "VEC", "SPTR"]))
    return [f"-DVP_L={label}", f"-DVP_O={ordinal}", f"-DVP_W={weight}", f"-DVP_SL={st}", f"-DVP_SO={so}", f"-DVP_SW={sw}"]

def compile_flavour(pid, plan, fl, bdir, seed):
    """Objects and link command of one flavour; returns [(cmd, out)], binary."""
    spec = FLAVOURS[fl["flavour"]]
    d = bdir / fl["flavour"]
    d.mkdir(parents=True, exist_ok=True)
    defs = [f'-DVP_FLAVOUR="{fl["flavour"]}"'] + spec["defs"]
    inc = [f"-I{HERE / 'harness'}", f"-I{REPO / 'include'}"] + [x.replace("@REPO@", str(REPO)).replace("@BUILD@", str(bdir)) for x in plan.get("inc", [])]
    base = ["g++", "-std=c++17", "-g1", "-w"] + defs + inc
    jobs, objs = [], []
    eng = ["-fsanitize=address"] if "-fsanitize=address" in spec["cxx"] else []
    for src, flags in (("pbt.cpp", eng), ("rt.cpp", eng + spec["rt"]), ("gen.cpp", eng)):
        o = d / (src + ".o")
        jobs.append((base + ["-O1"] + flags + ["-c", str(HERE / "harness" / src), "-o", str(o)], "engine"))
        objs.append(o)
    for i, src in enumerate(fl.get("files", [pid])):
        for part in fl["parts"] if src == pid else fl["other_parts"](i) if "other_parts" in fl else fl["parts"]:
            o = d / f"{src}.{part}.o"
            jobs.append((base + spec["cxx"] + [f"-DVP_PART={part}"] + (type_config(seed, part) if part >= 8 and fl.get("random_types") else []) + ["-c", str(HERE / "props" / f"{src}.cpp"), "-o", str(o)], "harness"))
            objs.append(o)
    binary = d / "check"
    link = ["g++"] + spec["link"] + ["-o", str(binary)] + [str(o) for o in objs] + [f"-Wl,--wrap={w}" for w in WRAPS + plan.get("wraps", [])] + spec["libs"]
    return jobs, link, binary

def do_job(j):
    cmd, kind = j
    for attempt in range(2):
        r = run(cmd)
        if r.returncode == 0:
            return None
    return (kind, cmd, r.stdout)

def main():
    args = sys.argv[1:]
    pid = args[0]
    plan = PLAN[pid]
    tier = "thorough" if "--thorough" in args else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = float(args[args.index("--cases-scale") + 1]) if "--cases-scale" in args else 1.0
    if "--replay" in args:      # generated type configurations depend on the seed
        m = re.search(r"^seed: (\d+)", Path(args[args.index("--replay") + 1]).read_text(), re.M)
        seed = int(m.group(1)) if m else seed
    t0 = time.time()
    bdir = HERE / "build" / pid
    if bdir.exists() and not os.environ.get("VP_KEEP"):
        shutil.rmtree(bdir)
    bdir.mkdir(parents=True, exist_ok=True)
    out = bdir / "out"
    shutil.rmtree(out, ignore_errors=True)
    out.mkdir()

    # A locale with a decimal comma, if the system can make one
    os.environ["LOCPATH"] = str(bdir / "locale")
    if pid in ("C02", "C13", "C14", "C18", "C19") and shutil.which("localedef"):
        (bdir / "locale").mkdir(exist_ok=True)
        run(["localedef", "-i", "de_DE", "-f", "UTF-8", str(bdir / "locale" / "de_DE.UTF-8")])

    if plan.get("prepare"):
        r = run([sys.executable, str(HERE / plan["prepare"]), str(REPO), str(bdir)])
        if r.returncode == 1:
            return report_violation(pid, plan, tier, seed, t0, [], out, "prepare step", r.stdout)
        if r.returncode != 0:
            print(r.stdout); print("error: prepare step failed"); return 2

    flavours = [f for f in plan["flavours"] if tier == "thorough" or not f.get("thorough_only")]
    jobs, links = [], []
    for fl in flavours:
        j, link, binary = compile_flavour(pid, plan, fl, bdir, seed)
        jobs += j; links.append((fl, link, binary))
    # long jobs (harness) first
    jobs.sort(key=lambda j: j[1] != "harness")
    with ThreadPoolExecutor(JOBS) as ex:
        bad = [x for x in ex.map(do_job, jobs) if x]
    if not bad:
        with ThreadPoolExecutor(JOBS) as ex:
            bad = [x for x in ex.map(do_job, [(l, "link") for _, l, _ in links]) if x]
    if bad:
        kind, cmd, text = bad[0]
        # The harness compiles on every tree where the library still has its
        # documented interface; an error inside the library's own headers is
        # a configuration it no longer supports.
        errs = [l for l in text.splitlines() if "error:" in l or "undefined reference" in l or "multiple definition" in l]
        if (kind == "harness" and errs) or (kind == "link" and plan.get("link_is_property")):
            return report_violation(pid, plan, tier, seed, t0, [], out, "does not compile", " ".join(cmd) + "\n\n" + text)
        print(text[-4000:]); print("error: build failed"); return 2

    if "--replay" in args:
        f = args[args.index("--replay") + 1]
        want = re.search(r"^flavour: (\S+)", Path(f).read_text(), re.M).group(1)
        for fl, _, binary in links:
            if fl["flavour"] == want:
                return subprocess.run([str(binary), "replay", f] + fl.get("args", [])).returncode
        return 2

    results = []
    for fl, _, binary in links:
        cases = int(fl["cases"][0 if tier == "quick" else 1] * scale)
        wall = plan.get("wall", (110, 400))[0 if tier == "quick" else 1]
        cmd = [str(binary), "run", "--seed", str(seed), "--cases", str(cases), "--workers", str(fl.get("workers", JOBS)),
               "--out", str(out), "--wall", str(wall)] + fl.get("args", []) + (["--thorough"] if tier == "thorough" else [])
        r = run(cmd)
        rf = out / f"result-{fl['flavour']}.json"
        if not rf.exists():
            print(r.stdout[-3000:]); print("error: the search did not report"); return 2
        res = json.loads(rf.read_text()); res["asked"] = cases
        results.append(res)
        if res["violations"]:
            break
    vio = [v for r in results for v in r["violations"]]

    # Recorded findings: replayed, reported as such, never a violation
    known = []
    kf = json.loads((HERE / "known_findings.json").read_text())
    for k in kf["known"]:
        if k["property"] != pid:
            continue
        for fl, _, binary in links:
            if fl["flavour"] == k.get("flavour", "asan"):
                r = run([str(binary), "known", k["replay"]])
                if r.returncode == 1:
                    print(f"KNOWN-FINDING: property={pid} {k['what']}")
                    known.append(k["what"])
                break
    if vio:
        v = vio[0]
        rp = HERE / "build" / pid / f"{pid}.replay.txt"
        shutil.copy(v["replay"], rp)
        write_evidence(pid, plan, tier, seed, t0, results, 1, known)
        print('\n'.join(l[:2000] for l in Path(rp).read_text().splitlines())[:8000])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    write_evidence(pid, plan, tier, seed, t0, results, 0, known)
    n = sum(r["evals"] for r in results)
    print(f"{pid}: held on {n} cases ({sum(r['distinct'] for r in results)} distinct non-trivial), {time.time()-t0:.1f} s"
          + "".join(f"; {r['flavour']} {r['evals']}/{r['asked']} in {r['wall']:.1f} s" for r in results)
          + "".join(f"; inconclusive: {r['inconclusive_msg']}" for r in results if r["inconclusive"]))
    return 0

def report_violation(pid, plan, tier, seed, t0, results, out, what, text):
    rp = HERE / "build" / pid / f"{pid}.replay.txt"
    rp.write_text(f"{what}\n{text}")
    write_evidence(pid, plan, tier, seed, t0, results, 1, [])
    print(text[-4000:])
    print(f"VIOLATION property={pid} replay={rp}")
    return 1

def write_evidence(pid, plan, tier, seed, t0, results, violations, known):
    labels, per, samples = {}, {}, []
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["per"].items():
            per[f"{r['flavour']}: {k}"] = v
        samples += [f"[{r['flavour']}] {s}" for s in r["samples"][:6]]
    cov = {
        "evaluations": sum(r["evals"] for r in results),
        "distinct_nontrivial": sum(r["distinct"] for r in results),
        "rule": plan["rule"],
        "samples": samples or ["(none: the search stopped before a sample was taken)"],
        "case_labels": labels,
        "cases_per_property": per,
        "inconclusive": sum(r["inconclusive"] for r in results),
        "flavours": [{"flavour": r["flavour"], "cases": r["evals"], "wall_s": round(r["wall"], 2)} for r in results],
        "known_findings_replayed": known,
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": plan.get("level", "exploration"),
          "coverage": cov, "assumptions": plan.get("assumptions", []) + LEVEL_NOTES, "wall_s": round(time.time() - t0, 2), "violations": violations}
    (HERE / "evidence").mkdir(exist_ok=True)
    (HERE / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1))

if __name__ == "__main__":
    sys.exit(main())
