#!/usr/bin/env python3
"""Driver of the checks.

  check.py C06               explore (tier from VERIF_TIER, seed from VERIF_SEED), write evidence/C06.json
  check.py C06 --tier thorough --seed 7 --count 500
  check.py replay FILE       run one replay file again and print what it does

Exit: 0 the property held on everything explored; 1 with a line
"VIOLATION property=<id> replay=<path>"; 2 the check itself could not decide.
"""
import json, os, subprocess, sys, time, struct

V = os.path.dirname(os.path.abspath(__file__))
WORKERS = 8
# runs per worker in the quick tier, and the cap in seconds (whichever comes first)
QUICK = dict(C01=(900, 85), C02=(900, 85), C03=(1500, 85), C04=(900, 80), C05=(2200, 90), C06=(900, 90), C07=(900, 90),
             C08=(900, 95), C09=(4500, 60), C10=(5000, 80), C11=(5000, 70), C12=(1200, 85), C13=(1500, 85), C14=(1100, 90),
             C15=(1500, 85), C17=(1100, 95), C18=(1500, 95), C19=(1500, 95), C20=(1200, 85), C21=(1500, 85))
THOROUGH_SECONDS = 660
LEVEL = "exploration"

WORLD = {
 "C01": "2-4 caller threads run real compress/decompress/Huffman/lossless calls under a seeded scheduler that can switch before every instrumented memory access; reference: each call run alone",
 "C02": "the same call is made after seeded histories of other calls, with other heap fill, block placement, stack residue, clock and rand() state; reference: the call in a pristine process",
 "C03": "every allocation is fenced and shadow-checked, every instrumented access and libc copy is checked against the blocks alive at that step; inputs are write-protected",
 "C04": "histories are repeated; the simulated heap's ledger must be balanced after the caller freed what it was handed",
 "C05": "one or more allocation requests are refused at seeded points; result must equal the fault-free one or fail visibly",
 "C06": "archives are stored and loaded over sessions (epochs) on a simulated disk with kills, restarts, short and interrupted I/O and several threads; the bound oracle judges every load",
 "C07": "as C06 for the 2D vector-field compressors",
 "C08": "as C06; a critical-point test in 80-bit arithmetic with a rounding margin judges every cell",
 "C09": "lossless artefacts are stored under crashes, torn and cut writes and loaded again",
 "C10": "file readers and the programs run over a simulated disk with missing/unreadable/short files, EIO, EINTR, short and slow reads",
 "C11": "file writers and the programs run over a simulated disk with full disk, EIO, failing open/close, short and interrupted writes",
 "C12": "the programs are killed at seeded steps or I/O calls and rerun on the surviving disk, with clock jumps; compared with an undisturbed run",
 "C13": "sequences of Huffman and bit sections are encoded into one buffer and decoded by several threads under the seeded scheduler",
 "C14": "as C06 for the 3D vector-field compressors (FTK replaced by a stand-in for the mesh predicates)",
 "C15": "as C06 with all codecs; the size of every stored archive is held against the raw size",
 "C17": "as C07; every cell with a critical point before and after is classified by the signs of determinant, trace and discriminant of its Jacobian",
 "C18": "as C14; the four determinants of every tetrahedron decide about critical points before and after",
 "C19": "as C07 and C14; the corners of cells with a critical point must come back bit for bit",
 "C21": "each operation runs under a step budget and a peak-memory limit in proportion to its data, after seeded histories, in all environments and after refused allocations; fields from one point to 60000 values (thorough: 160000); block copies are charged by their size",
 "C20": "as C12; what the programs print and write is recomputed from their input and output files",
}
RULE = {
 "default": "a run is one generated plan (operations, parameters, environment, schedule seed, fault list) executed to the end; it counts when it exercised the property (at least one archive loaded / fault delivered / second caller interleaved, as recorded by the world) and its signature differs from all other runs",
 "C01": "a run counts when the scheduler switched callers at least twice; distinct = distinct hash over the sequence (step, thread) of all switches",
 "C13": "distinct = distinct hash of plan text and schedule",
 "C05": "a run counts when at least one allocation was refused; distinct = distinct operations plus refused-allocation ordinals",
}
REAL = ["all of src/*.cpp and include/*.hpp of /repo (recompiled from the working tree with access instrumentation)",
        "the programs under /repo/test that are run as nodes (C10-C12, C20)", "libzstd", "libstdc++ iostreams",
        "guided searches additionally run the same sources compiled without access instrumentation (plain.so); what they find is reproduced on the instrumented code before it is reported"]
STUB = ["thread scheduler, heap, clock, rand(), open/read/write/close/stat/unlink system calls (simulated)"]


def build():
    p = subprocess.run(["bash", os.path.join(V, "build.sh")], capture_output=True, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout); sys.stderr.write(p.stderr)
        print("ERROR: the simulator could not be built from the working tree"); sys.exit(2)
    return p.stdout.strip().splitlines()[-1]


def run_plan(sim, path, timeout=300):
    p = subprocess.run([sim, "run", path], capture_output=True, text=True, timeout=timeout)
    for l in reversed(p.stdout.strip().splitlines()):
        try: return p.returncode, json.loads(l)
        except ValueError: pass
    return p.returncode, None


def load_known(prop):
    """known findings: lines 'known: {json}' with keys property, cls, plan, match (part of the message), what.
    Lines 'fixed: ...' are a record only and suppress nothing."""
    out = []
    for l in open(os.path.join(V, "known_findings.txt")):
        if l.startswith("known:"):
            k = json.loads(l[6:])
            if k["property"] == prop: out.append(k)
    return out


def is_known(known, res):
    return any(k.get("cls") == res["cls"] and k["match"] in res["msg"] for k in known)


def main():
    a = sys.argv[1:]
    if a and a[0] == "replay":
        sim = build(); rc, r = run_plan(sim, a[1]); print(json.dumps(r)); sys.exit(rc)
    prop = a[0]
    opt = dict(zip([x[2:] for x in a[1::2]], a[2::2]))
    tier = opt.get("tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(opt.get("seed", os.environ.get("VERIF_SEED", "1")))
    except ValueError: seed = 1
    t0 = time.time()
    sim = build()
    scratch = os.path.join(V, "build", "out", "%s.%d" % (prop, os.getpid())); os.makedirs(scratch, exist_ok=True)
    replays = os.path.join(V, "build", "replays"); os.makedirs(replays, exist_ok=True)
    known = load_known(prop)
    for i, k in enumerate(known):
        rc, r = run_plan(sim, os.path.join(V, k["plan"]))
        if r and r["viol"] and is_known([k], r): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        elif r and not r["viol"]: print("note: known finding no longer fails: %s" % k["what"])
    if tier == "quick": count, secs = QUICK[prop]
    else: count, secs = 10**7, THOROUGH_SECONDS
    count = int(opt.get("count", count)); secs = float(opt.get("seconds", secs))
    kf = os.path.join(scratch, "known")
    if known: open(kf, "w").write("".join("%s\t%s\n" % (k["cls"], k["match"]) for k in known))
    ps = []
    for i in range(WORKERS):
        out = os.path.join(scratch, "w%d.json" % i); sig = os.path.join(scratch, "w%d.sig" % i)
        cmd = [sim, "explore", "--prop", prop, "--seed", str(seed), "--from", str(i), "--step", str(WORKERS), "--count", str(count),
               "--seconds", str(secs), "--out", out, "--sigs", sig, "--maxviol", "1"]
        if known: cmd += ["--known", kf]
        if tier == "thorough": cmd += ["--thorough", "1"]
        ps.append((subprocess.Popen(cmd, stdout=open(os.path.join(scratch, "w%d.log" % i), "w"), stderr=subprocess.STDOUT), out, sig, i))
    ds, sigs, errs = [], set(), []
    for p, out, sig, i in ps:
        try: p.wait(timeout=secs + 180)
        except subprocess.TimeoutExpired: p.kill(); p.wait(); errs.append("worker %d did not stop" % i)
        try: ds.append(json.load(open(out)))
        except Exception as e: errs.append("worker %d left no result (%s): %s" % (i, e, open(os.path.join(scratch, "w%d.log" % i)).read()[-400:]))
        if os.path.exists(sig):
            b = open(sig, "rb").read(); sigs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    found = [f for d in ds for f in d["found"]]
    found.sort(key=lambda f: f["id"])
    nknown = sum(d.get("known", 0) for d in ds)
    explore_s = time.time() - t0
    # ---- judge what was found: it must reproduce exactly, in a fresh process, before it is reported
    reported = None; unsettled = []
    for f in found:
        if reported: break
        raw = os.path.join(scratch, "raw.%d" % f["id"]); open(raw, "w").write(f["plan"])
        rc1, r1 = run_plan(sim, raw); rc2, r2 = run_plan(sim, raw)
        if not (r1 and r2 and r1["viol"] and r2["viol"] and r1["hash"] == r2["hash"] and r1["cls"] == r2["cls"]):
            unsettled.append((f["id"], r1, r2)); continue
        rep = os.path.join(replays, "%s-seed%d-run%d.replay" % (prop, seed, f["id"]))
        budget = 60 if tier == "quick" else 200
        try: subprocess.run([sim, "shrink", raw, rep, str(budget)], capture_output=True, text=True, timeout=budget * 2 + 120)
        except subprocess.TimeoutExpired: pass
        ok = False
        if os.path.exists(rep):
            rc3, r3 = run_plan(sim, rep); rc4, r4 = run_plan(sim, rep)
            ok = bool(r3 and r4 and r3["viol"] and r3["hash"] == r4["hash"] and r4["viol"] and not is_known(known, r3))
        if not ok:
            open(rep, "w").write("# not minimised\n# class %s\n# %s\n%s" % (r1["cls"], r1["msg"], f["plan"])); r3 = r1
        reported = (rep, r3, f["id"])
    # ---- evidence
    tot = lambda g: sum(g(d) for d in ds)
    merge = lambda key: {k: sum(d[key].get(k, 0) for d in ds) for k in sorted({k for d in ds for k in d[key]})}
    runs = tot(lambda d: d["runs"]); inv = tot(lambda d: d["invalid"]); wall = max([d["wall"] for d in ds] or [0.001])
    st = merge("stats") if ds else {}
    probes = {k: v for k, v in merge("probes").items() if v} if ds else {}
    no3d = any(not d["has3d"] for d in ds)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL,
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": len(sigs), "rule": RULE.get(prop, RULE["default"]),
              "samples": [s for d in ds for s in d["samples"]][:3],
              "what_runs": WORLD[prop],
              "runs_per_hour": int(runs / wall * 3600), "seeds_per_hour": int(runs / wall * 3600),
              "simulated_steps": st.get("steps", 0), "simulated_processes": st.get("children", 0), "context_switches": st.get("switches", 0),
              "simulated_clock_seconds": st.get("simns", 0) / 1e9, "simulated_allocations": st.get("allocs", 0),
              "faults_delivered": merge("faults") if ds else {}, "probes": probes, "worlds": merge("worlds") if ds else {}, "operations": merge("ops") if ds else {},
              "determinism_rechecks": tot(lambda d: d["rechecked"]), "discarded_runs": inv, "discard_reasons": merge("invalid_reasons") if ds else {},
              "real_components": REAL, "simulated_components": STUB + (["FTK (stand-in header for three mesh predicates)"] if prop in ("C01", "C02", "C03", "C04", "C05", "C09", "C14", "C12", "C15", "C18", "C19", "C20", "C10", "C11") else []),
              "three_dimensional_part_built": not no3d, "known_findings_seen": nknown},
          "assumptions": ["the simulated system calls return what POSIX allows", "interleavings are sequentially consistent (one thread runs at a time)"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if reported else 0}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    subprocess.run(["rm", "-rf", scratch])
    print("%s %s seed=%d: %d runs (%d distinct non-trivial), %d discarded, %.0f runs/h, %.1f s" % (prop, tier, seed, runs, len(sigs), inv, runs / wall * 3600, time.time() - t0))
    if reported:
        print("run %d: [%s] %s" % (reported[2], reported[1]["cls"], reported[1]["msg"]))
        print("replay again with: python3 %s replay %s" % (os.path.join(V, "check.py"), reported[0]))
        print("VIOLATION property=%s replay=%s" % (prop, reported[0])); sys.exit(1)
    if unsettled:
        print("ERROR: a failure did not reproduce exactly: %s" % (unsettled[:2],)); sys.exit(2)
    if errs: print("ERROR: " + "; ".join(errs)); sys.exit(2)
    if runs == 0 or inv * 5 > runs: print("ERROR: too few usable runs (%d of %d discarded)" % (inv, runs)); sys.exit(2)
    if prop in ("C14", "C18") and no3d: print("ERROR: the 3D part did not build against the FTK stand-in"); sys.exit(2)
    sys.exit(0)


main()
