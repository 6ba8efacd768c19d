#!/usr/bin/env python3
"""Run one property check: run.py <ID> <quick|thorough>

Builds the program under test from /repo's current working tree, explores it
exhaustively within the check's bounds, rewrites evidence/<ID>.json and prints
KNOWN-FINDING / VIOLATION lines. Exit 0: held on everything explored; 1: violated.
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUDGET = {"quick": 420, "thorough": 3000}
def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    t0 = time.time()
    meta = json.load(open(f"{V}/checks/meta.json"))[pid]
    build = os.environ.get("VERIF_BUILD", f"{V}/build")
    binaries = meta.get("parts", [{"bin": pid}])
    os.makedirs(f"{V}/evidence", exist_ok=True); os.makedirs(f"{V}/replays", exist_ok=True)
    known = []
    kf = f"{V}/known_findings.txt"
    if os.path.exists(kf):
        for l in open(kf):
            l = l.rstrip("\n")
            # finding: property=<id> key=<key> <what>
            if l.startswith(f"finding: property={pid} key="):
                key, what = l.split("key=", 1)[1].split(" ", 1); known.append((key, what))
    knf = f"{V}/replays/{pid}.known"
    with open(knf, "w") as f:
        for k, w in known: f.write(f"{k}\t{w}\n")
    tot = dict(executions=0, choice_points=0, states=0, transitions=0, evaluations=0, distinct=0, truncated=0, samples=[], known=[])
    viol = 0
    for part in binaries:
        b = build + part.get("suffix", "")
        cmd = ["make", "-s", "-j8", "-f", f"{V}/harness/Makefile", f"REPO={REPO}", f"B={b}"] + part.get("make", []) + [f"{b}/{part['bin']}"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:]); print(f"cannot build check {pid}"); sys.exit(2)
        sumf, vf = f"{V}/replays/{pid}.{part['bin']}.sum", f"{V}/replays/{pid}.{part['bin']}.trace"
        for x in (sumf, vf):
            if os.path.exists(x): os.remove(x)
        left = BUDGET[tier] - (time.time() - t0)
        args = [f"{b}/{part['bin']}", "--summary", sumf, "--violation", vf, "--known", knf, "--budget", str(max(30, left)), "--cores", str(os.cpu_count() or 8)]
        if tier == "thorough": args.append("--thorough")
        r = subprocess.run(args)
        if not os.path.exists(sumf):
            print(f"check {pid} gave no answer (status {r.returncode})"); sys.exit(2)
        s = json.load(open(sumf))
        for k in ("executions", "choice_points", "states", "transitions", "evaluations", "distinct"): tot[k] += s[k]
        tot["truncated"] |= s["truncated"]; tot["samples"] += s["samples"]; tot["known"] += s["known"]
        os.remove(sumf)
        if s["violations"] or r.returncode == 1:
            viol = 1; replay = vf; break
    os.remove(knf)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=meta.get("level", "model_checking"),
        coverage=dict(states=tot["states"], transitions=tot["transitions"], choice_points=tot["choice_points"],
            traces_validated_against_impl=tot["executions"], **({"evaluations": tot["evaluations"] - tot["executions"]} if tot["evaluations"] > tot["executions"] else {}), distinct_nontrivial=tot["distinct"],
            rule=meta["rule"], samples=tot["samples"][:8], exhaustive=not tot["truncated"], bounds=meta["bounds"]),
        assumptions=meta.get("assumptions", []) + ["the environment (sockets, clock, scheduler, file paths) is the controlled stand-in of harness/sim.cpp; the program code is the unmodified working tree compiled with AddressSanitizer"],
        wall_s=round(time.time() - t0, 2), violations=viol)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for k, w in tot["known"]:
        print(f"KNOWN-FINDING: property={pid} {w}")
    if viol:
        print(f"VIOLATION property={pid} replay={replay}"); sys.exit(1)
    print(f"OK {pid} {tier}: executions={tot['executions']} states={tot['states']} wall={ev['wall_s']}s" + (" (time budget hit: not exhaustive)" if tot["truncated"] else ""))
    sys.exit(0)
main()
