#!/usr/bin/env python3
"""Build what a check needs from /repo's current tree, explore, write evidence, report.
usage: run.py Cxx [--tier quick|thorough] [--build-only] [--replay FILE] [--set k=v] [--only scenario]"""
import sys, os, json, glob, subprocess, time, argparse, hashlib, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from checks import CHECKS

INC = [f"-I{VERIF}/smp", f"-I{REPO}/include", f"-I{REPO}/src", f"-I{REPO}/src-gen", f"-I{VERIF}/mc", f"-I{VERIF}/rt", f"-I{VERIF}/harness"]
FLAVOR = {
    "asan": ["-O1", "-gline-tables-only", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "rt":   ["-O1", "-gline-tables-only", "-fsanitize=thread", "-fno-omit-frame-pointer", "-DMC_RT"],
    "rtg":  ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-DMC_RT"],   # /repo's sources compiled by g++ (other order of evaluation)
    "plain": ["-O1", "-g1"],
}
LINK = {"asan": ["-fsanitize=address,undefined"], "rt": [], "rtg": [], "plain": []}

def rel(pats):
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p), recursive=True))
    return out

def libsources(lib):
    """Library source groups, by directory, so that added or renamed files are followed."""
    ex = lambda f: not (f.endswith(".pkg.cpp") or "/python" in f.lower() or "/Tests/" in f or os.path.basename(f).startswith("xsmp_tests"))
    core = [f for f in rel(["src/Smp/**/*.cpp", "src/Xsmp/*.cpp", "src/Xsmp/Publication/**/*.cpp"]) if ex(f)]
    svc = [f for f in rel(["src/Xsmp/Services/**/*.cpp", "src-gen/Xsmp/Services/**/*.cpp", "src-gen/xsmp_*.cpp", "src/xsmp_*.cpp"]) if ex(f)]
    tst = [f for f in rel(["src/Xsmp/Tests/**/*.cpp", "src-gen/Xsmp/Tests/**/*.cpp", "src-gen/xsmp_tests*.cpp"]) if not f.endswith(".pkg.cpp")]
    if lib == "none": return []
    if lib == "core": return core
    if lib == "services": return core + svc
    if lib == "tests": return core + svc + tst
    return [os.path.join(REPO, f) for f in lib]

def objname(flavor, src):
    r = os.path.relpath(src, REPO) if src.startswith(REPO + "/") else os.path.relpath(src, VERIF)
    return os.path.join(BUILD, flavor, r.replace("/", "__").replace("..", "") + ".o")

def build(cid, spec, only=None):
    os.makedirs(BUILD, exist_ok=True)
    bins = {}
    rules = ["ninja_required_version = 1.5", "rule cxx", "  command = clang++ -std=c++17 -MMD -MF $out.d $flags -c $in -o $out", "  deps = gcc", "  depfile = $out.d", "  description = CXX $in",
             "rule gxx", "  command = g++ -std=c++17 -MMD -MF $out.d $flags -c $in -o $out", "  deps = gcc", "  depfile = $out.d", "  description = G++ $in",
             "rule link", "  command = clang++ $lflags -o $out $in $libs", "  description = LINK $out"]
    seen = set()
    targets = []
    for part in spec["parts"]:
        fl = part.get("flavor", "asan")
        srcs = [os.path.join(VERIF, "harness", h) for h in part["harness"]] + [os.path.join(VERIF, "mc/mc.cpp")] + libsources(part.get("lib", "none"))
        if fl in ("rt", "rtg"): srcs += [os.path.join(VERIF, "rt/rt.cpp")]
        objs = []
        for s in srcs:
            inst = fl
            flags = list(FLAVOR[fl])
            if fl == "rtg" and not s.startswith(REPO): inst = "rt"; flags = list(FLAVOR["rt"])
            if fl in ("rt", "rtg") and (s.endswith("rt/rt.cpp") or s.endswith("mc/mc.cpp")):
                flags = ["-O2", "-gline-tables-only", "-DMC_RT"]
                inst = "rtx"
            extra = part.get("cflags", []) if s.startswith(os.path.join(VERIF, "harness")) else []
            o = objname(inst, s)
            objs.append(o)
            if o in seen: continue
            seen.add(o)
            warn = ["-w"] if s.startswith(REPO) else ["-Wall"]
            rules.append(f"build {o}: {'gxx' if inst == 'rtg' else 'cxx'} {s}\n  flags = {' '.join(flags + warn + INC + extra)}")
        exe = os.path.join(BUILD, f"{cid}_{part['name']}")
        rules.append(f"build {exe}: link {' '.join(objs)}\n  lflags = {' '.join(LINK[fl] + part.get('lflags', []))}\n  libs = -ldl -lpthread {' '.join(part.get('libs', []))}")
        targets.append(exe)
        bins[part["name"]] = exe
        for e in part.get("extra", []):     # extra shared libraries: (name, sources, flags)
            so = os.path.join(BUILD, cid + "_files", e["name"])
            os.makedirs(os.path.dirname(so), exist_ok=True)
            ss = [s if s.startswith("/") else (os.path.join(REPO, s[6:]) if s.startswith("@repo/") else os.path.join(VERIF, "harness", s)) for s in e["src"]]
            rules.append(f"build {so}: link {' '.join(ss)}\n  lflags = {' '.join(['-std=c++17','-shared','-fPIC','-w'] + INC + e.get('flags', []))}\n  libs = {' '.join(e.get('libs', []))}")
            targets.append(so)
    nf = os.path.join(BUILD, f"{cid}.ninja")
    with open(nf, "w") as f:
        f.write(f"builddir = {BUILD}/.n_{cid}\n" + "\n".join(rules) + "\n")
    r = subprocess.run(["ninja", "-f", nf] + targets, cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        print(f"ERROR: build failed for {cid}")
        sys.exit(2)
    return bins

def load_known(cid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                f = l[7:].strip().split(" ", 2)
                if f[0] == f"property={cid}":
                    out.append((f[1][4:].replace("%20", " "), f[2] if len(f) > 2 else ""))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--build-only", action="store_true"); ap.add_argument("--replay"); ap.add_argument("--set", action="append", default=[])
    ap.add_argument("--only"); ap.add_argument("--part"); ap.add_argument("--raw", action="store_true")
    a = ap.parse_args()
    cid = a.cid; spec = CHECKS[cid]
    t0 = time.time()
    bins = build(cid, spec)
    tbuild = time.time() - t0
    if a.build_only: return 0
    env = dict(os.environ); env.pop("MC_NOASLR", None)
    work = os.path.join(BUILD, cid + "_out"); os.makedirs(work, exist_ok=True)
    scratch = os.path.join(BUILD, cid + "_files"); os.makedirs(scratch, exist_ok=True)
    env["MC_FILES"] = scratch
    if a.replay:
        part = a.part or spec["parts"][0]["name"]
        for l in open(a.replay):
            if l.startswith("part "): part = l.split()[1]
        return subprocess.run([bins[part], "--out", work, "--replay", os.path.abspath(a.replay)], env=env, cwd=scratch).returncode
    known = load_known(cid)
    runs = spec[a.tier] if a.tier in spec else spec["quick"]
    tot = dict(executions=0, choices=0, edges=0, states=0, hits=0, outcomes=0, checks=0)
    samples, details, rc, violations, knownhit, exhaustive = [], [], 0, 0, {}, True
    vio_line = None
    deadline = time.time() + spec.get(a.tier + "_budget", 240 if a.tier == "quick" else 840 - tbuild)
    for i, r in enumerate(runs):
        part = r.get("part", spec["parts"][0]["name"])
        if a.part and a.part != part: continue
        pspec = [p for p in spec["parts"] if p["name"] == part][0]
        res = os.path.join(work, f"result{i}.json")
        if os.path.exists(res): os.remove(res)
        left = deadline - time.time()
        if left < 1:
            exhaustive = False; details.append(dict(part=part, params=r.get("set", {}), skipped="time budget")); continue
        cmd = [bins[part], "--out", work, "--budget", str(left)]
        if not a.raw: cmd += ["--result", res]
        if a.tier == "thorough": cmd.append("--thorough")
        if pspec.get("isolate"): cmd.append("--isolate")
        for k, v in r.get("set", {}).items(): cmd += ["--set", f"{k}={v}"]
        for s in a.set: cmd += ["--set", s]
        only = a.only or r.get("only")
        if only: cmd += ["--only", only]
        for k in r.get("args", []): cmd.append(k)
        for k, _ in known: cmd += ["--known", k]
        p = subprocess.run(cmd, env=env, cwd=scratch)
        if a.raw: rc = max(rc, p.returncode); continue
        if not os.path.exists(res):
            print(f"ERROR: harness of {cid}/{part} ended with {p.returncode}"); return 2
        d = json.loads(open(res).read(), strict=False)
        for k in tot: tot[k] += d[k]
        samples += d["samples"][:2]
        if d["capped"]: exhaustive = False
        details.append(dict(part=part, params=r.get("set", {}), executions=d["executions"], states=d["states"], edges=d["edges"], checks=d["checks"], outcomes=d["outcomes"], max_choices=d["max_choices"], scenarios=d["scenarios"], capped=d["capped"], wall_s=round(d["wall"], 2)))
        for k, v in d["known"].items():
            knownhit.setdefault(k, 0); knownhit[k] += v["count"]
        if d["rc"] == 2:
            print(f"ERROR: {cid}/{part}: {d.get('error', 'see stderr')}"); rc = 2; break
        if d["rc"] == 1:
            v = d["violation"]; violations += 1; rc = 1
            rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
            rf = os.path.join(rd, f"{cid}.txt")
            with open(rf, "w") as f:
                f.write(f"# replay: python3 run.py {cid} --replay {rf}\nproperty {cid}\npart {part}\n")
                if a.tier == "thorough": f.write("thorough\n")
                for k, x in r.get("set", {}).items(): f.write(f"param {k}={x}\n")
                f.write(f"choices {v['choices']}\n\nkey: {v['key']}\n{v['msg']}\n\ntrace:\n{v['trace']}\n")
            print(f"{cid}: {v['key']}\n{v['msg'][:1500]}\ntrace:\n{v['trace'][-2500:]}")
            vio_line = f"VIOLATION property={cid} replay={rf}"
            break
    if a.raw: return rc
    if rc == 0 and tot["executions"] == 0:
        print(f"ERROR: nothing was explored for {cid}"); return 2
    hit = []
    for pat, desc in known:
        n = sum(c for k, c in knownhit.items() if (pat.endswith("*") and k.startswith(pat[:-1])) or k == pat)
        if n: hit.append(pat); print(f"KNOWN-FINDING: property={cid} {desc} [{pat}, {n} executions]")
    nstates = tot["states"] + tot["edges"] + 1 if tot["states"] == 0 else tot["states"]
    ev = dict(property=cid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec.get("level", "model_checking"),
              coverage=dict(states=nstates, transitions=tot["edges"], traces_validated_against_impl=tot["executions"], evaluations=tot["checks"], distinct_outcomes=tot["outcomes"],
                            samples=samples[:6] or ["(none)"], exhaustive=exhaustive and rc == 0, bounds=spec.get("bounds", ""), runs=details,
                            rule="each execution is one complete choice sequence run on the implementation in lock-step with the reference model; states are distinct canonical states where the driver prunes, else distinct choice-tree nodes"),
              assumptions=spec.get("assumptions", ["SMP interface headers are the stand-ins in smp/", "data values outside the stated alphabet are not covered"]),
              wall_s=round(time.time() - t0, 2), violations=violations)
    if knownhit: ev["coverage"]["known_findings"] = knownhit
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{cid}.json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{cid} {a.tier}: executions={tot['executions']} states={nstates} transitions={tot['edges']} checks={tot['checks']} outcomes={tot['outcomes']} exhaustive={ev['coverage']['exhaustive']} build={tbuild:.1f}s total={time.time()-t0:.1f}s rc={rc}")
    if vio_line: print(vio_line)
    return rc

if __name__ == "__main__":
    sys.exit(main())
