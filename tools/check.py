#!/usr/bin/env python3
"""check.py PROP [--thorough]: builds the checker of PROP from /repo's working tree, runs it, writes evidence.

exit 0: the property held on everything explored; exit 1 + "VIOLATION property=.. replay=..": broken;
exit 2: the check itself could not run (no verdict).
check.py --replay FILE: rebuilds and re-executes a stored violation.
"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("CHECK_REPO", "/repo")  # development only: another working tree
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS  # noqa: E402

CXX = ["g++", "-std=c++17", "-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_OMP",
       "-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP", "-DNDEBUG", "-fopenmp", "-w", "-I" + R + "/src",
       "-I" + R + "/src/cuda", "-I" + V + "/mc"]
ENV = dict(os.environ, OMP_NUM_THREADS="1", OMP_DYNAMIC="false", OMP_WAIT_POLICY="passive", LC_ALL="C")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, text=True, **kw)


class BuildError(Exception):
    pass


MON = ["-U_FORTIFY_SOURCE", "-fsanitize=thread", "-fno-omit-frame-pointer"]  # code under test calls the monitor (mc/rt.cpp), not libtsan
WRAP = ["-Wl," + ",".join("--wrap=" + x for x in ("malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign", "memcpy", "memmove", "memset", "pthread_mutex_lock", "pthread_mutex_unlock",
                                                        "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"))]


def parts(cfg, thorough):
    """a property is checked by one or several executables"""
    return [p for p in cfg.get("parts", [dict(name="", src=cfg.get("src"))]) if thorough or not p.get("thorough")]


def build(prop, bdir, thorough=False, only=None):
    """compile everything the property needs from the current tree, in parallel; one executable per part"""
    cfg = PROPS[prop]
    mon = cfg.get("monitor")  # FOOT or SCHED
    ps = [p for p in parts(cfg, thorough) if only is None or p["name"] == only]
    decl = sh(["bash", V + "/tools/ftndecl.sh"])
    open(bdir + "/ftn_decl.h", "w").write(decl.stdout)
    jobs = []
    for g in cfg.get("gen", []):  # generated sources: (generator, output)
        r = sh([sys.executable, V + "/tools/" + g[0], bdir + "/" + g[1]] + list(g[2:]))
        if r.returncode:
            raise BuildError(r.stdout)
    for pt in sorted(ps, key=lambda p: not p.get("dsl")):
        for h in pt["src"]:
            p = V + "/mc/" + h if os.path.exists(V + "/mc/" + h) else bdir + "/" + h
            fl = cfg.get("flags", ["-O1"]) + (["-D" + mon, "-fno-omit-frame-pointer"] if mon else []) + (MON if pt.get("dsl") else [])
            jobs.append((CXX + fl + ["-I" + bdir, "-c", p], "h." + os.path.basename(h) + ".o"))
    if mon:
        jobs.append((["g++", "-O2", "-w", "-fno-omit-frame-pointer", "-c", V + "/mc/rt.cpp"], "h.rt.o"))
    kf = cfg.get("kflags", ["-O1"]) + (MON if mon else [])
    for k in cfg.get("cuda", []):
        jobs.append((CXX + kf + ["-c", f"{R}/src/cuda/{k}.cpp"], k + ".k.o"))
    for k in cfg.get("rep", []):
        jobs.append((CXX + kf + ["-c", f"{R}/{k}"], k.replace("/", ".") + ".k.o"))
    for m in cfg.get("m4", []):
        f = bdir + "/" + m + ".f"
        with open(f, "w") as o:
            r = subprocess.run(["m4", f"{R}/m4/{m}.m4", "-I" + R + "/m4"], stdout=o, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        jobs.append((["gfortran", "-w"] + cfg.get("fflags", ["-O1"]) + (MON if mon else []) + ["-c", f], m + ".f.o"))

    def one(j):
        cmd, o = j
        r = sh(cmd + ["-o", bdir + "/" + o])
        if r.returncode and "Killed signal" in r.stdout:  # out of memory
            time.sleep(20)
            r = sh(cmd + ["-o", bdir + "/" + o])
        if r.returncode and o.startswith("h."):  # without the library's internal helpers, in case one was renamed
            r2 = sh(cmd + ["-DPUBLIC_ONLY", "-o", bdir + "/" + o])
            r = r2 if not r2.returncode else r
        return (r.returncode, " ".join(cmd) + "\n" + r.stdout[-3000:], bdir + "/" + o)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    for rc, out, _ in res:
        if rc:
            raise BuildError(out)
    kern = [o for _, _, o in res if not os.path.basename(o).startswith("h.")]
    lib = []
    if kern:
        lib = [bdir + "/libk.a"]
        r = sh(["ar", "rcs"] + lib + kern)
        if r.returncode:
            raise BuildError(r.stdout)
    exes = []
    for pt in ps:
        exe = bdir + "/" + prop + (pt["name"] and "." + pt["name"])
        own = [f"{bdir}/h.{os.path.basename(h)}.o" for h in pt["src"]] + ([bdir + "/h.rt.o"] if mon else [])
        r = sh(["g++"] + (WRAP if mon else ["-fopenmp"]) + own + lib + ["-o", exe, "-lgfortran", "-lm"] + cfg.get("libs", []))
        if r.returncode:
            raise BuildError(r.stdout[-3000:])
        exes.append((pt["name"], exe))
    return exes


def known():
    """known_findings.txt: KNOWN-FINDING entries 'known: property=<id> match=<regex> -- <text>'"""
    out = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(.*?) -- (.*)", l)
            if m:
                out.append(m.groups())
    return out


def run(prop, thorough):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    os.makedirs(V + "/build", exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=prop + ".", dir=V + "/build")
    try:
        exes = build(prop, bdir, thorough)
        tb = time.time() - t0
        kn = [x for k in known() if k[0] == prop for x in ("--known", k[1], k[2])] + cfg.get("args", [])
        allws, viol, names = [], None, []
        for pt, (name, exe) in zip(parts(cfg, thorough), exes):
            # a part marked "cat" keeps the quick catalogue in the thorough tier (and explores more per call)
            big = thorough and not pt.get("cat")
            odir = bdir + "/out" + name
            os.mkdir(odir)
            t1 = time.time()
            p = subprocess.run([exe, "--prop", prop, "--out", odir, "--seed", str(seed)] + kn + (["--thorough"] if big else []) + (["--deep"] if thorough else []),
                               env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=bdir)
            ws = [json.load(open(f)) for f in sorted(glob.glob(odir + "/w*.json"))]
            if p.returncode or len(ws) != 8:
                print(p.stdout[-4000:])
                print(f"check {prop}: the checker failed (exit {p.returncode}, {len(ws)} results)")
                return 2
            allws += ws
            if name:
                print(f"  part {name}: {sum(w.get('transitions', 0) for w in ws)} transitions, {sum(w.get('runs', 0) for w in ws)} runs, {time.time()-t1:.1f}s", flush=True)
                names.append(name + ": " + ws[0].get("bounds", ""))
                if sum(w.get("transitions", 0) for w in ws) == 0 and not any(w["bad"] for w in ws):
                    print(f"check {prop}: vacuous run of part {name}")
                    return 2
            bad = [(k, w) for k, w in enumerate(ws) if w["bad"]]
            if bad:
                k, w = min(bad, key=lambda w: w[1]["scenario"])
                rdir = V + "/replays"
                os.makedirs(rdir, exist_ok=True)
                rp = f"{rdir}/{prop}{name and '-' + name}-{w['scenario']}.txt"
                ok = False
                # re-execute the violation on its own before reporting it (or, if it needs what ran before it, the worker's scenarios)
                for worker in (-1, k):
                    with open(rp, "w") as f:
                        f.write(f"property={prop}\npart={name}\nscenario={w['scenario']}\nworker={worker}\nseed={seed}\nthorough={int(big)}\ndeep={int(thorough)}\n"
                                f"what: {w['what']}\nreplay with: python3 {V}/tools/check.py --replay {rp}\n")
                    rr = subprocess.run([exe, "--prop", prop, "--out", odir, "--replay", rp] + kn, env=ENV, stdout=subprocess.PIPE,
                                        stderr=subprocess.STDOUT, text=True, cwd=bdir)
                    if not (rr.returncode == 0 and "not reproduced" in rr.stdout):
                        ok = True
                        break
                if not ok:
                    print(rr.stdout)
                    print(f"check {prop}: a violation did not reproduce: {w['what']}")
                    return 2
                viol = (w, rp)
                break
        ws = allws
        tot = {k: sum(w.get(k, 0) for w in ws) for k in ("mine", "states", "transitions", "runs", "cells", "changed")}
        kinds = sorted({k for w in ws for k in w.get("kinds", [])})
        samples = [s for w in ws for s in w.get("samples", [])][:12]
        cov = {}
        if cfg["level"] == "model_checking":
            cov = {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["runs"],
                   "samples": samples}
        else:
            cov = {"evaluations": tot["runs"], "distinct_nontrivial": tot["states"], "rule": cfg["rule"], "samples": samples}
        cov.update({"scenarios": tot["mine"], "memory_cells_compared": tot["cells"], "computed_cells_compared": tot["changed"],
                    "bounds_completed": " || ".join(names) or ws[0].get("bounds", ""), "kinds_covered": kinds, "build_s": round(tb, 1),
                    "exhaustive": viol is None})
        ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": cfg["level"],
              "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "violations": 1 if viol else 0}
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
        print(f"{prop}: scenarios {tot['mine']} states {tot['states']} transitions {tot['transitions']} "
              f"implementation runs {tot['runs']} cells compared {tot['cells']} ({tot['changed']} computed), "
              f"build {tb:.1f}s total {time.time()-t0:.1f}s")
        kf = sorted({k for w in ws for k in w.get("known", [])})
        for k in kf:
            print(f"KNOWN-FINDING: property={prop} {k}")
        if viol is None and (tot["transitions"] == 0 or tot["changed"] == 0):
            print(f"check {prop}: vacuous run")
            return 2
        if viol:
            w, rp = viol
            print(w["what"])
            print(f"VIOLATION property={prop} replay={rp}")
            return 1
        return 0
    except BuildError as e:
        print(e)
        print(f"check {prop}: build failed")
        return 2
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def replay(path):
    txt = open(path).read()
    prop = re.search(r"property=(\S+)", txt).group(1)
    part = re.search(r"^part=(\S*)$", txt, re.M)
    os.makedirs(V + "/build", exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=prop + ".", dir=V + "/build")
    try:
        exe = build(prop, bdir, True, part.group(1) if part else None)[0][1]
        kn = [x for k in known() if k[0] == prop for x in ("--known", k[1], k[2])] + PROPS[prop].get("args", [])
        r = subprocess.run([exe, "--prop", prop, "--out", bdir, "--replay", path] + kn, env=ENV)
        return 1 if r.returncode else 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    th = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    sys.exit(run(sys.argv[1], th))
