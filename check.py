#!/usr/bin/env python3
"""Driver: builds the library from the repository's working tree, builds the
explorers, runs those deciding one property, writes the evidence file.

usage: check.py ID [--replay FILE]     (VERIF_TIER=quick|thorough, VERIF_SEED)
       check.py --setup                (compile the explorers into build/cache)
       check.py --dev ID ...           (dev: extra arguments go to the explorers)
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
CACHE = os.path.join(VERIF, "build", "cache")
KNOWN = os.path.join(VERIF, "known_findings.txt")

# grammar files the committed generated sources belong to (as in /opt/vp/build.sh)
GRAMMAR = {"Compiler.y": "8eba315a3f8f473bb702aa5f93f4bb12d25e804a57195f01c600199862b92c1d",
           "Scanner.l": "19e8ed66dd8edb3a91fd56d3c56dbd02fc787cf208364581fe141ff5f34bf4a1"}
REDEFINE = {"malloc": "vf_malloc", "calloc": "vf_calloc", "realloc": "vf_realloc", "reallocarray": "vf_reallocarray", "free": "vf_free",
            "strdup": "vf_strdup", "strndup": "vf_strndup", "aligned_alloc": "vf_aligned_alloc", "memalign": "vf_memalign",
            "posix_memalign": "vf_posix_memalign", "asprintf": "vf_asprintf", "vasprintf": "vf_vasprintf", "exit": "vf_exit", "abort": "vf_abort", "__assert_fail": "vf_assert_fail"}

from plan import PLAN, VARIANTS  # noqa: E402


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def sha(b):
    return hashlib.sha256(b).hexdigest()


def mirror(tmp):
    """Copies the sources and regenerates parser and scanner exactly when the project's build would."""
    src = os.path.join(tmp, "src")
    os.makedirs(src)
    for e in sorted(os.listdir(REPO)):
        if e in (".git", "_build"):
            continue
        p = os.path.join(REPO, e)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(src, e), symlinks=True)
        else:
            shutil.copy2(p, os.path.join(src, e))
    d = os.path.join(src, "projectm-eval")
    for g, h in GRAMMAR.items():
        if sha(open(os.path.join(d, g), "rb").read()) == h:
            continue
        stem = g.split(".")[0]
        for x in ".c", ".h":
            if os.path.exists(os.path.join(d, stem + x)):
                os.remove(os.path.join(d, stem + x))
        if g == "Compiler.y":
            run(["bison", "--defines=Compiler.h", "--no-lines", "-o", "Compiler.c", "Compiler.y"], cwd=d)
        else:
            run(["flex", "--noline", "--prefix=prjm_eval_", "--header-file=Scanner.h", "-o", "Scanner.c", "Scanner.l"], cwd=d)
    return src


def includes(src):
    return ["-I" + src, "-I" + os.path.join(src, "projectm-eval"), "-I" + os.path.join(src, "projectm-eval", "api"), "-I" + os.path.join(src, "ns-eel2-shim")]


def sources(src, v):
    out = []
    for d in ["projectm-eval", "projectm-eval/api"] + (["ns-eel2-shim"] if v.get("shim") else []):
        p = os.path.join(src, d)
        out += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".c")]
    return out


def build_lib(pool, src, tmp, name):
    """-> path of one relocatable object holding the library, allocation and exit calls redirected"""
    v = VARIANTS[name]
    d = os.path.join(tmp, "lib." + name)
    os.makedirs(d)
    if v.get("cmake"):
        # through the project's own build, with the documented option only
        b = os.path.join(d, "cmake")
        env = dict(os.environ)
        for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS"):
            env.pop(k, None)
        opts = ["-DCMAKE_DISABLE_FIND_PACKAGE_BISON=ON", "-DCMAKE_DISABLE_FIND_PACKAGE_FLEX=ON"]
        run(["cmake", "-S", src, "-B", b, "-G", "Ninja", "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_BUILD_TYPE=Debug", "-DBUILD_TESTING=OFF", "-DBUILD_NS_EEL_SHIM=ON"] + v["cmake"] + opts, env=env)
        run(["ninja", "-C", b, "projectM_eval", "projectM_ns-eel2"], env=env)
        objs = []
        for r, _, fs in os.walk(b):
            for f in fs:
                if f.endswith(".c.o") and "CompilerId" not in r and (("ns-eel2-shim" in r) == bool(v.get("shim")) or "projectM_eval.dir" in r):
                    objs.append(os.path.join(r, f))
        # how a consumer of the library target is compiled
        flags = run(["cmake", "-S", src, "-B", b, "-G", "Ninja"], env=env)
        defs = open(os.path.join(b, "build.ninja")).read()
        objs.sort()
    else:
        objs = []
        jobs = []
        for s in sources(src, v):
            o = os.path.join(d, sha(s.encode())[:8] + "." + os.path.basename(s) + ".o")
            objs.append(o)
            jobs.append(pool.submit(run, [v["cc"]] + v["cflags"] + ["-g", "-w"] + includes(src) + ["-c", s, "-o", o]))
        for j in jobs:
            j.result()
    comb = os.path.join(d, "all.o")
    run(["ld", "-r", "-o", comb] + objs)
    red = dict(REDEFINE)
    red.update(v.get("redefine", {}))
    cmd = ["objcopy"]
    for a, b_ in red.items():
        cmd += ["--redefine-sym", "%s=%s" % (a, b_)]
    out = os.path.join(d, "lib.o")
    run(cmd + v.get("objcopy", []) + [comb, out])
    return out


def clean_env():
    env = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS", "DESTDIR"):
        env.pop(k, None)
    return env


def consumers(tmp, src):
    """Every way of building and consuming the library: number size x (subdirectory, installed package, pkg-config flags)
    x (native API, ns-eel2 API) x (C, C++). -> list of (configuration, message or None)"""
    env = clean_env()
    own = os.path.join(VERIF, "consumer")
    gen = ["-G", "Ninja", "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DCMAKE_BUILD_TYPE=Debug"]
    lib = ["-DCMAKE_DISABLE_FIND_PACKAGE_BISON=ON", "-DCMAKE_DISABLE_FIND_PACKAGE_FLEX=ON", "-DBUILD_TESTING=OFF", "-DBUILD_NS_EEL_SHIM=ON"]
    out = []

    def programs(cfg, d, size):
        for p in ("native_c", "native_cpp", "shim_c", "shim_cpp"):
            r = subprocess.run([os.path.join(d, p), str(size)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
            out.append(("%s, %s" % (cfg, p), None if r.returncode == 0 else "ends with %d: %s" % (r.returncode, r.stdout)))

    def one(size, how):
        opt = ["-DPROJECTM_EVAL_FLOAT_SIZE=%d" % size] if size else []
        size = size or 8
        cfg = "number size %s, %s" % (opt[0][-1] if opt else "by default", how)
        d = os.path.join(tmp, "consumer%s%s" % (opt[0][-1] if opt else "", how))
        try:
            if how == "subdirectory":
                run(["cmake", "-S", own, "-B", d, "-DSUBDIR=" + src] + gen + lib + opt, env=env)
                run(["ninja", "-C", d], env=env)
                programs(cfg, d, size)
                return
            inst = os.path.join(d, "inst")
            run(["cmake", "-S", src, "-B", d + "/lib", "-DCMAKE_INSTALL_PREFIX=" + inst] + gen + lib + opt, env=env)
            run(["ninja", "-C", d + "/lib", "install"], env=env)
            run(["cmake", "-S", own, "-B", d + "/use", "-DCMAKE_PREFIX_PATH=" + inst] + gen, env=env)
            run(["ninja", "-C", d + "/use"], env=env)
            programs(cfg, d + "/use", size)
            pcs = [os.path.dirname(p) for p in subprocess.run(["find", inst, "-name", "projectm-eval.pc"], stdout=subprocess.PIPE, text=True).stdout.split()]
            a = [os.path.join(r, f) for r, _, fs in os.walk(inst) for f in fs if f == "libprojectM_eval.a"]
            if pcs and a:
                e = dict(env)
                e["PKG_CONFIG_PATH"] = pcs[0]
                e["PKG_CONFIG_ALLOW_SYSTEM_CFLAGS"] = "1"
                flags = run(["pkg-config", "--cflags", "projectm-eval"], env=e).split()
                exe = os.path.join(d, "pc")
                run(["gcc"] + flags + ["-I" + os.path.join(inst, "include", "projectm-eval"), os.path.join(own, "native.c"), a[0], "-lm", "-o", exe], env=env)
                r = subprocess.run([exe, str(size)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
                out.append((cfg + ", pkg-config flags", None if r.returncode == 0 else "ends with %d: %s" % (r.returncode, r.stdout)))
        except BuildError as e:
            out.append((cfg, "can not be built: " + str(e)))

    with ThreadPoolExecutor(6) as pool:
        list(pool.map(lambda a: one(*a), [(s, h) for s in (4, 8, 0) for h in ("subdirectory", "package")]))
    return sorted(out, key=lambda o: o[0])


def headers_key(src):
    h = hashlib.sha256()
    for f in sorted(os.listdir(SRC)):
        if f.endswith(".hpp"):
            h.update(open(os.path.join(SRC, f), "rb").read())
    for f in ("projectm-eval/api/projectm-eval.h", "ns-eel2-shim/ns-eel.h"):
        h.update(open(os.path.join(src, f), "rb").read())
    return h.hexdigest()


def harness_obj(src, f, v, key, tmp):
    flags = ["-std=c++17", "-O1", "-g1", "-w"] + v.get("hflags", [])
    k = sha(("%s|%s|%s|" % (key, flags, f)).encode() + open(os.path.join(SRC, f), "rb").read())[:24]
    o = os.path.join(CACHE, k + ".o")
    if not os.path.exists(o):
        os.makedirs(CACHE, exist_ok=True)
        t = os.path.join(tmp, k + ".o")
        run(["g++"] + flags + ["-I" + SRC] + includes(src) + ["-c", os.path.join(SRC, f), "-o", t])
        shutil.copyfile(t, o + ".%d" % os.getpid())
        os.replace(o + ".%d" % os.getpid(), o)
    return o


def build(tmp, need):
    """need: list of (variant, source file) -> {(variant, file): executable}"""
    src = mirror(tmp)
    key = headers_key(src)
    exes = {}
    with ThreadPoolExecutor(8) as pool, ThreadPoolExecutor(8) as outer:
        libs = {v: outer.submit(build_lib, pool, src, tmp, v) for v in sorted({n[0] for n in need})}
        objs = {}
        for vn, f in need:
            v = VARIANTS[vn]
            for x in ["vf.cpp", f] + v.get("extra", []):
                hk = (x, tuple(v.get("hflags", [])))
                if hk not in objs:
                    objs[hk] = pool.submit(harness_obj, src, x, v, key, tmp)
        def link(vn, f):
            v = VARIANTS[vn]
            hf = tuple(v.get("hflags", []))
            exe = os.path.join(tmp, "run.%s.%s" % (vn, f.split(".")[0]))
            run([v.get("ld", "g++")] + v.get("ldflags", []) + ["-o", exe, objs[("vf.cpp", hf)].result(), objs[(f, hf)].result()] + [objs[(x, hf)].result() for x in v.get("extra", [])] + [libs[vn].result(), "-lm", "-lpthread"])
            return exe
        links = {n: outer.submit(link, *n) for n in need}
        for n, l in links.items():
            exes[n] = l.result()
    return src, exes


def known_for(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            # known: property=C15 job=NAME note=SUBSTRING :: description
            m = re.match(r"known: property=(\S+) job=(\S+) note=(.*?) :: (.*)$", l.rstrip("\n"))
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        tmp = tempfile.mkdtemp(prefix="vf.")
        try:
            need = sorted({(s["variant"], s["file"]) for p in PLAN.values() for s in p["stages"] if s["file"]})
            build(tmp, need)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    dev = []
    if args and args[0] == "--dev":
        args = args[1:]
        dev = args[1:]
        args = args[:1]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[pid]
    t0 = time.time()
    known = known_for(pid)
    replay = None
    if "--replay" in args:
        replay = json.load(open(args[args.index("--replay") + 1]))
    tmp = tempfile.mkdtemp(prefix="vf.")
    viol = None
    try:
        stages = [s for s in plan["stages"] if tier in s.get("tiers", ("quick", "thorough"))]
        if replay:
            stages = [s for s in stages + plan["stages"] if s["variant"] == replay["variant"] and s["mode"] == replay["mode"]][:1]
        src, exes = build(tmp, sorted({(s["variant"], s["file"]) for s in stages if s["file"]}))
        env = dict(os.environ)
        env.update({"LC_ALL": "C", "VF_SRC": src, "VF_TMP": tmp})
        env.pop("LANG", None)
        if plan.get("locales"):
            make_locales(tmp, plan["locales"])
            env["LOCPATH"] = os.path.join(tmp, "locales")
        tot, jobs, samples, khits = {}, [], [], []
        for n, s in enumerate(stages):
            if not s["file"]:
                t1 = time.time()
                res = consumers(tmp, src)
                bad = ["  %s: %s" % o for o in res if o[1]]
                tot["evals"] = tot.get("evals", 0) + len(res)
                tot["traces"] = tot.get("traces", 0) + len(res)
                jobs.append(dict(stage="consumer", job="configurations", cases=len(res), of=len(res), wall_s=round(time.time() - t1, 2)))
                samples += [o[0] for o in res[:4]]
                if bad:
                    print("FAILURE job=configurations\n" + "\n".join(bad))
                if replay:
                    return 1 if bad else 0
                if bad:
                    viol = dict(property=pid, variant=s["variant"], mode=s["mode"], job="configurations", begin=0, end=len(res), confirmed=True, tier=tier, report="\n".join(bad))
                    break
                continue
            d = os.path.join(tmp, "out%d" % n)
            os.makedirs(d)
            stat = os.path.join(d, "stat")
            cmd = [exes[(s["variant"], s["file"])], "--mode", s["mode"], "--stat", stat, "--dir", d, "--seed", str(seed)]
            if tier == "thorough" and not s.get("fixed"):
                cmd.append("--thorough")
            if s.get("light"):
                cmd.append("--light")
            for o in ("small", "finite"):
                if s.get(o):
                    cmd.append("--" + o)
            if s.get("skip"):
                cmd += ["--skip", s["skip"]]
            for j, note, _ in known:
                cmd += ["--known", j + "\t" + note]
            if replay:
                cmd = cmd[:7] + (["--thorough"] if replay["tier"] == "thorough" and not s.get("fixed") else []) + (["--light"] if s.get("light") else []) + ["--" + o for o in ("small", "finite") if s.get(o)] + ["--replay", replay["job"], str(replay["begin"]), str(replay["end"])]
                r = subprocess.run(cmd, env=env)
                return r.returncode
            r = subprocess.run(cmd + dev, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
            sys.stdout.write(r.stdout)
            if dev and r.returncode not in (0, 1):
                return r.returncode
            if r.returncode not in (0, 1):
                print("explorer %s/%s ends with %d" % (s["variant"], s["mode"], r.returncode))
                return 2
            for l in open(stat, errors="replace"):
                f = l.rstrip("\n").split("\t")
                if f[0] == "STAT":
                    tot[f[1]] = tot.get(f[1], 0) + int(f[2])
                elif f[0] == "JOBS":
                    for j in json.loads(f[1]):
                        j["stage"] = s["variant"] + "/" + s["mode"]
                        jobs.append(j)
                elif f[0] == "SAMPLE":
                    samples.append(f[1])
                elif f[0] == "KNOWN":
                    khits.append((f[1], f[2]))
                elif f[0] == "FAIL":
                    viol = dict(property=pid, variant=s["variant"], mode=s["mode"], job=f[1], begin=int(f[2]), end=int(f[3]), confirmed=f[4] == "1", tier=tier, report=r.stdout)
            if viol:
                break
    except BuildError as e:
        print("build fails:\n%s" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for j, note, desc in known:
        if (j, note) in khits:
            print("KNOWN-FINDING: property=%s %s" % (pid, desc))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"samples": samples[::max(1, len(samples) // 12)][:12] or ["-"], "jobs": jobs}
    if plan["level"] == "fault_enumeration":
        cov.update(evaluations=tot.get("evals", 0), distinct_nontrivial=tot.get("nontrivial", 0), rule=plan["rule"])
    else:
        cov.update(states=tot.get("states", 0), transitions=tot.get("transitions", 0), traces_validated_against_impl=tot.get("traces", 0),
                   cases=tot.get("evals", 0), nontrivial=tot.get("nontrivial", 0), undefined_or_unbounded_skipped=tot.get("skipped", 0),
                   exhaustive=not viol and not dev, state_definition=plan["states"])
        if tot.get("states_full"):
            cov["states_note"] = "the table of distinct states was full: states is a lower bound"
    ev = dict(property=pid, tier=tier, seed=seed, level=plan["level"], coverage=cov, assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    if not dev:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d states, %d traces compared, %.1f s" % (pid, tier, tot.get("evals", 0), tot.get("states", 0), tot.get("traces", 0), time.time() - t0))
    if dev:
        for j in jobs:
            print("   %-24s %10d of %-10d %7.2f s" % (j["job"], j["cases"], j["of"], j["wall_s"]))
    if viol:
        path = os.path.join(VERIF, "evidence", "replay-%s.json" % pid)
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def make_locales(tmp, locs):
    d = os.path.join(tmp, "locales")
    os.makedirs(d, exist_ok=True)
    for name, inp, cm in locs:
        subprocess.run(["localedef", "-c", "-i", inp, "-f", cm, os.path.join(d, name)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if not os.path.exists(os.path.join(d, name, "LC_CTYPE")):
            raise BuildError("localedef cannot make " + name)


if __name__ == "__main__":
    sys.exit(main())
