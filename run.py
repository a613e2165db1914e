#!/usr/bin/env python3
"""Build the harness of one property against /repo's working tree, explore, report.

usage: run.py <property> [quick|thorough]      check one property
       run.py --build [props...]               build only
       run.py --replay <replay.json>           re-run one recorded execution
"""
import hashlib, json, os, shutil, subprocess, sys, time
BASE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SPS_REPO", "/repo")
BUILD = os.environ.get("SPS_BUILD", os.path.join(BASE, "build"))
EVID = os.path.join(BASE, "evidence")

# programs and registration of everything, not needed here
NO_COMPILE = {
    "install/sps_install_avformat.cpp", "install/sps_install_url_protocols.cpp",
    "main/sps_main_sps.cpp", "install/sps_install.cpp", "install/sps_install_modules.cpp",
}
WRAPS = "socket bind listen setsockopt getsockname gettimeofday exit".split()
SAN = "-fsanitize=address -fno-omit-frame-pointer"
CXX = "g++ -std=c++14 -O1 -g1 -w -D_GLIBCXX_ASSERTIONS " + SAN
LIBS = "-lhttp_parser -lrtmp -lsrt -lssl -lcrypto -lavformat -lavcodec -lavdevice -lavfilter -lavutil -lswresample -lswscale -lpthread -ldl -lm"


def props():
    return json.load(open(os.path.join(BASE, "checks.json")))


def gen_ninja():
    src = os.path.join(REPO, "src")
    gen = os.path.join(BUILD, "gen")
    os.makedirs(os.path.join(gen, "compat"), exist_ok=True)
    hdr = ('#ifndef SPS_AUTO_HEADER\n#define SPS_AUTO_HEADER\n#define GIT_VERSION "verif"\n#define GIT_BRANCH "verif"\n'
           '#define SRT_ENABLED\n#define OPENSSL_ENABLED\n#define FFMPEG_ENABLED\n#endif\n')

    def put(path, text):
        if not os.path.exists(path) or open(path).read() != text:
            open(path, "w").write(text)
    put(os.path.join(gen, "sps_auto_header.hpp"), hdr)
    # the default build of the rtmp handlers, without ffmpeg
    os.makedirs(os.path.join(BUILD, "gen_native"), exist_ok=True)
    put(os.path.join(BUILD, "gen_native", "sps_auto_header.hpp"), hdr.replace("#define FFMPEG_ENABLED\n", ""))
    put(os.path.join(gen, "compat", "public.h"), "#include <st.h>\n")
    lnk = os.path.join(gen, "compat", "srtcore")
    if not os.path.islink(lnk):
        os.symlink("/usr/include/srt", lnk)
    dirs, cpps = [], []
    for d, sub, files in os.walk(src):
        sub.sort()
        dirs.append(d)
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(d, f), src)
            if f.endswith((".cpp", ".cc")) and rel not in NO_COMPILE:
                cpps.append(rel)
    inc = " ".join("-I" + d for d in [gen, os.path.join(gen, "compat"), os.path.join(BASE, "mc", "rtmp"), os.path.join(BASE, "mc")] + dirs)
    n = ["builddir = " + BUILD, "cxx = " + CXX, "inc = " + inc,
         "rule cc", "  command = $cxx $pre $inc -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ar", "  command = rm -f $out && ar rcs $out $in",
         "rule link", "  command = $cxx $in -o $out " + " ".join("-Wl,--wrap=" + w for w in WRAPS) + " " + LIBS]
    objs = []
    for c in cpps:
        o = os.path.join(BUILD, "obj", c + ".o")
        n.append("build %s: cc %s" % (o, os.path.join(src, c)))
        objs.append(o)
    lib = os.path.join(BUILD, "libsps.a")
    n.append("build %s: ar %s" % (lib, " ".join(objs)))
    core = []
    for c in ("mc.cpp", "fakest.cpp", "fakesrt.cpp", "fakertmp.cpp"):
        o = os.path.join(BUILD, "mc", c + ".o")
        n.append("build %s: cc %s" % (o, os.path.join(BASE, "mc", c)))
        core.append(o)
    for p, d in props().items():
        h = d["harness"]
        o = os.path.join(BUILD, "h", h + ".o")
        b = os.path.join(BUILD, "bin", h[:-4])
        n.append("build %s: cc %s" % (o, os.path.join(BASE, "harness", h)))
        native = []
        for c in d.get("native", []):
            native.append(os.path.join(BUILD, "native", c + ".o"))
            if not any(x.startswith("build %s:" % native[-1]) for x in n):
                n += ["build %s: cc %s" % (native[-1], os.path.join(src, c)), "  pre = -I" + os.path.join(BUILD, "gen_native")]
        n.append("build %s: link %s %s %s" % (b, " ".join([o] + native), " ".join(core), lib))
        n.append("build %s: phony %s" % (p, b))
    os.makedirs(BUILD, exist_ok=True)
    put(os.path.join(BUILD, "build.ninja"), "\n".join(n) + "\n")


def build(targets):
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen_ninja()
        r = subprocess.run(["ninja", "-f", os.path.join(BUILD, "build.ninja")] + targets,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        print("BUILD FAILED (no verdict)")
        sys.exit(2)


ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:quarantine_size_mb=8:malloc_context_size=8:abort_on_error=0:exitcode=99:"
                        "detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096:"
                        "handle_abort=1:symbolize=1:detect_odr_violation=0",
           TZ="UTC", LC_ALL="C.UTF-8")


def binary(p):
    return os.path.join(BUILD, "bin", props()[p]["harness"][:-4])


def known(p):
    f = os.path.join(BASE, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == p and k.get("status") == "open"]


def check(p, tier):
    t0 = time.time()
    d = props()[p]
    build([p])
    tb = time.time() - t0
    tmp = os.path.join(BUILD, "tmp-%s-%d" % (p, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    out = os.path.join(tmp, "out.json")
    ks = known(p)
    cmd = [binary(p), "--tier", tier, "--out", out, "--tmp", tmp, "--prop", p]
    for k in ks:
        cmd += ["--known", k["key"]]
    r = subprocess.run(cmd, env=ENV, cwd=tmp)
    res = json.load(open(out)) if os.path.exists(out) else None
    replay = ""
    v = res.get("violation") if res else None
    if res is None or r.returncode not in (0, 1) or (r.returncode == 1 and not v):
        print("check of %s gave no verdict (exit %d): %s" % (p, r.returncode, v and v.get("message")))
        shutil.rmtree(tmp, ignore_errors=True)
        sys.exit(3)
    if v:
        rr = subprocess.run(["timeout", "-k", "5", "150", binary(p), "--tier", tier, "--replay", v["scenario"], v["trace"]] +
                            [a for k in ks for a in ("--known", k["key"])],
                            env=ENV, cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        rdir = os.path.join(BASE, "replays")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, "%s.json" % p)
        json.dump({"property": p, "tier": tier, "kind": v["kind"], "message": v["message"], "scenario": v["scenario"],
                   "trace": v["trace"], "notes": v["notes"],
                   "execution": rr.stderr.decode("utf-8", "replace")[-20000:], "replay_exit": rr.returncode,
                   "how": "python3 run.py --replay " + replay}, open(replay, "w"), indent=1)
    sc = res["scenarios"]
    tot = lambda k: sum(s[k] for s in sc)
    samples = [{"scenario": s["name"], "execution": s["samples"][-1] or "(no notes)"} for s in sc if s["samples"]]
    lvl = d["level"]
    cov = {"samples": samples or [{"scenario": s["name"]} for s in sc], "exhaustive": not v,
           "max_choice_depth": max(s["max_choice_depth"] for s in sc),
           "scenarios": [{k: s[k] for k in ("name", "bound", "executions", "transitions", "distinct", "wall_s")} for s in sc]}
    if lvl == "model_checking":
        cov.update(states=tot("distinct"), transitions=tot("transitions"), traces_validated_against_impl=tot("executions"))
    else:
        cov.update(evaluations=tot("executions"), distinct_nontrivial=tot("nontrivial"), rule=d.get("rule", "") or
                   "every choice sequence of the scenario is executed once; non-trivial executions are those that reach the checked behaviour")
    ev = {"property": p, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": lvl, "coverage": cov,
          "assumptions": d.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if v else 0}
    json.dump(ev, open(os.path.join(EVID, p + ".json"), "w"), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    for k in ks:
        print("KNOWN-FINDING: property=%s %s" % (p, k["what"]))
    if v:
        print("%s: %s [scenario %s]" % (p, v["message"], v["scenario"]))
        print("VIOLATION property=%s replay=%s" % (p, replay))
        sys.exit(1)
    print("%s %s: held on %d executions, %d transitions, %d distinct states (build %.0fs, total %.0fs)" %
          (p, tier, tot("executions"), tot("transitions"), tot("distinct"), tb, time.time() - t0))


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        build(a[1:] or list(props()))
        return
    if a and a[0] == "--replay":
        rp = json.load(open(a[1]))
        build([rp["property"]])
        ks = known(rp["property"])
        sys.exit(subprocess.run([binary(rp["property"]), "--tier", rp["tier"], "--replay", rp["scenario"], rp["trace"]] +
                                [x for k in ks for x in ("--known", k["key"])], env=ENV).returncode)
    check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    main()
