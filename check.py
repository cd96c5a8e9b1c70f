#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

  check.py ID                run the check (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py ID --replay FILE  re-run one recorded case
  check.py --build-all       compile every harness (used by setup_cmd)
"""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from registry import CHECKS  # noqa: E402

JOBS = os.cpu_count() or 8
CXX = os.environ.get("VP_CXX", "g++")


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(d, exts=(".hpp", ".hxx", ".txx", ".cpp", ".h")):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(r, f)
                with open(p, "rb") as fh:
                    out.append(os.path.relpath(p, d) + ":" + hashlib.sha256(fh.read()).hexdigest())
    return sha("\n".join(out))


def base_flags(variant):
    fl = ["-std=c++17", "-w", "-pthread", "-DPROXSUITE_NLP_ENABLE_TEMPLATE_INSTANTIATION",
          "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness", "stubs"),
          "-I" + os.path.join(HERE, "harness"), "-I/usr/include/eigen3",
          "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN",
          "-include", os.path.join(HERE, "harness", "prelude.hpp")]
    if variant == "asan":
        fl += ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,enum",
               "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    else:
        fl += ["-O1"]
    return fl


class BuildError(Exception):
    pass


def run_cc(cmd, out):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d.tmp" % (out, os.getpid())
    p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        errs = [l for l in p.stdout.splitlines() if "error" in l][:30]
        raise BuildError("%s\n%s" % (" ".join(cmd), "\n".join(errs)))
    os.replace(tmp, out)


def build(sources, variant, links=("-lfmt",), with_lib=True, extra=(), lib_extra=()):
    """Compiles the given harness sources and the library's sources, links them."""
    flags = base_flags(variant) + list(extra)
    rh = tree_hash(os.path.join(REPO, "include"))
    hh = tree_hash(os.path.join(HERE, "harness"), (".hpp",))
    jobs, objs = [], []
    libsrc = []
    if with_lib:
        sd = os.path.join(REPO, "src")
        libsrc = [os.path.join(sd, f) for f in sorted(os.listdir(sd)) if f.endswith(".cpp")]
        libsrc += [os.path.join(sd, f) for f in lib_extra]
    prel = open(os.path.join(HERE, "harness", "prelude.hpp"), "rb").read()
    stubs = tree_hash(os.path.join(HERE, "harness", "stubs"))
    for s in [os.path.join(HERE, "harness", x) for x in sources] + libsrc:
        with open(s, "rb") as fh:
            body = fh.read()
        is_lib = s in libsrc
        key = sha(CXX, " ".join(flags), rh, prel + stubs.encode() if is_lib else hh, s, body)
        o = os.path.join(BUILD, "obj", key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(([CXX] + flags + ["-c", s], o))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda j: run_cc(*j), jobs))
    exe = os.path.join(BUILD, "bin", sha(*objs, *links, variant))
    if not os.path.exists(exe):
        san = ["-fsanitize=address,undefined"] if variant == "asan" else []
        run_cc([CXX, "-pthread"] + san + objs + list(links), exe)
    return exe


PYTHON = os.environ.get("VP_PYTHON", "/opt/veriftools/pyvenv/bin/python3")


def build_python(variant="plain"):
    """Compiles /repo/bindings/python against the stand-in of eigenpy; returns the directory to import from."""
    bd = os.path.join(REPO, "bindings", "python")
    sd = os.path.join(REPO, "src")
    hd = os.path.join(HERE, "harness")
    flags = ["-fPIC", "-fvisibility=hidden", "-I" + os.path.join(bd, "include"), "-I" + os.path.join(hd, "pystubs"),
             "-I/usr/include/python3.12", "-DPROXSUITE_NLP_WITH_PINOCCHIO"]
    base = [f for f in base_flags(variant)]
    common = sha(tree_hash(os.path.join(REPO, "include")), tree_hash(os.path.join(bd, "include")),
                 tree_hash(os.path.join(hd, "pystubs")), tree_hash(os.path.join(hd, "stubs")),
                 open(os.path.join(hd, "prelude.hpp"), "rb").read())
    units = [(os.path.join(bd, f), "pyproxsuite_nlp") for f in sorted(os.listdir(bd)) if f.endswith(".cpp")]
    units += [(os.path.join(d, f), None) for d in (sd, os.path.join(sd, "multibody")) if os.path.isdir(d)
              for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    units += [(os.path.join(hd, "pypoly.cpp"), "vp_poly"), (os.path.join(hd, "pypin.cpp"), "pinocchio")]
    jobs, objs = [], {}
    for src, mod in units:
        fl = base + flags + (["-DMODULE_NAME=" + mod, "-O0"] if mod else [])
        with open(src, "rb") as fh:
            o = os.path.join(BUILD, "obj", sha(CXX, " ".join(fl), common, src, fh.read()) + ".o")
        objs[src] = (o, mod)
        if not os.path.exists(o):
            jobs.append(([CXX] + fl + ["-c", src], o))
    # the slowest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0][-1]))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda j: run_cc(*j), jobs))
    py = {}
    pkg = os.path.join(bd, "proxsuite_nlp")
    for f in sorted(os.listdir(pkg)):
        if f.endswith(".py"):
            with open(os.path.join(pkg, f), "rb") as fh:
                py[f] = fh.read()
    key = sha(variant, *[o for o, _ in objs.values()], *py.keys(), *py.values())
    out = os.path.join(BUILD, "py", key)
    if not os.path.exists(os.path.join(out, "done")):
        os.makedirs(os.path.join(out, "proxsuite_nlp"), exist_ok=True)
        san = ["-fsanitize=address,undefined"] if variant == "asan" else []
        lib = [o for o, m in objs.values() if m is None]
        link = lambda mod, so, extra: run_cc(
            [CXX, "-shared", "-pthread"] + san + [o for o, m in objs.values() if m == mod] + extra
            + ["-lfmt", "-lboost_python312"], os.path.join(out, so))
        link("pyproxsuite_nlp", "proxsuite_nlp/pyproxsuite_nlp.so", lib)
        link("vp_poly", "vp_poly.so", [])
        link("pinocchio", "pinocchio.so", [])
        for f, b in py.items():
            with open(os.path.join(out, "proxsuite_nlp", f), "wb") as fh:
                fh.write(b)
        open(os.path.join(out, "done"), "w").close()
    return out


def prepare(part, variant):
    """The command (and the environment) which runs the given part."""
    if part.get("python"):
        d = build_python(variant)
        env = dict(os.environ, PYTHONPATH=d, MALLOC_PERTURB_="165", PYTHONMALLOC="malloc",
                   PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        if variant == "asan":
            libs = [subprocess.run([CXX, "-print-file-name=" + l], stdout=subprocess.PIPE, text=True).stdout.strip()
                    for l in ("libasan.so", "libubsan.so", "libstdc++.so")]
            env["LD_PRELOAD"] = " ".join(libs)
        return [PYTHON, os.path.join(HERE, "harness", part["sources"][0])], env
    return [build(part["sources"], variant, with_lib=part.get("lib", True), extra=part.get("flags", ()),
                  lib_extra=part.get("lib_extra", ()))], dict(os.environ)


def known_findings(pid):
    """Entries of known_findings.txt:  'finding: property=ID sub=NAME <text>'."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) sub=(\w+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build-all":
        # the library's objects first (every harness links them), then the harnesses at the same time
        todo = {}
        for c in CHECKS.values():
            for part in c["parts"]:
                todo.setdefault(tuple(part["sources"]), part)
        parts = sorted(todo.values(), key=lambda p: not p.get("lib", True), reverse=False)
        one = lambda p: prepare(p, "plain")
        one(parts[0])
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(one, parts[1:]))
        return 0
    pid = sys.argv[1]
    c = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        for part in c["parts"]:
            exe, env = prepare(part, "plain")
            r = subprocess.run(exe + ["--replay", f], env=env)
            if r.returncode != 2:
                return r.returncode
        return 2
    rdir = os.path.join(BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    subs, viol_lines, known_lines, errors = [], [], [], []
    known = known_findings(pid)
    for part in c["parts"]:
        variants = ["plain"]
        if tier == "thorough" and part.get("asan", True):
            variants.append("asan")
        for variant in variants:
            exe, env = prepare(part, variant)
            oj = os.path.join(BUILD, "out-%s-%d.json" % (pid, os.getpid()))
            scale = part.get("scale", 1.0)
            if variant == "asan":
                scale *= part.get("asan_scale", 0.1)
            cmd = exe + ["--seed", str(seed), "--tier", tier, "--out", oj, "--property", pid,
                   "--replay-dir", rdir, "--jobs", "8", "--scale", str(scale)]
            env = dict(env, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1",
                       UBSAN_OPTIONS="print_stacktrace=0")
            p = subprocess.run(cmd, stdout=subprocess.PIPE, env=env, text=True)
            if p.returncode not in (0, 1) or not os.path.exists(oj):
                errors.append("harness of %s ended with status %s" % (pid, p.returncode))
                continue
            for line in p.stdout.splitlines():
                if not line.startswith("VIOLATION "):
                    continue
                m = re.search(r"replay=(\S+)", line)
                sub = re.match(r".*?/%s-(\w+)-seed\d+\.tape$" % pid, m.group(1)).group(1)
                hit = [k for k in known if k[0] == sub]
                if hit:
                    known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0][1]))
                else:
                    viol_lines.append(line)
            with open(oj) as fh:
                for s in json.load(fh)["subs"]:
                    s["variant"] = variant
                    subs.append(s)
            os.unlink(oj)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in subs),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs),
            "rule": "; ".join("%s: %s" % (s["name"], s["rule"]) for s in subs if s["variant"] == "plain"),
            "samples": [{"sub": s["name"], "case": x} for s in subs for x in s["samples"][:1]],
            "subs": [{k: s[k] for k in ("name", "variant", "evaluations", "discarded", "distinct_nontrivial",
                                        "labels", "flaky", "wall_s")} for s in subs],
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol_lines),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for line in known_lines:
        print(line)
    for line in viol_lines:
        print(line)
    sys.stdout.flush()
    if viol_lines:
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("BUILD ERROR\n" + str(e), file=sys.stderr)
        sys.exit(2)
