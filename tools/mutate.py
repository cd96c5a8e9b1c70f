#!/usr/bin/env python3
"""Mutation campaign used to find gaps of the checks (nothing registered in MANIFEST.json uses it).

  mutate.py OUT.jsonl HARNESS.cpp "C07 C08" N file...   N random mutants of the files (relative to the repository), each
  compiled with the harness and run with the quick tier of the given properties.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
OPS = [
    (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \* ", " / "), (r" < ", " <= "), (r" <= ", " < "),
    (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"),
    (r"\bfalse\b", "true"), (r"\.transpose\(\)", ""), (r"\bmax\(", "min("), (r"\bmin\(", "max("), (r"\.head\(", ".tail("), (r"\.tail\(", ".head("),
    (r"\b0\.5\b", "0.25"), (r"\b1\.(?!\d)", "1.5"), (r"\b2\.(?!\d)", "3."), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"),
    (r"(?<![\w.])1(?![\w.])", "2"), (r"topRows", "bottomRows"), (r"bottomRows", "topRows"), (r"= -", "= "), (r"setZero\(\)", "setOnes()"),
    (r"setIdentity\(\)", "setZero()"), (r"\bi \+ 1\b", "i"), (r"\bnx\(\)", "ndx()"), (r"\bndx\(\)", "nx()"), (r"\.abs\(\)", ""), (r"\*this\b", "*this"),
    (r"<\= ", "< "), (r"\bcontinue;", "break;"), (r"\+\+", "--"), (r"\bprim_", "dual_"), (r"_plus\b", "_pdal"), (r"_pdal\b", "_plus"), (r"x_trial", "x_opt"),
    (r"mu_inv_", "mu_"), (r"\bmu_\b", "mu_inv_"), (r"\blower", "upper"), (r"\bupper", "lower"), (r"_prev\b", "_opt"),
]


def mutants(path):
    src = open(path).read().split("\n")
    out, block = [], False
    for n, l in enumerate(src):
        s = l.strip()
        if s.startswith("/*"):
            block = True
        if block:
            block = "*/" not in s
            continue
        if not s or s.startswith(("//", "*", "#", "template", "using", "namespace", "typedef", "static_assert", "friend", "PROXSUITE_NLP_")):
            continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if "<" in a and "template" in code:
                    continue
                new = l[:m.start()] + b + l[m.end():]
                if new != l:
                    out.append((n, new, "%s->%s" % (a, b)))
        if re.match(r"^\s*[\w:.\->()\[\]*]+(\(.*\)|\s*[-+*/]?=\s.*|\.\w+\(.*\));\s*$", code) and not re.match(r"^\s*(return|using|const|auto|int|long|Scalar|bool|double)\b", code):
            out.append((n, re.match(r"^\s*", l).group(0) + ";", "delete"))
        if re.match(r"^\s*(else )?if \(.*\)( \{)?\s*$", code):
            out.append((n, re.sub(r"if \((.*)\)", r"if (!(\1))", l), "negate"))
    return src, out


def main():
    outf, harness, props, n = sys.argv[1], sys.argv[2], sys.argv[3].split(), int(sys.argv[4])
    rng = random.Random(int(os.environ.get("MSEED", "1")))
    pool = []
    for f in sys.argv[5:]:
        src, ms = mutants(os.path.join("/repo", f))
        pool += [(f, src, m) for m in ms]
    rng.shuffle(pool)
    pool = pool[:n]
    if os.environ.get("MIN"):  # the survivors of an earlier campaign
        old = [json.loads(l) for l in open(os.environ["MIN"])]
        pool = []
        for r in old:
            if r["result"] == "SURVIVED":
                src = open(os.path.join("/repo", r["file"])).read().split("\n")
                ind = re.match(r"^\s*", src[r["line"] - 1]).group(0)
                pool.append((r["file"], src, (r["line"] - 1, ind + r["new"], r["op"])))
    os.environ["VP_REPO"] = "/repo"
    import check

    def one(t):
        f, src, (ln, new, op) = t
        w = tempfile.mkdtemp(prefix="mut-", dir="/tmp/t/mut")
        try:
            r = os.path.join(w, "repo")
            os.mkdir(r)
            for d in ("include", "src"):
                shutil.copytree(os.path.join("/repo", d), os.path.join(r, d))
            s2 = list(src)
            s2[ln] = new
            open(os.path.join(r, f), "w").write("\n".join(s2))
            rec = dict(file=f, line=ln + 1, op=op, old=src[ln].strip(), new=new.strip())
            lib = [os.path.join(r, "src", x) for x in sorted(os.listdir(os.path.join(r, "src"))) if x.endswith(".cpp")]
            if harness in ("polymorphic.cpp",):
                lib = []
            else:  # templates are instantiated in the harness as well, so one library file is enough
                lib = [x for x in lib if os.path.basename(x) in ("block-kind.cpp",)]
            fl = [x.replace("/repo/", r + "/") for x in check.base_flags("plain") if "TEMPLATE_INSTANTIATION" not in x]
            q = subprocess.run(["g++"] + fl + [os.path.join(HERE, "harness", harness)] + lib + ["-lfmt", "-o", w + "/exe"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if q.returncode:
                rec["result"] = "no compile"
                rec["err"] = [l for l in q.stdout.splitlines() if "error" in l][:1]
                return rec
            rec["result"] = "SURVIVED"
            for p in props:
                try:
                    q = subprocess.run([w + "/exe", "--seed", "1", "--property", p, "--replay-dir", w, "--jobs", "2"],
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=400)
                    bad = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION ") and "classic_stall" not in l]
                    if bad or q.returncode not in (0, 1):
                        rec["result"] = "killed by " + p
                        break
                except subprocess.TimeoutExpired:
                    rec["result"] = "timeout " + p
                    break
            return rec
        finally:
            shutil.rmtree(w)
    with ThreadPoolExecutor(int(os.environ.get("MJ", "7"))) as ex, open(outf, "a") as o:
        for rec in ex.map(one, pool):
            o.write(json.dumps(rec) + "\n")
            o.flush()


main()
