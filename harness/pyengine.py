"""Generated-input search for the Python module: the counterpart of pbt.hpp.

A case is a function of a tape of 32-bit draws; every worker is a forked
process which notes the seed of the case it is running in shared memory, so a
crash or a hang of the extension module is a failure of that case and not the
end of the run.  Failures are shrunk on the tape and written to a file.
"""
import argparse, gc, hashlib, json, mmap, os, random, signal, struct, sys, time, traceback
import numpy as np

SUBS = []
CASE_LIMIT = 60.0  # seconds
LEN = 4096  # draws of a case at most; zeros afterwards


def sub(prop, name, rule, quick, thorough):
    def deco(f):
        SUBS.append(dict(prop=prop, name=name, rule=rule, quick=quick, thorough=thorough, f=f))
        return f
    return deco


class Discard(Exception):
    pass


class Tape:
    def __init__(self, seed=None, draws=None):
        self.rng = random.Random(seed) if draws is None else None
        self.draws = [] if draws is None else list(draws)
        self.pos = 0
        self.labels = {}
        self.text = []
        self.nontrivial = False

    def u32(self):
        i = self.pos
        self.pos += 1
        if i < len(self.draws):
            return self.draws[i]
        if self.rng is None or i >= LEN:
            return 0
        self.draws.append(self.rng.getrandbits(32))
        return self.draws[-1]

    def int(self, lo, hi):
        return lo + self.u32() % (hi - lo + 1)

    def bool(self, p=0.5):
        return self.u32() > (1 - p) * 2**32

    def pick(self, xs):
        return xs[self.int(0, len(xs) - 1)]

    def real(self):
        k = self.int(0, 9)
        if k == 0:
            return 0.0
        if k <= 3:
            return float(self.int(0, 8) - 4) if self.bool() else float(self.int(0, 4))
        u = self.u32() / 2.0**31 - 1.0
        return u * (1.0 if k < 8 else 10.0)

    def vec(self, n):
        return np.array([self.real() for _ in range(n)], dtype=float)

    def mat(self, r, c):
        m = np.array([self.real() for _ in range(r * c)], dtype=float).reshape(r, c)
        return np.asfortranarray(m) if self.bool() else m

    def label(self, s):
        self.labels[s] = 1

    def note(self, s):
        self.text.append(str(s))

    def key(self):
        return hashlib.sha256(repr(self.draws[: self.pos]).encode()).digest()[:8]


def run_case(s, t):
    """'ok', 'discard' or the message of a failure."""
    try:
        s["f"](t)
        return "ok", ""
    except Discard:
        return "discard", ""
    except AssertionError as e:
        return "fail", str(e) or traceback.format_exc(limit=-3)
    except Exception as e:  # noqa: BLE001
        return "fail", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4))


def forked(s, draws, quiet=True):
    """Runs one tape in a process of its own: (kind, message, text)."""
    r, w = os.pipe()
    sys.stdout.flush(), sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        if quiet:
            silence()
        t = Tape(draws=draws)
        k, m = run_case(s, t)
        os.write(w, json.dumps([k, m[:3000], "; ".join(t.text)[:3000], t.draws[: t.pos]]).encode()[:60000])
        os._exit(0)
    os.close(w)
    data, t0 = b"", time.time()
    import select
    hung = False
    while True:
        rd, _, _ = select.select([r], [], [], max(0.0, CASE_LIMIT - (time.time() - t0)))
        if not rd:
            os.kill(pid, signal.SIGKILL)
            hung = True
            break
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if hung:
        return "fail", "the case did not end within %d s" % CASE_LIMIT, ""
    try:
        k, m, x, _ = json.loads(data.decode())
        return k, m, x
    except ValueError:
        return "fail", "the interpreter died: wait status %d" % st, ""


def silence():
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1)
    os.dup2(n, 2)


def full_tape(s, seed):
    """The draws which a case with this seed may use."""
    rng = random.Random(seed)
    return [rng.getrandbits(32) for _ in range(LEN)]


def shrink(s, draws, budget=20.0):
    k, m, x = forked(s, draws)
    if k != "fail":
        return None
    best = (list(draws), m, x)
    t0 = time.time()

    def attempt(c):
        nonlocal best
        if time.time() - t0 > budget or c == best[0]:
            return False
        k, m, x = forked(s, c)
        if k == "fail":
            best = (list(c), m, x)
            return True
        return False

    while time.time() - t0 < budget:
        before = list(best[0])
        n = len(best[0])
        size = max(1, n // 2)
        while size >= 1:
            i = 0
            while i < len(best[0]):
                if attempt(best[0][:i] + best[0][i + size:]):
                    continue
                blk = best[0][i:i + size]
                if any(blk):
                    attempt(best[0][:i] + [0] * len(blk) + best[0][i + size:])
                i += size
            if time.time() - t0 > budget:
                break
            size //= 2
        for i in range(len(best[0])):
            while best[0][i] > 1 and attempt(best[0][:i] + [best[0][i] // 2] + best[0][i + 1:]):
                pass
        if best[0] == before:
            break
    d = best[0]
    while d and d[-1] == 0:
        d = d[:-1]
    return d, best[1], best[2]


def worker(s, seed, n, first, step, shm, slot, w, limit):
    silence()
    st = dict(n=0, disc=0, labels={}, keys=[], samples=[])
    keys = set()
    gc.freeze()
    t0 = time.time()
    fail = None
    i = first
    while i < n:
        if (i - first) // step % 200 == 199:  # what earlier cases left must not slow down every collection
            gc.collect()
            gc.freeze()
        cs = (seed * 1000003 + i) * 7919 + 17
        struct.pack_into("<qd", shm, slot * 16, i + 1, time.time())
        t = Tape(seed=cs)
        k, m = run_case(s, t)
        if k == "fail":
            fail = (i, m)
            break
        st["n"] += 1
        if k == "discard":
            st["disc"] += 1
        elif t.nontrivial:
            keys.add(t.key().hex())
            if len(st["samples"]) < 2:
                st["samples"].append("; ".join(t.text)[:400])
        for l in t.labels:
            st["labels"][l] = st["labels"].get(l, 0) + 1
        i += step
        if time.time() - t0 > limit:
            break
    st["keys"] = sorted(keys)
    st["fail"] = fail
    os.write(w, struct.pack("<q", 0))
    data = json.dumps(st).encode()
    while data:
        data = data[os.write(w, data):]
    os._exit(0)


def run_sub(s, seed, n, jobs, limit):
    """All the cases of a sub-check: statistics, and the index of the first failure."""
    import select
    shm = mmap.mmap(-1, 16 * jobs)
    procs = {}
    gc.collect()
    gc.freeze()
    for j in range(min(jobs, n)):
        r, w = os.pipe()
        sys.stdout.flush(), sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            worker(s, seed, n, j, min(jobs, n), shm, j, w, limit)
        os.close(w)
        procs[r] = [pid, j, b""]
    tot = dict(n=0, disc=0, labels={}, keys=set(), samples=[], fails=[])
    while procs:
        rd, _, _ = select.select(list(procs), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 16)
            if b:
                procs[r][2] += b
                continue
            pid, j, data = procs.pop(r)
            os.close(r)
            _, status = os.waitpid(pid, 0)
            try:
                st = json.loads(data[8:].decode())
            except ValueError:
                i = struct.unpack_from("<q", shm, j * 16)[0] - 1
                tot["fails"].append((i, "the interpreter died: wait status %d" % status))
                continue
            tot["n"] += st["n"]
            tot["disc"] += st["disc"]
            tot["keys"].update(st["keys"])
            tot["samples"] += st["samples"]
            for l, c in st["labels"].items():
                tot["labels"][l] = tot["labels"].get(l, 0) + c
            if st["fail"]:
                tot["fails"].append(tuple(st["fail"]))
        for r, (pid, j, data) in list(procs.items()):
            i, since = struct.unpack_from("<qd", shm, j * 16)
            if since and not data and time.time() - since > CASE_LIMIT:
                os.kill(pid, signal.SIGKILL)
    return tot


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--property")
    ap.add_argument("--replay-dir", default=".")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as fh:
            rec = json.loads(fh.readline())
        for s in SUBS:
            if s["prop"] == rec["property"] and s["name"] == rec["sub"]:
                k, m, x = forked(s, rec["tape"], quiet=False)
                print("%s/%s: %s\n%s\n%s" % (s["prop"], s["name"], k, m, x))
                if k == "fail":
                    print("VIOLATION property=%s replay=%s" % (s["prop"], a.replay))
                return 1 if k == "fail" else 0
        return 2
    out, bad = [], False
    for s in SUBS:
        if a.property and s["prop"] != a.property or a.only and s["name"] != a.only:
            continue
        n = max(1, int((s["thorough"] if a.tier == "thorough" else s["quick"]) * a.scale))
        t0 = time.time()
        tot = run_sub(s, a.seed, n, a.jobs, 600 if a.tier == "thorough" else 120)
        viol = flaky = False
        for i, msg in sorted(tot["fails"]):
            cs = (a.seed * 1000003 + i) * 7919 + 17
            res = shrink(s, full_tape(s, cs))
            if res is None:  # again: the case may depend on the state of the process
                res = shrink(s, full_tape(s, cs))
            if res is None:
                flaky = True
                print("[%s/%s] not reproducible: %s" % (s["prop"], s["name"], msg), file=sys.stderr)
                continue
            d, m, x = res
            rp = os.path.join(a.replay_dir, "%s-%s-seed%d.tape" % (s["prop"], s["name"], a.seed))
            with open(rp, "w") as fh:
                fh.write(json.dumps(dict(property=s["prop"], sub=s["name"], tape=d)) + "\n")
                fh.write(m + "\n" + x + "\n")
            print("[%s/%s] %s\n   %s" % (s["prop"], s["name"], m, x), file=sys.stderr)
            print("VIOLATION property=%s replay=%s" % (s["prop"], rp))
            sys.stdout.flush()
            viol = bad = True
            break
        wall = time.time() - t0
        print("[%s/%s] %d cases, %d distinct non-trivial, %d discarded, %.1f s%s" %
              (s["prop"], s["name"], tot["n"], len(tot["keys"]), tot["disc"], wall, "  ** VIOLATION" if viol else ""),
              file=sys.stderr)
        out.append(dict(name=s["name"], rule=s["rule"], evaluations=tot["n"], discarded=tot["disc"],
                        distinct_nontrivial=len(tot["keys"]), labels=tot["labels"], flaky=flaky,
                        wall_s=round(wall, 2), samples=tot["samples"][:3]))
    if a.out:
        with open(a.out, "w") as fh:
            json.dump(dict(subs=out), fh)
    return 1 if bad else 0
