"""Exhaustive exploration engine.

A property module gives  units(tier) -> list of JSON-able units  and  run(ctx, unit).
run() asks ctx.choose(name, options) for every further decision; it is re-executed for every
vector of answers (depth first, options in the order given), so that each (unit, answers) pair
within the bound is executed exactly once.  Units are distributed over worker processes.
"""
import json, mmap, os, pickle, select, signal, struct, sys, time, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_S = 240.0
MAXC = 64


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Divergence(Exception):
    """The harness did not make the same choices when replayed (an error of the check)."""


def short(v, n=160):
    try:
        s = repr(v)
    except Exception as e:      # a broken __repr__ must not hide the report
        s = "<%s: repr failed: %r>" % (type(v).__name__, e)
    return s if len(s) <= n else s[:n - 3] + "..."


class Ctx(object):
    def __init__(self, known=(), beat=None):
        self.known = set(known)
        self.known_hits = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.extra = {}
        self.beat = beat
        self.unit = None
        self.prefix = []

    def begin(self, prefix):
        self.prefix = prefix
        self.path = []          # (index, number of options)
        self.log = []           # (name, shown value)

    def choose(self, name, options):
        i = len(self.path)
        n = len(options)
        if n == 0:
            raise Divergence("no options for %s" % name)
        if i < len(self.prefix):
            k, m = self.prefix[i]
            if m not in (n, None) or k >= n:
                raise Divergence("choice %d (%s) has %d options, had %s" % (i, name, n, m))
        else:
            k = 0
        self.path.append((k, n))
        v = options[k]
        self.log.append((name, v))
        if self.beat is not None:
            self.beat(self.path)
        return v

    def note(self, name, v):
        """Part of the description of an execution without being a decision."""
        self.log.append((name, v))

    def op(self, n=1):
        """Operations of the library that were executed and observed."""
        self.transitions += n
        if self.beat is not None:
            self.beat(self.path)

    def state(self, n=1):
        self.states += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def observe(self, *obs):
        if len(self.outcomes) < 300000:
            h = hashlib.blake2b(digest_size=8)
            for o in obs:
                h.update(o if isinstance(o, bytes) else o.tobytes() if hasattr(o, "tobytes") else repr(o).encode())
            self.outcomes.add(h.digest())

    def check(self, cond, msg, key=None):
        if cond:
            return True
        if callable(msg):
            msg = msg()
        if key is not None and key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return False
        raise Violation(msg, key)

    def describe(self):
        return {"unit": self.unit, "choices": [[n, short(v)] for n, v in self.log]}


def run_one(prop, ctx, unit, prefix):
    ctx.unit = unit
    ctx.begin(prefix)
    prop.run(ctx, unit)


def failure(ctx, e):
    d = ctx.describe()
    if isinstance(e, Violation):
        d["message"] = str(e)
    else:
        d["message"] = "unexpected %s: %s" % (type(e).__name__, e)
        d["traceback"] = traceback.format_exc()[-3000:]
    d["path"] = [list(p) for p in ctx.path]
    return d


def explore_unit(prop, ctx, unit, stop=None):
    """Explore the whole choice tree below one unit. Returns a failure or None."""
    prefix = []
    ctx.states += 1
    first = True
    while True:
        try:
            run_one(prop, ctx, unit, prefix)
        except Divergence:
            raise
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            return failure(ctx, e)
        ctx.traces += 1
        path = ctx.path
        new = len(path) - max(0, len(prefix) - 1)
        ctx.states += new
        if first:
            ctx.sample = ctx.describe()
            first = False
        i = len(path) - 1
        while i >= 0 and path[i][0] + 1 >= path[i][1]:
            i -= 1
        if i < 0:
            return None
        prefix = path[:i] + [(path[i][0] + 1, path[i][1])]
        if stop is not None and stop():
            return None


# ---------------------------------------------------------------------------------------------
SLOT = 8 + 4 + 4 + 8 * MAXC


def worker(prop, units, known, mm, slot, tok_r, res_w, stop_mm):
    off = slot * SLOT

    def beat(path):
        n = min(len(path), MAXC)
        struct.pack_into("d", mm, off, time.monotonic())
        struct.pack_into("i", mm, off + 12, n)
        for i in range(max(0, n - 3), n):
            struct.pack_into("ii", mm, off + 16 + 8 * i, path[i][0], path[i][1])

    ctx = Ctx(known, beat)
    done = []
    fails = []
    samples = []
    if hasattr(prop, "worker_init"):
        prop.worker_init()
    stop = lambda: stop_mm[0] != 0
    while True:
        struct.pack_into("i", mm, off + 8, -1)
        b = os.read(tok_r, 4)
        if len(b) < 4:
            break
        u = struct.unpack("i", b)[0]
        struct.pack_into("d", mm, off, time.monotonic())
        struct.pack_into("ii", mm, off + 8, u, 0)
        ctx.sample = None
        t0 = time.monotonic()
        try:
            f = explore_unit(prop, ctx, units[u], stop)
        except BaseException as e:
            os.write(2, ("error of the check in unit %r: %s\n" % (units[u], traceback.format_exc())).encode())
            os._exit(3)
        done.append(u)
        if ctx.sample is not None and (u < 3 or u % max(1, len(units) // 5) == 0):
            samples.append((u, ctx.sample))
        if os.environ.get("MC_SLOW"):
            os.write(2, ("%.3f %r\n" % (time.monotonic() - t0, units[u])).encode())
        if f is not None:
            f["worker_units"] = list(done)
            fails.append((u, f))
            stop_mm[0] = 1
        if stop():
            break
    struct.pack_into("i", mm, off + 8, -1)
    out = {"states": ctx.states, "transitions": ctx.transitions, "traces": ctx.traces,
           "outcomes": ctx.outcomes, "extra": ctx.extra, "fails": fails, "samples": samples,
           "known": ctx.known_hits, "units": len(done)}
    data = pickle.dumps(out)
    mvw = memoryview(data)
    while mvw:
        n = os.write(res_w, mvw)
        mvw = mvw[n:]
    os._exit(0)


def explore(prop, units, known, jobs=None):
    if jobs is None:
        jobs = int(os.environ.get("MC_JOBS", "0")) or min(16, os.cpu_count() or 1)
    jobs = max(1, min(jobs, len(units)))
    mm = mmap.mmap(-1, SLOT * jobs)
    stop_mm = mmap.mmap(-1, 1)
    tok_r, tok_w = os.pipe()
    procs = {}
    sys.stdout.flush()
    sys.stderr.flush()
    order = list(range(len(units)))
    if hasattr(prop, "cost"):
        order.sort(key=lambda u: -prop.cost(units[u]))
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                os.close(tok_w)
                worker(prop, units, known, mm, j, tok_r, w, stop_mm)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        procs[r] = [pid, j, b""]
    os.close(tok_r)
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    os.set_blocking(tok_w, False)
    pos = 0
    tot = {"states": 0, "transitions": 0, "traces": 0, "outcomes": set(), "extra": {}, "fails": [],
           "samples": [], "known": {}, "units": 0, "error": None, "jobs": jobs}

    def current(j):
        off = j * SLOT
        t, = struct.unpack_from("d", mm, off)
        u, n = struct.unpack_from("ii", mm, off + 8)
        path = [struct.unpack_from("ii", mm, off + 16 + 8 * i) for i in range(n)]
        return t, u, path

    while procs:
        wl = [tok_w] if tok_w is not None else []
        rl, wr, _ = select.select(list(procs), wl, [], 1.0)
        if wr:
            try:
                while pos < len(order):
                    os.write(tok_w, struct.pack("i", order[pos]))
                    pos += 1
            except BlockingIOError:
                pass
            except BrokenPipeError:
                pos = len(order)
            if pos >= len(order):
                os.close(tok_w)
                tok_w = None
        now = time.monotonic()
        for r in list(procs):
            pid, j, buf = procs[r]
            if r in rl:
                d = os.read(r, 1 << 20)
                if d:
                    procs[r][2] = buf + d
                    continue
                os.close(r)
                del procs[r]
                _, st = os.waitpid(pid, 0)
                t, u, path = current(j)
                if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and buf:
                    o = pickle.loads(buf)
                    for k in ("states", "transitions", "traces", "units"):
                        tot[k] += o[k]
                    tot["outcomes"] |= o["outcomes"]
                    for k in ("extra", "known"):
                        for n_, v in o[k].items():
                            tot[k][n_] = tot[k].get(n_, 0) + v
                    tot["fails"] += o["fails"]
                    tot["samples"] += o["samples"]
                elif os.WIFSIGNALED(st) and os.WTERMSIG(st) != signal.SIGKILL and u >= 0:
                    tot["fails"].append((u, {"unit": units[u], "path": [list(p) for p in path], "choices": [],
                                             "message": "the interpreter was ended by signal %d while running this case"
                                             % os.WTERMSIG(st), "crash": True}))
                    stop_mm[0] = 1
                else:
                    tot["error"] = "worker ended with status %d" % st
                    stop_mm[0] = 1
            else:
                t, u, path = current(j)
                if u >= 0 and t and now - t > getattr(prop, "HANG_S", HANG_S):
                    tot["fails"].append((u, {"unit": units[u], "path": [list(p) for p in path], "choices": [],
                                             "message": "no progress for %d s in this case (endless loop)"
                                             % (now - t), "crash": True}))
                    stop_mm[0] = 1
                    os.kill(pid, signal.SIGKILL)
                    os.close(r)
                    del procs[r]
                    os.waitpid(pid, 0)
    if tok_w is not None:
        os.close(tok_w)
    tot["fails"].sort(key=lambda x: x[0])
    return tot


def reproduce(prop, fail, known, history=False):
    """Run the failing execution again in a fresh process; True if it fails again."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(int(2 * getattr(prop, "HANG_S", HANG_S)))
            if hasattr(prop, "worker_init"):
                prop.worker_init()
            ctx = Ctx(known)
            try:
                run_one(prop, ctx, fail["unit"], [tuple(p) for p in fail["path"]])
            except Divergence as e:
                os.write(w, ("divergence: %s" % e).encode())
            except Exception as e:
                os.write(w, json.dumps(failure(ctx, e), default=short).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        d = os.read(r, 1 << 20)
        if not d:
            break
        data += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return {"message": "ended by signal %d" % os.WTERMSIG(st)}
    if data.startswith(b"{"):
        return json.loads(data)
    return None


# ---------------------------------------------------------------------------------------------
def load_known(pid):
    """known_findings.txt: lines  'known: property=<id> key=<key> :: <what fails>'."""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("known: property=%s " % pid):
                head, what = line.split(" :: ", 1)
                out[head.split(" key=", 1)[1].strip()] = what.strip()
    return out


def main(prop, tier, replay=None):
    t0 = time.time()
    pid = prop.ID
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_known(pid)
    prop.setup(tier)
    if replay:
        with open(replay) as f:
            fail = json.load(f)
        print(json.dumps(fail, indent=1)[:4000])
        again = reproduce(prop, fail, known)
        if again is None and fail.get("worker_units_content"):
            ctx = Ctx(known)
            for u in fail["worker_units_content"]:
                again = explore_unit(prop, ctx, u)
                if again:
                    break
        print("reproduced: %s" % (again or {}).get("message") if again else "not reproduced")
        return 1 if again else 0
    units = list(prop.units(tier))
    tot = explore(prop, units, known)
    if tot["error"] and not tot["fails"]:
        print("ERROR property=%s %s" % (pid, tot["error"]))
        return 2
    cov = {"states": tot["states"], "transitions": tot["transitions"],
           "traces_validated_against_impl": tot["traces"],
           "samples": [s for _, s in sorted(tot["samples"], key=lambda x: x[0])][:6],
           "units": tot["units"], "distinct_observations": len(tot["outcomes"]),
           "exhaustive": not tot["fails"] and tot["units"] == len(units),
           "bounds": prop.BOUNDS[tier] if isinstance(prop.BOUNDS, dict) else prop.BOUNDS,
           "rule": prop.RULE}
    cov.update(tot["extra"])
    if prop.LEVEL == "fault_enumeration":
        cov["evaluations"] = tot["traces"]
        cov["distinct_nontrivial"] = tot["extra"].get("faults_fired", 0)
        for k in ("states", "transitions", "traces_validated_against_impl", "faults_fired"):
            cov.pop(k, None)
    cov = json.loads(json.dumps(cov, default=short))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.LEVEL, "coverage": cov,
          "assumptions": list(prop.ASSUMPTIONS), "wall_s": round(time.time() - t0, 2),
          "violations": len(tot["fails"])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(tot["known"]):
        print("KNOWN-FINDING: property=%s %s [%d cases]" % (pid, known[k], tot["known"][k]))
    print("%s %s: units=%d states=%d transitions=%d traces=%d outcomes=%d jobs=%d wall=%.1fs" % (
        pid, tier, tot["units"], tot["states"], tot["transitions"], tot["traces"],
        len(tot["outcomes"]), tot["jobs"], time.time() - t0))
    if not tot["fails"]:
        return 0
    u, fail = tot["fails"][0]
    again = reproduce(prop, fail, known)
    fail["property"] = pid
    fail["tier"] = tier
    fail["reproduced_alone"] = again is not None
    if again is not None and not fail.get("choices"):
        fail["choices"] = again.get("choices", [])
    if again is None and "worker_units" in fail:
        fail["note"] = ("the case fails only after the calls made earlier in the same process: the result of "
                        "a call depends on history; worker_units_content replays them")
        fail["worker_units_content"] = [units[i] for i in fail["worker_units"]]
    fail.pop("worker_units", None)
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + ".json")
    with open(path, "w") as f:
        json.dump(fail, f, indent=1, default=short)
        f.write("\n")
    print("case: %s" % json.dumps([fail["unit"], fail["choices"]], default=short))
    print("what: %s" % fail["message"])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
