"""Hypothesis driver (CPython 3.12, python3-vt)."""
import os, sys, json, time, zlib, hashlib, subprocess, threading, tempfile, shutil, select, signal, fcntl
import importlib, concurrent.futures, traceback, argparse

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = "/opt/venv-pypy/bin/python"
REPO = os.environ.get("KV_REPO", "/repo")                    # only for trying changes in a clone
BUILD = os.environ.get("KV_BUILD", "/opt/vp/build.sh")
CASE_TIMEOUT = 60.0        # a case takes milliseconds; twice this on re-run = non-termination
SHRINK_BUDGET = 60.0
MAX_SAMPLES = 4


class WorkerDied(Exception):
    pass


class WorkerHung(Exception):
    pass


class Fatal(Exception):
    pass


class StopSearch(BaseException):
    pass


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Worker(object):
    def __init__(self, pid):
        self.pid = pid
        self.p = None
        self.tmp = None
        self.log = []           # cases since start, for state-dependent failures

    def start(self):
        self.stop()
        self.tmp = tempfile.mkdtemp(prefix="kv-%s-" % self.pid)
        env = {
            "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            "HOME": self.tmp, "TMPDIR": self.tmp, "LC_ALL": "C.UTF-8",
            "PYTHONPATH": REPO, "KV_REPO": REPO, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
            "PROJ_NETWORK": "OFF", "MALLOC_PERTURB_": "165",
            "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        }
        self.errf = open(os.path.join(self.tmp, "stderr.log"), "w+b")
        self.p = subprocess.Popen([PYPY, "-W", "ignore", os.path.join(VERIF, "harness", "worker.py"), self.pid],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  cwd=self.tmp, env=env, start_new_session=True, preexec_fn=_limit)
        self.buf = b""
        self.log = []
        r = self._read(240)
        if not r.get("ready"):
            raise Fatal("worker did not start: %r" % (r,))

    def _stderr(self):
        try:
            self.errf.flush()
            with open(self.errf.name, "rb") as f:
                return f.read()[-2000:].decode("utf8", "replace")
        except Exception:
            return ""

    def _read(self, timeout):
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise WorkerHung()
            rl, _, _ = select.select([fd], [], [], left)
            if not rl:
                raise WorkerHung()
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                rc = self.p.wait()
                raise WorkerDied("exit status %s; stderr: %s" % (rc, self._stderr()))
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def run(self, aspect, case, timeout=CASE_TIMEOUT, log=True):
        if self.p is None or self.p.poll() is not None:
            self.start()
        if log:
            self.log.append(case)
        try:
            self.p.stdin.write((json.dumps({"aspect": aspect, "case": case}) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        try:
            return self._read(timeout)
        except (WorkerDied, WorkerHung):
            self.stop()
            raise

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except Exception:
                pass
            try:
                self.p.wait(10)
            except Exception:
                pass
            for f in (self.p.stdin, self.p.stdout, self.errf):
                try:
                    f.close()
                except Exception:
                    pass
            self.p = None
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None


def confirm(pid, aspect, case, timeout=CASE_TIMEOUT * 2):
    """Re-run one case in a fresh worker. -> message or None"""
    w = Worker(pid)
    try:
        w.start()
        try:
            r = w.run(aspect, case, timeout)
        except WorkerDied as e:
            return "process crashed: %s" % e
        except WorkerHung:
            return "did not terminate within %d s" % timeout
        if "err" in r:
            raise Fatal(r["err"])
        return None if r["ok"] else r["msg"]
    finally:
        w.stop()


def confirm_sequence(pid, aspect, cases):
    w = Worker(pid)
    try:
        w.start()
        for i, c in enumerate(cases):
            try:
                r = w.run(aspect, c)
            except WorkerDied as e:
                return i, "process crashed: %s" % e
            except WorkerHung:
                return i, "did not terminate"
            if "err" in r:
                raise Fatal(r["err"])
            if not r["ok"]:
                return i, r["msg"]
        return None
    finally:
        w.stop()


def run_aspect(task):
    """Runs in a pool process."""
    pid, aspect, shard, n, seed = task
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given
    sys.path.insert(0, VERIF)
    gen = importlib.import_module("props.%s_gen" % pid.lower())
    strategy = gen.ASPECTS[aspect]["strategy"]
    st = {"evals": 0, "nt": 0, "labels": {}, "skips": 0, "samples": [], "died": 0}
    seen = set()
    best = {"case": None, "msg": None, "key": None, "t": None, "log": None}
    w = Worker(pid)
    t0 = time.time()

    def note_fail(case, msg):
        k = json.dumps(case)
        key = (len(k), k)
        if best["t"] is None:
            best["t"] = time.time()
            best["log"] = list(w.log)
        if best["key"] is None or key < best["key"]:
            best.update(case=case, msg=msg, key=key)
        if time.time() - best["t"] > SHRINK_BUDGET:
            raise StopSearch()

    def test(case):
        try:
            r = w.run(aspect, case)
        except WorkerDied as e:
            note_fail(case, "process crashed: %s" % e)
            raise AssertionError("crash")
        except WorkerHung:
            note_fail(case, "did not terminate within %d s" % CASE_TIMEOUT)
            raise StopSearch()
        if "err" in r:
            raise Fatal(r["err"] + "\ncase: " + json.dumps(case)[:2000])
        if not r["ok"]:
            note_fail(case, r["msg"])
            raise AssertionError("violation")
        if best["t"] is None:
            st["evals"] += 1
            for lb in set(r["labels"]):
                st["labels"][lb] = st["labels"].get(lb, 0) + 1
            if r.get("skip"):
                st["skips"] += 1
            if r["nt"]:
                h = hashlib.blake2b(json.dumps(case).encode(), digest_size=10).digest()
                if h not in seen:
                    seen.add(h)
                    st["nt"] += 1
                    if len(st["samples"]) < MAX_SAMPLES and st["nt"] in (1, 7, 31, 101):
                        s = json.dumps(case)
                        st["samples"].append({"aspect": aspect, "case": case if len(s) < 1500 else s[:1500] + "..."})
        if len(w.log) > 3000:
            w.log = w.log[-200:]      # bound memory

    wrapped = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                       report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink],
                       suppress_health_check=list(HealthCheck))(
        hypothesis.seed(seed)(given(strategy)(test)))
    res = {"aspect": aspect, "shard": shard, "fatal": None, "violation": None}
    try:
        w.start()
        devnull = open(os.devnull, "w")
        old = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = devnull
        try:
            wrapped()
        finally:
            sys.stdout, sys.stderr = old
    except StopSearch:
        pass
    except BaseException as e:
        if best["case"] is None:
            res["fatal"] = "".join(traceback.format_exception(e))[-4000:]
    finally:
        w.stop()
    if best["case"] is not None and not res["fatal"]:
        try:
            msg = confirm(pid, aspect, best["case"])
            if msg is None:
                seq = best["log"][-200:]
                r = confirm_sequence(pid, aspect, seq)
                if r is not None:
                    res["violation"] = {"aspect": aspect, "cases": seq[:r[0] + 1], "msg": r[1],
                                        "note": "fails only after the preceding cases in the same process"}
                else:
                    st["unreproduced"] = {"msg": best["msg"][:500], "case": best["case"]}
            else:
                res["violation"] = {"aspect": aspect, "cases": [best["case"]], "msg": msg}
        except Fatal as e:
            res["fatal"] = str(e)
    res["stats"] = st
    res["wall"] = time.time() - t0
    return res


def build():
    """Rebuild karta in place from /repo's working tree (writes git-ignored files only)."""
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_")}
    with open("/tmp/.karta-verif-build%s.lock" % REPO.replace("/", "-"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["bash", BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode("utf8", "replace")[-3000:])
        raise Fatal("build of /repo failed")


def load_known(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d["property"] == pid:
                out.append(d)
    return out


def write_replay(pid, v, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(v["cases"], sort_keys=True)
    name = "%s-%s-%s.json" % (pid, v["aspect"], hashlib.sha1(blob.encode()).hexdigest()[:8])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": pid, "aspect": v["aspect"], "cases": v["cases"], "message": v["msg"],
                   "note": v.get("note"), "seed": seed, "tier": tier,
                   "replay_cmd": "python3-vt check.py %s --replay %s" % (pid, path)}, f, indent=1)
    return path


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--aspect", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        if not a.no_build:
            build()
        if a.replay:
            d = json.load(open(a.replay))
            r = confirm_sequence(pid, d["aspect"], d["cases"])
            if r is None:
                print("replay: property %s holds on %s" % (pid, a.replay))
                return 0
            print(r[1])
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        sys.path.insert(0, VERIF)
        gen = importlib.import_module("props.%s_gen" % pid.lower())
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        # --- listed findings: replay each specific case
        known_hits = 0
        for k in load_known(pid):
            m = confirm(pid, k["aspect"], k["case"])
            if m is not None:
                known_hits += 1
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        # --- saved regression cases (shrunk past failures)
        violations = []
        reg = os.path.join(VERIF, "regressions", "%s.jsonl" % pid)
        nreg = 0
        if os.path.exists(reg) and not a.aspect:
            w = Worker(pid)
            try:
                for line in open(reg):
                    if not line.strip():
                        continue
                    d = json.loads(line)
                    nreg += 1
                    try:
                        r = w.run(d["aspect"], d["case"], CASE_TIMEOUT * 2)
                        if "err" in r:
                            raise Fatal(r["err"])
                        m = None if r["ok"] else r["msg"]
                    except WorkerDied as e:
                        m = "process crashed: %s" % e
                    except WorkerHung:
                        m = "did not terminate"
                    if m is not None:
                        violations.append({"aspect": d["aspect"], "cases": [d["case"]], "msg": m})
            finally:
                w.stop()
        tasks = []
        for name, spec in gen.ASPECTS.items():
            if a.aspect and name not in a.aspect:
                continue
            n = int(spec["quick"] * a.scale) if a.tier == "quick" else int(spec["quick"] * spec.get("deep", 12) * a.scale)
            shards = spec.get("shards", 1) if a.tier == "quick" else max(2 * spec.get("shards", 1), 4)
            for s in range(shards):
                tasks.append((pid, name, s, max(1, n // shards),
                              zlib.crc32(("%s/%s/%d/%d" % (pid, name, s, seed)).encode())))
        tasks.sort(key=lambda t: -t[3] * gen.ASPECTS[t[1]].get("cost", 1))
        results = []
        with concurrent.futures.ProcessPoolExecutor(max_workers=8) as ex:
            for r in ex.map(run_aspect, tasks):
                results.append(r)
        fatal = [r for r in results if r["fatal"]]
        labels, per, samples = {}, {}, []
        evals = nt = skips = 0
        unrep = []
        for r in results:
            s = r["stats"]
            evals += s["evals"]; nt += s["nt"]; skips += s["skips"]
            p = per.setdefault(r["aspect"], {"evaluations": 0, "distinct_nontrivial": 0, "outside_domain": 0, "classes": {}})
            p["evaluations"] += s["evals"]; p["distinct_nontrivial"] += s["nt"]; p["outside_domain"] += s["skips"]
            for k, v in s["labels"].items():
                p["classes"][k] = p["classes"].get(k, 0) + v
            if r["shard"] == 0:
                samples.extend(s["samples"][:2])
            if "unreproduced" in s:
                unrep.append(s["unreproduced"])
            if r["violation"]:
                violations.append(r["violation"])
            if a.v:
                print("  %-24s shard %d  %6d cases %6d nontrivial %5.1fs %s" % (r["aspect"], r["shard"], s["evals"], s["nt"], r["wall"], s["labels"]))
        doc = {"property": pid, "tier": a.tier, "seed": seed, "level": "exploration",
               "coverage": {"evaluations": evals, "distinct_nontrivial": nt, "rule": gen.RULE,
                            "samples": samples[:12], "by_aspect": per, "outside_domain": skips,
                            "regression_cases_replayed": nreg, "known_findings_reproduced": known_hits,
                            "unreproduced_failures": unrep},
               "assumptions": getattr(gen, "ASSUMPTIONS", []),
               "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        if not a.aspect:
            with open(os.path.join(ev, "%s.json" % pid), "w") as f:
                json.dump(doc, f, indent=1)
        if violations:
            shown = set()
            for v in violations:
                if v["aspect"] in shown:
                    continue
                shown.add(v["aspect"])
                path = write_replay(pid, v, seed, a.tier)
                m = v["msg"]
                print("%s/%s: %s" % (pid, v["aspect"], m if len(m) < 900 else m[:200] + " ... " + m[-700:]))
                print("case: %s" % json.dumps(v["cases"][-1])[:1500])
                print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if fatal:
            for r in fatal:
                print("HARNESS ERROR in %s/%s:\n%s" % (pid, r["aspect"], r["fatal"]))
            return 2
        for u in unrep:
            print("note: a failure could not be reproduced from its recorded inputs: %s" % json.dumps(u)[:600])
        print("%s: held on %d generated cases (%d distinct non-trivial) in %.1f s" % (pid, evals, nt, time.time() - t0))
        return 0
    except Fatal as e:
        print("HARNESS ERROR: %s" % e)
        return 2
