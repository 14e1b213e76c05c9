"""PyPy worker: executes generated cases against karta (imported from /repo).

Protocol: one JSON request per line on stdin, one JSON reply per line on the
original stdout.  karta only runs under PyPy here while Hypothesis only runs
under CPython, so generation/shrinking and execution live in two processes.
"""
import os, sys, json, importlib, traceback, warnings, gc

OUT = os.fdopen(os.dup(1), "w", 1)
os.dup2(2, 1)                       # anything karta prints goes to stderr
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(5000)

from harness.rt import Violation, Skip, HarnessError, Ctx


def reply(obj):
    OUT.write(json.dumps(obj) + "\n")
    OUT.flush()


def innermost_file(tb):
    fn = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return fn or ""


def main():
    pid = sys.argv[1]
    import numpy as np
    np.seterr(all="ignore")
    import karta
    if not os.path.abspath(karta.__file__).startswith(os.environ.get("KV_REPO", "/repo") + "/"):
        reply({"fatal": "karta imported from %s" % karta.__file__})
        return 3
    mod = importlib.import_module("props.%s_chk" % pid.lower())
    reply({"ready": True, "checks": sorted(mod.CHECKS)})
    n = 0
    for line in sys.stdin:
        req = json.loads(line)
        if req.get("quit"):
            break
        ctx = Ctx()
        fn = mod.CHECKS[req["aspect"]]
        try:
            try:
                fn(req["case"], ctx)
            except MemoryError:
                gc.collect(); gc.collect()       # PyPy does not see memory held by extensions
                ctx = Ctx()
                fn(req["case"], ctx)
            reply({"ok": True, "nt": ctx.nt, "labels": ctx.labels})
        except Skip as e:
            reply({"ok": True, "nt": False, "labels": ctx.labels + ["skip:%s" % e], "skip": True})
        except Violation as e:
            reply({"ok": False, "msg": str(e)[:4000], "labels": ctx.labels})
        except HarnessError:
            reply({"err": traceback.format_exc()[-4000:]})
        except Exception as e:
            # An exception while driving karta with an input in the property's
            # domain is a violation; one raised inside the oracle code is ours.
            f = innermost_file(sys.exc_info()[2])
            txt = traceback.format_exc()[-4000:]
            if "/oracles" not in f:
                reply({"ok": False, "msg": "unexpected exception %s: %s\n%s" % (type(e).__name__, e, txt), "labels": ctx.labels})
            else:
                reply({"err": txt})
        n += 1
        if n % 50 == 0:
            gc.collect()
    return 0


if __name__ == "__main__":
    rc = main()
    OUT.flush()
    os._exit(rc)
