"""Run-time contract checks on the real code (bounded stand-ins and counterexample search).

A property module defines `cases(tier, rng)` yielding (label, function).  The function calls the real code and compares
with the contract; `Viol` (or an assertion of the contract) is a failing input."""
import os
import sys
import json
import time
import signal
import random
import shutil
import tempfile
import traceback
import warnings

REPO = os.environ.get("PYDV_REPO", "/repo")


class Viol(Exception):
    """the contract does not hold on this input"""


class Hang(BaseException):
    pass


def check(cond, *msg):
    if not cond:
        raise Viol(" ".join(str(m) for m in msg)[:4000])


class ScratchDir:
    def __enter__(self):
        self.cwd = os.getcwd()
        self.path = tempfile.mkdtemp(prefix="mlmcv_")
        os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.path, ignore_errors=True)


def expect_raises(fn, msg, exc=Exception):
    try:
        r = fn()
    except exc:
        return
    raise Viol("%s: no error was raised, result %r" % (msg, r))


def _in_repo(tb):
    """does the exception come from code of the repository (or a library called by it)"""
    last_h, last_r = -1, -1
    i = 0
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + "/"):
            last_r = i
        if fn.startswith(os.path.dirname(os.path.abspath(__file__)) + "/"):
            last_h = i
        i += 1
        tb = tb.tb_next
    return last_r > last_h


def _alarm(*a):
    raise Hang()


def run_case(label, fn, limit):
    """-> (status, message): ok | violation | harness"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with ScratchDir(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn()
        return "ok", ""
    except Viol as e:
        return "violation", str(e)
    except Hang:
        return "violation", "no result within %d s (does not return)" % limit
    except BaseException as e:
        tb = sys.exc_info()[2]
        txt = "".join(traceback.format_exception(type(e), e, tb))[-3000:]
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        if _in_repo(tb) and not (isinstance(e, ImportError)):
            return "violation", "unexpected exception:\n" + txt
        return "harness", txt
    finally:
        signal.alarm(0)


def run_property(mod, tier, seed, budget, only=None, limit=60, verbose=False):
    rng = random.Random(seed)
    t0 = time.time()
    out = {"n": 0, "ok": 0, "violations": [], "harness_errors": [], "groups": {}, "complete": True}
    gen = mod.cases(tier, rng)
    while True:
        try:
            item = next(gen)
        except StopIteration:
            break
        except BaseException as e:
            out["harness_errors"].append(["<generator>", traceback.format_exc()[-2000:]])
            break
        label, fn = item
        if only is not None and label != only:
            continue
        if time.time() - t0 > budget:
            out["complete"] = False
            break
        st, msg = run_case(label, fn, limit)
        if verbose:
            print(label, st, msg)
        out["n"] += 1
        g = label.split("#")[0]
        out["groups"][g] = out["groups"].get(g, 0) + 1
        if st == "ok":
            out["ok"] += 1
        elif st == "violation":
            out["violations"].append([label, msg])
            if len(out["violations"]) >= 5 and only is None:
                out["complete"] = False
                break
        else:
            out["harness_errors"].append([label, msg])
            if len(out["harness_errors"]) > 40:
                break
    out["wall"] = time.time() - t0
    return out
