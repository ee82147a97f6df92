"""Bounded search for failing inputs through the public API of the real code, run under Jython 2.7 (Python 2)."""
import ast
import json
import os
import random
import sys
import threading
import time
import traceback
import zlib

from java.lang import System


class Failure(Exception):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Failure(msg % args if args else msg)


def same(got, want, what):
    if got != want:
        raise Failure("%s: got %r, expected %r" % (what, got, want))


def close(got, want, what, tol=1e-9):
    ok = (got == want) or abs(got - want) <= tol * max(1.0, abs(got), abs(want))
    if not ok:
        raise Failure("%s: got %r, expected %r" % (what, got, want))


PATIENCE = 60       # seconds that one case may take (they take milliseconds)
current = [None, None]     # the case that runs, and since when


def seconds_now():
    return System.nanoTime() / 1e9


def watch(hung):
    """Calls hung(case) when a case does not end."""
    def loop():
        while True:
            time.sleep(1)
            case, since = current
            if since is not None and seconds_now() - since > PATIENCE:
                current[1] = None
                hung(case)
                sys.stdout.flush()
                os._exit(1)
    t = threading.Thread(target=loop)
    t.setDaemon(True)
    t.start()


def run_case(mod, case):
    """None, or the message of the violation."""
    try:
        current[0], current[1] = case, seconds_now()
        try:
            mod.run(case)
        finally:
            current[1] = None
        return None
    except Failure, e:
        return str(e)
    except Exception, e:
        return "raised %s: %s\n%s" % (e.__class__.__name__, e, traceback.format_exc()[-1500:])
    except:     # Java exceptions
        e = sys.exc_info()
        return "raised %s: %s" % (e[0], e[1])


def shrink(mod, case, msg, seconds=6):
    """Drops elements of the lists in a case while it still fails."""
    end = time.time() + seconds

    def variants(c):
        if isinstance(c, list):
            for k in (len(c) // 2, len(c) // 4, 1):
                if k:
                    for i in range(0, len(c), k):
                        yield c[:i] + c[i + k:]
            for i, x in enumerate(c):
                for v in variants(x):
                    yield c[:i] + [v] + c[i + 1:]
        elif isinstance(c, dict):
            for k in sorted(c):
                for v in variants(c[k]):
                    d = dict(c)
                    d[k] = v
                    yield d
    progress = True
    while progress and time.time() < end:
        progress = False
        for v in variants(case):
            if time.time() > end:
                break
            try:
                m = run_case(mod, v) if getattr(mod, "valid", lambda c: True)(v) else None
            except Exception:
                m = None
            if m is not None and m.split(":")[0] == msg.split(":")[0]:
                case, msg, progress = v, m, True
                break
    return case, msg


def main(mod, argv):
    mode, out = argv[0], argv[1]
    if mode == "replay":
        f = open(argv[2])
        case = ast.literal_eval(json.load(f)["case"])
        f.close()

        def hung(case):
            print "case: %r\nVIOLATED: does not end within %d s" % (case, PATIENCE)
        watch(hung)
        msg = run_case(mod, case)
        print "case: %r" % (case,)
        print msg is None and "holds" or "VIOLATED: %s" % msg
        return msg is not None
    seed, limit, seconds = int(argv[2]), int(argv[3]), float(argv[4])
    t0 = time.time()
    n = 0
    distinct = set()
    samples = []
    result = {"failure": None, "known": []}
    shrinking = []

    def write():
        result.update(evaluations=n, distinct=len(distinct), samples=samples, wall=round(time.time() - t0, 2),
                      rule=getattr(mod, "RULE", mod.__doc__ or ""))
        f = open(out, "w")
        f.write(json.dumps(result))
        f.close()

    def hung(case):
        if shrinking:
            case, msg = shrinking[0]
        else:
            msg = "does not end within %d s" % PATIENCE
        result["failure"] = {"case": repr(case), "message": msg}
        write()
    watch(hung)
    for text, case in getattr(mod, "KNOWN", []):
        m = run_case(mod, case)
        result["known"].append([text, m is not None, repr(case), m])
    nontrivial = getattr(mod, "nontrivial", lambda c: True)
    for case in mod.cases(random.Random(seed), argv[5]):
        if n >= limit or time.time() - t0 > seconds:
            break
        n += 1
        if nontrivial(case):
            distinct.add(zlib.crc32(repr(case)))
        if len(samples) < 3 and n in (1, 7, 31):
            samples.append(repr(case)[:400])
        msg = run_case(mod, case)
        if msg is not None:
            shrinking.append((case, msg))
            case, msg = shrink(mod, case, msg)
            result["failure"] = {"case": repr(case), "message": msg}
            break
    write()
    return 0


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import hlib
    sys.exit(hlib.main(__import__(sys.argv[1]), sys.argv[2:]) and 1 or 0)
