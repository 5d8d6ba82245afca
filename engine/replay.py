"""python -m engine.replay PROP TIER TIMEOUT  < lines of {"h":harness,"vals":{...}} : runs them on the real package"""
import json
import os
import signal
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


class Hang(BaseException):
    pass


def main():
    sys.dont_write_bytecode = True
    prop, tier, timeout = sys.argv[1], sys.argv[2], int(sys.argv[3])
    sys.path.insert(0, REPO)
    import pyembroidery
    assert os.path.abspath(pyembroidery.__file__).startswith(os.path.abspath(REPO)), pyembroidery.__file__
    from .runner import get_harnesses, known_ids
    from .ctx import ConcCtx, Violation, AssumeFailed, evalv
    from .sym import StopPath, Model
    hs = {h.name: h for h in get_harnesses(prop, tier)}
    known = known_ids(prop)

    def onalarm(*a):
        raise Hang()

    signal.signal(signal.SIGALRM, onalarm)
    for line in sys.stdin:
        d = json.loads(line)
        h = hs[d["h"]]
        c = ConcCtx(d["vals"], pyembroidery, known)
        out = dict(outcome="ok")
        signal.alarm(timeout)
        try:
            try:
                h.fn(c, **h.params)
            except StopPath:
                pass
            out["obs"] = evalv(c.obs, Model({}))
        except Violation as e:
            m = str(e)
            out = dict(outcome="violation", msg=m)
            if m.startswith("[known "):
                out["known"] = m[7:].split("]")[0]
        except AssumeFailed:
            out = dict(outcome="assume")
        except Hang:
            out = dict(outcome="hang", msg="does not terminate within %ds" % timeout)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            f = tb[-1]
            out = dict(outcome="exception", msg="%s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(f.filename), f.lineno))
        finally:
            signal.alarm(0)
        print("@REPLAY " + json.dumps(out, default=str), flush=True)
        if out["outcome"] == "hang":
            return


main()
