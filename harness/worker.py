"""Runs one shard of a driver against /repo and writes the recorded cases as JSON lines."""
import importlib
import json
import os
import random
import resource
import signal
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    """A stand-in was asked for something it does not offer: says nothing about the code."""


HANGS = [0]


def foreign(e):
    """The harness itself looked for a part of the code that is no longer there (renamed, moved)."""
    if not isinstance(e, (AttributeError, ImportError)):
        return False
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None or not tb.tb_frame.f_code.co_filename.startswith(HERE):
        return False
    if isinstance(e, ImportError):
        return True
    obj = getattr(e, "obj", None)
    mod = obj.__name__ if type(obj).__name__ == "module" else getattr(type(obj), "__module__", "") if obj is not None else ""
    return mod.startswith("causalnex")


def guarded(fn, seconds=45):
    """Run fn; returns (kind, value): ok / raise / hang / inconclusive."""

    def onalarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(seconds)
    try:
        return "ok", fn()
    except CaseTimeout:
        HANGS[0] += 1
        return "hang", None
    except Inconclusive as e:
        return "inconclusive", str(e)
    except RecursionError as e:
        return "raise", e
    except Exception as e:  # noqa
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        if foreign(e):
            return "inconclusive", "harness: " + repr(e)
        return "raise", e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def main():
    driver, prop, shard, nshards, tier, seed, only, out = sys.argv[1:9]
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    mod = importlib.import_module(driver)
    rng = random.Random("%s/%s/%s" % (prop, seed, shard))
    n, error = 0, ""
    with open(out, "w") as fh:
        cases = enumerate(getattr(mod, prop)(rng, shard, nshards, tier))
        while HANGS[0] < 3:
            try:
                i, (case, label) = next(cases)
            except StopIteration:
                break
            except Exception:  # the driver does not understand the code: says nothing about the property
                error = traceback.format_exc()[-1500:]
                break
            if only != "-" and i != int(only):
                continue
            case["id"] = "%s/%d/%d/%d" % (prop, seed, shard, i)
            fh.write(json.dumps({"case": case, "label": label}) + "\n")
            fh.flush()
            n += 1
    with open(out + ".done", "w") as fh:
        json.dump({"cases": n, "error": error, "hangs": HANGS[0]}, fh)


if __name__ == "__main__":
    sys.modules["worker"] = sys.modules["__main__"]
    main()
