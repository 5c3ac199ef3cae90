"""Parallel execution of instruction classes and collection of findings."""
import multiprocessing as mp
import os
import resource
import signal
import time
import traceback
from . import spec, paths
from .check import Checker, Finding

_G = {}


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def _job(i):
    chk, cls, want, extra, limit = _G["chk"], _G["classes"][i], \
        _G["want"], _G["extra"], _G["limit"]
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    out = {"name": cls.name, "group": cls.group, "findings": [],
           "undecided": None, "empty": False}
    try:
        res, r = chk.run_class(cls, want)
        if r is not None and not res.empty:
            for name in extra:
                out[name] = EXTRA[name](chk, cls, r, res)
        out.update(findings=[vars(f) for f in res.findings],
                   oblig={"/".join(k): v for k, v in res.oblig.items()},
                   nodes=res.nodes, exits=res.exits, samples=res.samples,
                   edges=res.edges, bdd=res.bdd, visits=res.visits,
                   empty=res.empty)
    except (Timeout, MemoryError, RecursionError) as e:
        out["undecided"] = type(e).__name__
    except Exception:
        out["undecided"] = traceback.format_exc()
    finally:
        signal.alarm(0)
    out["wall"] = time.time() - t
    return out


def _ijob(i):
    return i, _job(i)


def _init():
    gb = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (5 * gb, 5 * gb))


def ex_progress(chk, cls, r, res):
    paths.progress(chk, cls, r, res)
    return len(r.infos)


def ex_handshake(chk, cls, r, res):
    paths.handshake(chk, cls, r, res)
    return len(r.infos)


def ex_cycles(chk, cls, r, res):
    from . import timing
    return timing.check(chk, cls, r, res)


def ex_taint(chk, cls, r, res):
    from . import taint
    return taint.check(chk, cls, r, res)


EXTRA = {"taint": ex_taint, "progress": ex_progress, "handshake": ex_handshake,
         "cycles": ex_cycles}


def run_classes(chk, classes, want=None, extra=(), limit=240, jobs=None,
                relevant=None, patience=45, total=None):
    """Analyse ``classes``; returns their result records in order.  Once
    ``relevant`` says a finding was made and ``patience`` seconds are over,
    or after ``total`` seconds, the rest is skipped (recorded as such)."""
    _G.update(chk=chk, classes=classes, want=want, extra=extra, limit=limit)
    n = jobs or min(8, os.cpu_count() or 1)
    t0 = time.time()
    out, hit = {}, 0
    with mp.get_context("fork").Pool(n, initializer=_init,
                                     maxtasksperchild=24) as p:
        for i, rec in p.imap_unordered(_ijob, range(len(classes)),
                                       chunksize=2):
            out[i] = rec
            if relevant is not None and relevant(classes[i], rec):
                hit += 1
            t = time.time() - t0
            if (hit and t > patience) or (total and t > total):
                p.terminate()
                break
    for i, c in enumerate(classes):
        if i not in out:
            out[i] = {"name": c.name, "group": c.group, "findings": [],
                      "undecided": "skipped", "empty": False, "wall": 0}
    return [out[i] for i in range(len(classes))]
