"""Run obligations in separate processes, each with a limit of time and memory, the whole with a deadline."""
import multiprocessing as mp
import os
import resource
import signal
import time
from multiprocessing.connection import wait

from . import oblig

MEMORY = 3 << 30


def _child(conn, work):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    try:
        r = oblig.run_one(work)
    except BaseException as e:  # noqa: B902
        r = lost(work, f"{type(e).__name__}")
    try:
        conn.send(r)
    except Exception as e:
        conn.send(lost(work, f"result lost: {type(e).__name__}"))
    conn.close()
    os._exit(0)


def lost(work, why):
    oid = work[0]
    return dict(oid=oid, visited=[], wall=float(work[4]), error=None,
                items=[dict(oid=oid, status="undecided", rule="analysable", construct=oid, detail=why, where=None, n=1, proved=0)])


def run(works, jobs, deadline, settle=None):
    """settle(result) -> True: enough is known, the remaining obligations get 30 s"""
    t0 = time.time()
    end = t0 + deadline
    out, live, todo = {}, {}, list(enumerate(works))[::-1]
    ctx = mp.get_context("fork")
    while todo or live:
        now = time.time()
        while todo and len(live) < jobs and now < end:
            i, w = todo.pop()
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(b, w))
            p.start()
            b.close()
            live[a] = (i, w, p, min(now + w[4] + 20, end + 5))
        if now >= end:
            while todo:
                i, w = todo.pop()
                out[i] = lost(w, "not analysed: the time of the check is over")
        ready = wait(list(live), timeout=0.5) if live else []
        for c in ready:
            i, w, p, _ = live.pop(c)
            try:
                out[i] = c.recv()
            except Exception:
                out[i] = lost(w, "the analysis was ended (memory)")
            c.close()
            p.join()
            if settle is not None and settle(out[i]):
                end = min(end, time.time() + 30)
        now = time.time()
        for c in [c for c, v in live.items() if now > min(v[3], end + 5)]:
            i, w, p, _ = live.pop(c)
            os.kill(p.pid, signal.SIGKILL)
            p.join()
            c.close()
            out[i] = lost(w, "analysis budget exhausted")
    return [out[i] for i in range(len(works))]
