"""A pool of processes with a time limit: what is not finished by then is undecided."""
import queue, time
from multiprocessing import Pool


def run(fn, jobs, long=False):
    """results of fn over jobs; in the quick run a found violation ends it soon after"""
    end = time.time() + (2400 if long else 450)
    out, todo, done = [], list(reversed(jobs)), queue.Queue()
    pool = Pool(8)
    busy = 0
    try:
        while todo or busy:
            while busy < 16 and todo:
                a = todo.pop()
                pool.apply_async(fn, (a,), callback=lambda r, a=a: done.put((a, r)), error_callback=lambda e, a=a: done.put((a, None)))
                busy += 1
            try:
                a, r = done.get(timeout=max(0.1, end - time.time()))
            except queue.Empty:
                break
            busy -= 1
            if r is None:
                r = ("analysis", str(a)[:100], "-", "undecided", "failed", 1)
            rs = r if isinstance(r, list) else [r]
            out += rs
            if not long and any(x[3] == "violated" for x in rs):
                end = min(end, time.time() + 20)
    finally:
        pool.terminate()
        pool.join()
    n = len(todo) + busy
    if n:
        out.append(("analysis", "%d cases" % n, "-", "undecided", "not reached within the time limit", n))
    return sorted(out)
