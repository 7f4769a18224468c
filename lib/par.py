"""Worker pool with a time budget per item and for the whole check: what is cut short is reported, never waited for."""
import multiprocessing, os, signal, time

START = time.time()
TOTAL = {"quick": 620, "thorough": 780}[os.environ.get("XAD_TIER", "quick")]
ITEM = 25


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def guarded(f):
    """run f() under the item budget; Timeout when over it or when the check as a whole is out of time"""
    left = START + TOTAL - time.time()
    if left <= 0:
        raise Timeout()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, min(ITEM, left), 2)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def pmap_procs(work, jobs, chunk=4):
    with multiprocessing.Pool(min(8, os.cpu_count() or 8)) as pool:
        return pool.map(work, jobs, chunksize=chunk)
