"""Run independent analyses in forked processes."""
import os
import pickle
import traceback

from .model import AnalysisBroken


def parallel(fn, jobs, n=8):
    """[fn(j) for j in jobs], in order, using several processes."""
    jobs = list(jobs)
    n = max(1, min(n, os.cpu_count() or 1, len(jobs)))
    if n == 1:
        return [fn(j) for j in jobs]
    kids = []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    res = ('ok', [fn(j) for j in jobs[k::n]])
                except AnalysisBroken as e:
                    res = ('broken', str(e))
                except BaseException:
                    res = ('error', traceback.format_exc())
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(res, f)
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    out = [None] * len(jobs)
    bad = None
    for k, (pid, r) in enumerate(kids):
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        kind, val = pickle.loads(data) if data else ('error', 'no result')
        if kind == 'ok':
            out[k::n] = val
        elif bad is None or kind == 'error':
            bad = (kind, val)
    if bad is not None:
        if bad[0] == 'broken':
            raise AnalysisBroken(bad[1])
        raise RuntimeError(bad[1])
    return out
