"""Runs independent pieces of an analysis in forked processes (facts are shared, results come back pickled)."""
import os
import pickle
import sys
import traceback

from .facts import AnalysisError

NPROC = 8


def pmap(f, items, nproc=None):
    """[f(x) for x in items], in order; an exception of f becomes ('error', text)"""
    items = list(items)
    n = min(nproc or NPROC, max(1, len(items)))
    if n <= 1 or os.environ.get('CGV_SERIAL'):
        return [f(x) for x in items]
    pipes = []
    sys.stdout.flush()
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = []
            for x in items[k::n]:
                try:
                    out.append(('ok', f(x)))
                except AnalysisError as e:
                    out.append(('analysis', str(e)))
                except BaseException:
                    out.append(('error', traceback.format_exc()))
            with os.fdopen(w, 'wb') as g:
                pickle.dump(out, g)
            os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    res = [None] * len(items)
    for k, (pid, r) in enumerate(pipes):
        with os.fdopen(r, 'rb') as g:
            data = g.read()
        os.waitpid(pid, 0)
        if not data:
            raise AnalysisError('a worker of the analysis ended without a result')
        for i, x in enumerate(pickle.loads(data)):
            res[k + i * n] = x
    for t, x in res:
        if t == 'analysis':
            raise AnalysisError(x)
        if t == 'error':
            raise RuntimeError(x)
    return [x for _, x in res]
