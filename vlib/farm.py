"""A small process farm without shared queues or locks.

multiprocessing.Pool can deadlock in terminate() when a killed worker held the queue lock; a
check must never hang, so every worker here has a pipe of its own and is ended with SIGKILL.
"""
import ctypes
import os
import signal
import time
import traceback
import multiprocessing as mp
from multiprocessing import connection

_libc = ctypes.CDLL(None, use_errno=True)


def die_with_parent():
    _libc.prctl(1, signal.SIGKILL, 0, 0, 0)      # PR_SET_PDEATHSIG


def _serve(conn):
    die_with_parent()
    while True:
        try:
            job = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        n, fn, arg = job
        try:
            r = (n, fn(arg), None)
        except BaseException:
            r = (n, None, traceback.format_exc())
        try:
            conn.send(r)
        except (OSError, BrokenPipeError):
            os._exit(0)


class Farm:
    def __init__(self, n, task_s=150.0):
        self.n, self.task_s = n, task_s
        self.ctx = mp.get_context("fork")
        self.ws = []          # [process, conn, job or None, start time]
        self.lost = 0
        for _ in range(n):
            self.ws.append(self._spawn())

    def _spawn(self):
        a, b = self.ctx.Pipe(True)
        p = self.ctx.Process(target=_serve, args=(b,), daemon=True)
        p.start()
        b.close()
        return [p, a, None, 0.0]

    def _replace(self, k):
        w = self.ws[k]
        try:
            os.kill(w[0].pid, signal.SIGKILL)
        except OSError:
            pass
        w[0].join(10)
        w[1].close()
        self.ws[k] = self._spawn()
        self.lost += 1

    def run(self, fn, args):
        """Yields (index, result) as they come; a lost or raising task yields (index, None) and
        is reported on stdout. The caller may stop iterating: call close() or run() again."""
        it = iter(enumerate(args))
        more = True
        while True:
            for k, w in enumerate(self.ws):
                if w[2] is None and more:
                    try:
                        n, a = next(it)
                    except StopIteration:
                        more = False
                        break
                    w[2], w[3] = (n, a), time.time()
                    try:
                        w[1].send((n, fn, a))
                    except (OSError, BrokenPipeError):
                        self._replace(k)
                        self.ws[k][2], self.ws[k][3] = (n, a), time.time()
                        self.ws[k][1].send((n, fn, a))
            busy = [w for w in self.ws if w[2] is not None]
            if not busy:
                return
            ready = connection.wait([w[1] for w in busy], timeout=5)
            out = []
            for k, w in enumerate(self.ws):
                if w[2] is None:
                    continue
                if w[1] in ready:
                    try:
                        n, r, err = w[1].recv()
                        if err:
                            self.lost += 1
                            if self.lost <= 2:
                                print("worker error: ... " + err[-400:])
                        w[2] = None
                        out.append((n, r))
                    except (EOFError, OSError):
                        print("a worker was lost; its case is skipped")
                        out.append((w[2][0], None))
                        self._replace(k)
                elif time.time() - w[3] > self.task_s:
                    print("a case took over %d s; skipped" % self.task_s)
                    out.append((w[2][0], None))
                    self._replace(k)
            for x in out:
                yield x

    def map(self, fn, args):
        args = list(args)
        res = [None] * len(args)
        for n, r in self.run(fn, args):
            res[n] = r
        return res

    def abandon(self):
        """Drops what is under way."""
        for k, w in enumerate(self.ws):
            if w[2] is not None:
                self._replace(k)

    def close(self):
        for w in self.ws:
            try:
                os.kill(w[0].pid, signal.SIGKILL)
            except OSError:
                pass
        for w in self.ws:
            w[0].join(10)
            w[1].close()
        self.ws = []

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.close()
