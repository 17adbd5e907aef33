"""Runs jobs in forked worker processes.  A worker that dies (a crash of the interpreter) is replaced and its job is done
again; a job that fails that way three times is an error of the machinery.  A job that twice does not answer within a time
that is a hundred times what it needs is one in which the code under test never answers: no further job is run then."""
import multiprocessing
import multiprocessing.connection
import os
import time
import traceback

TRIES = 3
LIMIT = 120                 # seconds a job may take


def _call(fn, args):
    if os.environ.get('VERIF_STACKS'):
        import faulthandler
        faulthandler.register(10, file=open('/tmp/stacks.%d' % os.getpid(), 'w'))
    try:
        return ('ok', fn(*args))
    except Exception as e:                          # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        repo = any(f.filename.startswith(os.environ.get('VERIF_REPO', '/repo')) for f in tb)
        return ('repo' if repo else 'err', '%s\n%s' % (repr(e), ''.join(traceback.format_exception(e))[-3000:]))


def _worker(con, fn):
    try:
        while True:
            args = con.recv()
            if args is None:
                return
            con.send(_call(fn, args))
    except (EOFError, KeyboardInterrupt):
        pass


class Worker:
    def __init__(self, ctx, fn):
        self.con, other = ctx.Pipe()
        self.proc = ctx.Process(target=_worker, args=(other, fn), daemon=True)
        self.proc.start()
        other.close()
        self.job = None

    def give(self, i, args):
        self.job, self.since = i, time.time()
        self.con.send(args)

    def stop(self, kill=False):
        try:
            if kill:
                self.proc.kill()
            else:
                self.con.send(None)
        except (OSError, ValueError):
            pass
        self.con.close()
        self.proc.join(5)
        if self.proc.is_alive():
            self.proc.kill()
            self.proc.join()


def pmap(fn, argslist, procs=8, chunk=1, limit=LIMIT):
    """[(status, value)] in order; status ok | repo (exception out of the code under test) | err (harness)"""
    argslist = list(argslist)
    ctx = multiprocessing.get_context('fork')
    res = [None] * len(argslist)
    tries = [0] * len(argslist)
    todo = list(range(len(argslist)))[::-1]
    workers = []
    try:
        while todo or any(w.job is not None for w in workers):
            for w in list(workers):
                if todo and w.job is None:
                    i = todo.pop()
                    w.give(i, argslist[i])
            while todo and len(workers) < procs:
                w = Worker(ctx, fn)
                workers.append(w)
                i = todo.pop()
                w.give(i, argslist[i])
            busy = [w for w in workers if w.job is not None]
            ready = multiprocessing.connection.wait([w.con for w in busy], timeout=5)
            for w in busy:
                i = w.job
                if w.con in ready:
                    try:
                        res[i] = w.con.recv()
                        w.job = None
                        continue
                    except (EOFError, OSError):
                        why = 'a worker process died'
                elif time.time() - w.since > limit:
                    why = 'a worker process did not answer within %d s' % limit
                else:
                    continue
                workers.remove(w)
                w.stop(kill=True)
                tries[i] += 1
                if 'answer' in why and tries[i] > 1:
                    said = ('repo', '%s, twice (job %r)' % (why, argslist[i]))
                    return [x or said for x in res]
                if tries[i] < TRIES:
                    todo.append(i)
                else:
                    res[i] = ('err', '%s (job %r)' % (why, argslist[i]))
    finally:
        for w in workers:
            w.stop(kill=w.job is not None)
    return res
