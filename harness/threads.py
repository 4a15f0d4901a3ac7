"""Several threads, one running at a time, in an order that the plan gives.

A thread that is in a round stops at its steps - the operations of its streams, the lines (or the instructions) of the code under test - and goes
on when it is its turn.  A thread that does not come to its next step in a while (it waits for something another one holds) loses its turn.
"""
import io
import json
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import traceback

PATIENCE = 0.5
BURSTS = [1, 1, 2, 3, 5, 8, 13, 30, 80, 300]


class Rounds(object):
    def __init__(self, repo, seconds):
        self.where = os.path.join(os.path.realpath(repo), 'procmon_parser') + os.sep
        self.seconds = seconds
        self.lock = threading.Condition()
        self.state, self.left, self.turn, self.me, self.grain = {}, {}, {}, {}, 'io'
        self.steps = 0

    # -- in the threads
    def step(self):
        t = self.me.get(threading.get_ident())
        if t is None:
            return
        self.steps += 1
        self.left[t] -= 1
        if self.left[t] > 0:
            return
        with self.lock:
            self.state[t] = 'ready'
            self.lock.notify_all()
        self.turn[t].acquire()

    def io_step(self):
        if self.grain == 'io':
            self.step()

    def tracer(self, frame, event, arg):
        name = frame.f_code.co_filename
        if self.grain == 'deep':
            if not (name.startswith(self.where) or os.sep + 'construct' + os.sep in name):
                return None
        elif not name.startswith(self.where) and not os.path.realpath(name).startswith(self.where):
            return None
        f = frame
        while f is not None:        # a module being imported holds locks
            if f.f_code.co_name == '<module>':
                if '__main__' != f.f_globals.get('__name__'):
                    return None
            f = f.f_back
        if self.grain == 'op':
            frame.f_trace_opcodes, frame.f_trace_lines = True, False
        return self.line

    def line(self, frame, event, arg):
        if event in ('line', 'opcode'):
            self.step()
        return self.line

    def body(self, t, job):
        self.me[threading.get_ident()] = t
        self.turn[t].acquire()
        if self.grain != 'io':
            sys.settrace(self.tracer)
        try:
            job()
        finally:
            sys.settrace(None)
            del self.me[threading.get_ident()]
            with self.lock:
                self.state[t] = 'done'
                self.lock.notify_all()

    # -- in the thread that plans
    def go(self, jobs, plan):
        """jobs: thread -> what it does.  plan: grain, bursts (thread, steps) and then random ones from the seed.  -> whether all came to their end"""
        self.grain = plan.get('grain', 'io')
        g, bursts, end = random.Random(plan.get('seed', 0)), list(plan.get('bursts', ())), time.time() + self.seconds
        lengths = BURSTS[:plan['most']] if plan.get('most') else BURSTS
        for t in jobs:
            self.state[t], self.left[t], self.turn[t] = 'ready', 0, threading.Semaphore(0)
        ts = sorted(jobs)
        for t in ts:
            threading.Thread(target=self.body, args=(t, jobs[t]), daemon=True).start()
        while True:
            with self.lock:
                ready = [t for t in ts if self.state[t] == 'ready']
                if not ready:
                    if all(self.state[t] == 'done' for t in ts):
                        return True
                    if time.time() > end:
                        return False
                    self.lock.wait(0.2)
                    continue
                t = None
                while bursts and t not in ready:
                    t, n = bursts.pop(0)
                if t not in ready:
                    t, n = g.choice(ready), g.choice(lengths)
                self.state[t], self.left[t] = 'running', n
                self.turn[t].release()
                self.lock.wait_for(lambda: self.state[t] != 'running', PATIENCE)
            if time.time() > end:
                return False


class Stepping(io.BufferedIOBase):
    """A stream whose operations are steps."""
    def __init__(self, inner, rounds):
        super(Stepping, self).__init__()
        self.inner, self.rounds = inner, rounds

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def read(self, size=-1):
        self.rounds.io_step()
        return self.inner.read(size)

    def read1(self, size=-1):
        return self.read(size)

    def readinto(self, buf):
        data = self.read(len(buf))
        buf[:len(data)] = data
        self.rounds.io_step()       # the buffer is the caller's: others may run before it is looked at
        return len(data)

    def write(self, data):
        self.rounds.io_step()
        return self.inner.write(data)

    def seek(self, offset, whence=0):
        self.rounds.io_step()
        return self.inner.seek(offset, whence)

    def tell(self):
        self.rounds.io_step()
        return self.inner.tell()

    def flush(self):
        if hasattr(self.inner, 'flush'):
            self.inner.flush()

    def close(self):
        if hasattr(self, 'inner') and hasattr(self.inner, 'close'):
            self.inner.close()
        super(Stepping, self).close()


def forked(work, name, scratch):
    """Runs a session in a child, which inherits nothing that an earlier session left behind."""
    r, w = os.pipe()
    d = tempfile.mkdtemp(dir=scratch)
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(work(d)).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    if status:
        raise SystemExit('session %s: status %d' % (name, status))
    return json.loads(data.decode())
