"""Systematic exploration of the schedules of several processes that share files.

Every actor is a forked process; the preload shim stops it before each of its calls on
files below the scratch directory.  explore() enumerates every schedule with at most
`bound` preemptions, by re-running the actors from the start for each of them.
"""
import os
import pickle
import select
import signal
import struct

from mc import fslog


class Actor(object):
    def __init__(self, body, prefix):
        ar, aw = os.pipe()
        br, bw = os.pipe()
        er, ew = os.pipe()
        self.pid = os.fork()
        if not self.pid:
            try:
                os.close(ar), os.close(bw), os.close(er)
                signal.alarm(60)
                # wait for the first turn
                os.write(aw, b'p')
                os.read(br, 1)
                fslog.start(prefix)
                fslog.sched(aw, br)

                def say(*event):
                    # the event happens while only this actor runs
                    data = pickle.dumps(event)
                    os.write(ew, struct.pack('<i', len(data)) + data)
                try:
                    kept = body(say)
                except BaseException as e:
                    say('died', '%s: %s' % (type(e).__name__, e))
                fslog.sched(-1, -1)
                os.write(aw, b'E')
                os.read(br, 1)      # (what it holds open stays open until the end)
            finally:
                os._exit(0)
        os.close(aw), os.close(br), os.close(ew)
        self.ctl, self.go, self.ev = ar, bw, er
        self.done = False
        self.blocked = self.stuck = False
        self.wait()

    def wait(self):
        if not select.select([self.ctl], [], [], 30)[0]:
            self.blocked = self.done = True
            return None
        op = os.read(self.ctl, 1)
        self.stuck = op == b'B'         # waits for what another one holds
        if op in (b'', b'E'):
            self.done = True
        return op

    def step(self):
        """let the pending call happen, and run up to the next one"""
        os.write(self.go, b'g')
        return self.wait()

    def events(self):
        out = []
        while select.select([self.ev], [], [], 0)[0]:
            head = os.read(self.ev, 4)
            if len(head) < 4:
                break
            n = struct.unpack('<i', head)[0]
            data = b''
            while len(data) < n:
                data += os.read(self.ev, n - len(data))
            out.append(pickle.loads(data))
        return out

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)
        for fd in (self.ctl, self.go, self.ev):
            os.close(fd)


def execute(bodies, prefix, schedule):
    """schedule: {step number: actor to switch to}, the first actor being schedule[0].
    Without an entry the current actor goes on until it is done.
    -> (events [(actor, event)], [(step, actor, others that could run)], blocked)"""
    actors = []
    try:
        for body in bodies:
            actors.append(Actor(body, prefix))
        events, trace = [], []
        cur = schedule.get(0, 0)
        n = 0
        while True:
            if n in schedule:
                cur = schedule[n]
            free = n in schedule or n == 0
            if actors[cur].done or actors[cur].stuck:
                rest = [i for i, a in enumerate(actors) if not a.done and not a.stuck]
                if not rest:
                    if any(a.stuck for a in actors):
                        return events, trace, True
                    break
                cur = rest[0]
                free = True
            trace.append((n, cur, [i for i, a in enumerate(actors) if not a.done and not a.stuck and i != cur], free))
            actors[cur].step()
            for i, a in enumerate(actors):
                if i != cur:
                    a.stuck = False
            events.extend((cur, e) for e in actors[cur].events())
            n += 1
            if n > 100000:
                break
        return events, trace, any(a.blocked for a in actors) or n > 100000
    finally:
        for a in actors:
            a.kill()


def explore(bodies, prefix, reset, bound, first, on_run, part=0, parts=1):
    """Run every schedule that starts with actor `first` and has at most `bound` preemptions."""
    todo = [({0: first}, 0)]
    runs = 0
    while todo:
        schedule, used = todo.pop()
        reset()
        events, trace, blocked = execute(bodies, prefix, schedule)
        runs += 1
        on_run(schedule, events, blocked, len(trace))
        if used < bound:
            last = max(schedule)
            for n, cur, others, free in trace:
                if n <= last:
                    continue
                if used == 0 and n % parts != part:
                    continue
                for i in others:
                    todo.append((dict(schedule, **{}), used + 1))
                    todo[-1][0][n] = i
    return runs
