"""Clients that connect to an empty database at the same time.

Every client runs in its own thread, which goes on for one request (connect, load, allocate
oids, commit) each time the schedule names it.  So a schedule decides the order of all requests.
"""
import itertools
import threading

from mc import netlib, storages

MAX_ROUNDS = 60


class Dead(BaseException):
    pass


class Client(object):
    def __init__(self, net, number, root_class=None):
        self.net = net
        self.number = number
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.done = False
        self.dead = False
        self.error = None
        self.conn = None
        self.conflicts = 0
        self.storage = None
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()

    # in the thread
    def pause(self):
        self.back.release()
        self.go.acquire()
        if self.dead:
            raise Dead()

    def main(self):
        self.go.acquire()
        try:
            if not self.dead:
                self.work()
        except Dead:
            pass
        except BaseException as e:
            self.error = e
        self.done = True
        self.back.release()

    def work(self):
        from durus.connection import Connection
        from durus.error import ConflictError
        self.storage = s = self.net.client()
        for name in ('load', 'new_oid', 'end'):
            def request(*args, real=getattr(s, name), **kw):
                self.pause()
                return real(*args, **kw)
            setattr(s, name, request)
        while self.conn is None:
            try:
                self.conn = Connection(s)
            except ConflictError:
                self.conflicts += 1
        while True:
            try:
                root = self.conn.get_root()
                root[self.number] = self.number
                self.conn.commit()
                return
            except ConflictError:
                self.conflicts += 1
                self.conn.abort()

    # by the scheduler
    def step(self):
        self.go.release()
        self.back.acquire()

    def die(self):
        """break the connection, and forget about this client"""
        self.dead = True
        if not self.done:
            self.step()
        if self.storage is not None:
            self.storage.s.close()
        self.net.run()


def schedules(nclients, depth, deaths):
    """all orders of steps of the clients, with at most `deaths` clients that die"""
    for s in itertools.product(range(nclients), repeat=depth):
        if s and s[0] == 0:     # the clients are interchangeable
            yield s
            if deaths:
                for i in range(1, depth + 1):
                    for c in range(nclients):
                        if c not in s[i:]:
                            yield s[:i] + (('D', c),) + s[i:]


def play(ctx, kind, d, nclients, schedule):
    from durus.connection import Connection
    st = storages.open_storage(kind, d)
    net = netlib.Net(st)
    what = (kind, nclients, schedule)
    clients = []
    try:
        clients = [Client(net, i) for i in range(nclients)]
        for c in schedule:
            if type(c) is tuple:
                clients[c[1]].die()
            elif not clients[c].done:
                clients[c].step()
            net.check_alive()
        rounds = 0
        while not all(c.done for c in clients):
            rounds += 1
            ctx.check(rounds < MAX_ROUNDS, '%r: the clients never get a root', what)
            if rounds >= MAX_ROUNDS:
                return
            for c in clients:
                if not c.done:
                    c.step()
        net.check_alive()
        for c in clients:
            ctx.check(c.error is None, '%r: client %s gets %r instead of the root or a conflict',
                      what, c.number, c.error)
        alive = [c for c in clients if not c.dead]
        if any(c.error for c in clients):
            return
        conn = Connection(net.client())
        got = dict(conn.get_root())
        want = dict((c.number, c.number) for c in alive)
        extra = dict((k, v) for k, v in got.items() if k not in want)
        ctx.check(all(v == k and clients[k].dead for k, v in extra.items()), '%r: the root has %r', what, got)
        ctx.eq(dict((k, v) for k, v in got.items() if k in want), want,
               '%r: what the clients stored in the root' % (what,))
        for c in alive:
            c.storage.__dict__.pop('load', None)
            c.storage.__dict__.pop('end', None)
            c.storage.__dict__.pop('new_oid', None)
            c.conn.abort()
            ctx.eq(dict(c.conn.get_root()), got, '%r: the root of client %s' % (what, c.number))
            ctx.check(c.conn.get_root()._p_oid == b'\0' * 8, '%r: the oid of the root', what)
        # everybody gets fresh oids
        seen = set(o for o, r in st.gen_oid_record())
        for c in alive:
            for i in range(3):
                oid = c.storage.new_oid()
                ctx.check(oid not in seen, '%r: oid %r twice', what, oid)
                seen.add(oid)
        ctx.outcome(tuple(min(c.conflicts, 2) for c in alive))
    finally:
        for c in clients:
            if not c.done:
                c.dead = True
                c.step()
            c.thread.join()
        net.kill()
        st.close()
