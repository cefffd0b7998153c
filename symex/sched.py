"""Threads, queues, events and sockets under a scheduler whose choices are
made by the scenario (symbolic variables): every interleaving of the steps of
the threads is a path.

Exactly one thread runs at a time.  Before each operation on a shared object
a thread hands over to the scheduler, which picks the thread to continue; the
operation itself is one atomic step.  Interleavings which differ only in the
order of steps on different objects are explored once (sleep sets).  The same
models run in the symbolic world and when a schedule is replayed."""
import collections
import threading as _th
import types

_current = None


class Kill(BaseException):
    """ends a thread which is left over at the end of a path"""


class Deadlock(Exception):
    pass


class Stuck(Exception):
    """an operation which can never complete (outside of schedules)"""


class Task:
    def __init__(self, name):
        self.name = name
        self.baton = _th.Semaphore(0)
        self.op = None               # pending operation
        self.done = False
        self.exc = None
        self.timed_out_at = -1
        self.own = 0                 # changes made by this thread
        self.killed = False


class Op:
    def __init__(self, objs, ready=None, timeout=False, label=''):
        self.objs = frozenset(id(o) for o in objs)
        self.ready = ready or (lambda: True)
        self.timeout = timeout
        self.label = label


class Scheduler:
    def __init__(self, choose, max_steps=200, reduce=True):
        self.choose = choose          # choose(name, options) -> option
        self.main = Task('main')
        self.tasks = [self.main]
        self.running = self.main
        self.version = 0              # counts changes of shared state
        self.steps = 0
        self.max_steps = max_steps
        self.sleep = set()
        self.fatal = None
        self.reduce = reduce
        self.log = []
        self.keep = []                # keeps objects alive: ids stay unique

    # -- running
    def __enter__(self):
        global _current
        self._prev, _current = _current, self
        return self

    def __exit__(self, *exc):
        global _current
        try:
            self.finish()
        finally:
            _current = self._prev
        return False

    def me(self):
        return self.running

    def enabled(self, t):
        op = t.op
        if t.done or op is None:
            return False
        if op.ready():
            return True
        # a time-out only makes sense if something has changed meanwhile
        return op.timeout and t.timed_out_at != self.version - t.own

    def step(self, objs, ready=None, timeout=False, label=''):
        """called by the running thread before an operation;
        -> True if the operation can be done, False if it timed out"""
        me = self.running
        if me.killed:
            raise Kill()
        me.op = Op(objs, ready, timeout, label)
        self.keep.extend(objs)
        self.switch()
        if me.killed:
            raise Kill()
        op, me.op = me.op, None
        if op.ready():
            self.log.append((me.name, label))
            return True
        me.timed_out_at = self.version - me.own
        self.log.append((me.name, label + ' timed out'))
        return False

    def changed(self):
        self.version += 1
        self.running.own += 1

    def pick(self):
        en = [t for t in self.tasks if self.enabled(t)]
        if not en:
            return None
        self.steps += 1
        if self.steps > self.max_steps:
            from .engine import Unsupported
            raise Unsupported("more than %d steps" % self.max_steps)
        awake = [t for t in en if t not in self.sleep] if self.reduce else en
        if not awake:
            # every continuation was explored in another order
            raise Redundant()
        t = awake[0] if len(awake) == 1 else self.choose('step%d' % self.steps, awake)
        if self.reduce:
            before = set(self.sleep)
            for o in awake:
                if o is t:
                    break
                before.add(o)
            self.sleep = {o for o in before if o is not t and o.op is not None
                          and not (o.op.objs & t.op.objs) and not o.op.timeout and not t.op.timeout}
        return t

    def switch(self):
        """hand over to the next thread (the caller waits until it is picked)"""
        me = self.running
        try:
            t = self.pick()
        except BaseException as e:
            self.fail(e, me)
            return
        if t is me:
            return
        if t is None:
            # nobody can go on
            if me is self.main:
                raise Deadlock(self.describe())
            # let the main thread find out
            self.main.deadlock = True
            t = self.main
        self.running = t
        t.baton.release()
        if me.done:
            return
        me.baton.acquire()
        if me is self.main:
            self.after_wait()

    def after_wait(self):
        self.running = self.main
        if self.fatal is not None:
            e, self.fatal = self.fatal, None
            raise e
        if getattr(self.main, 'deadlock', False):
            self.main.deadlock = False
            raise Deadlock(self.describe())

    def fail(self, e, me):
        if me is self.main:
            raise e
        self.fatal = e
        self.running = self.main
        self.main.baton.release()
        if not me.done:
            me.baton.acquire()       # will be killed
            raise Kill()

    def spawn(self, name, fn):
        t = Task(name)
        t.op = Op([t], label='begin')
        self.keep.append(t)
        self.tasks.append(t)

        def body():
            t.baton.acquire()
            if not t.killed:
                t.op = None
                try:
                    fn()
                except Kill:
                    pass
                except Exception as e:
                    t.exc = e
                except BaseException as e:     # signals of the engine
                    t.done = True
                    if not t.killed:
                        self.fail(e, t)
                    return
            t.done = True
            self.version += 1
            if not t.killed:
                self.switch()
        t.thread = _th.Thread(target=body, daemon=True)
        t.thread.start()
        return t

    def run_others(self):
        """main waits until no other thread can go on"""
        self.main.op = Op([], ready=lambda: not any(
            self.enabled(t) for t in self.tasks if t is not self.main), label='wait for all')
        self.switch()
        self.main.op = None

    def describe(self):
        return 'waiting: ' + ', '.join('%s in %s' % (t.name, t.op.label) for t in self.tasks
                                       if not t.done and t.op is not None)

    def finish(self):
        for t in self.tasks[1:]:
            t.killed = True
        for t in self.tasks[1:]:
            if not t.done:
                self.running = t
                t.baton.release()
                t.thread.join(10)
        self.running = self.main


class Redundant(BaseException):
    """this schedule is equivalent to another one"""


def sched():
    return _current


def changed():
    if _current is not None:
        _current.changed()


def step(objs, ready=None, timeout=False, label=''):
    s = _current
    if s is None:
        # no schedule: operations must be possible right away
        if ready is not None and not ready():
            if timeout:
                return False
            raise Stuck(label)
        return True
    return s.step(objs, ready, timeout, label)


# ------------------------------------------------------------------ threading
class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or 'Thread'
        self.daemon = bool(daemon)
        self._task = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._task is not None:
            raise RuntimeError("threads can only be started once")
        if _current is None:
            raise Stuck("thread started outside of a schedule")
        self._task = _current.spawn(self.name, self.run)

    def join(self, timeout=None):
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        step([self._task], lambda: self._task.done, timeout is not None, 'join')

    def is_alive(self):
        return self._task is not None and not self._task.done

    def setDaemon(self, d):
        self.daemon = d

    @property
    def ident(self):
        return id(self)


class Event:
    def __init__(self):
        self._flag = False

    def is_set(self):
        step([self], label='is_set')
        return self._flag

    isSet = is_set

    def set(self):
        step([self], label='set')
        self._flag = True
        changed()

    def clear(self):
        step([self], label='clear')
        self._flag = False
        changed()

    def wait(self, timeout=None):
        return step([self], lambda: self._flag, timeout is not None, 'wait')


class Lock:
    _re = False

    def __init__(self):
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _current.me() if _current else 'main'
        free = lambda: self.owner is None or (self._re and self.owner is me)
        if not blocking:
            step([self], label='acquire')
            if not free():
                return False
        elif not step([self], free, timeout >= 0, 'acquire'):
            return False
        self.owner = me
        self.n += 1
        changed()
        return True

    def release(self):
        step([self], label='release')
        self.n -= 1
        changed()
        if not self.n:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    _re = True


# ---------------------------------------------------------------------- queue
class Empty(Exception):
    pass


class Full(Exception):
    pass


class Queue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self._q = collections.deque()
        self._unfinished = 0

    def _full(self):
        return 0 < self.maxsize <= len(self._q)

    def put(self, item, block=True, timeout=None):
        if block:
            if not step([self], lambda: not self._full(), timeout is not None, 'put'):
                raise Full
        else:
            step([self], label='put')
            if self._full():
                raise Full
        self._q.append(item)
        changed()
        self._unfinished += 1

    def get(self, block=True, timeout=None):
        if block:
            if not step([self], lambda: bool(self._q), timeout is not None, 'get'):
                raise Empty
        else:
            step([self], label='get')
            if not self._q:
                raise Empty
        changed()
        return self._take()

    def _take(self):
        return self._q.popleft()

    def put_nowait(self, item):
        self.put(item, False)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        step([self], label='empty')
        return not self._q

    def full(self):
        step([self], label='full')
        return self._full()

    def qsize(self):
        step([self], label='qsize')
        return len(self._q)

    def task_done(self):
        step([self], label='task_done')
        if self._unfinished <= 0:
            raise ValueError('task_done() called too many times')
        self._unfinished -= 1
        changed()

    def join(self):
        step([self], lambda: self._unfinished == 0, label='join queue')


class LifoQueue(Queue):
    def _take(self):
        return self._q.pop()


class SimpleQueue(Queue):
    def __init__(self):
        super().__init__(0)


# ------------------------------------------------------------------------ zmq
class ZMQError(Exception):
    pass


class Again(ZMQError):
    pass


class Network:
    """endpoints by port"""
    def __init__(self):
        self.bound = {}
        self.waiting = collections.deque()     # (port, client, parts) before bind
        self.sent = []                         # (client, parts) in the order they were sent


class Client:
    """a REQ client"""
    def __init__(self, net, port, name):
        self.net, self.port, self.name = net, port, name
        self.inbox = collections.deque()

    def request(self, *parts):
        """send a request (arrives at once)"""
        step([self.net], label='request')
        self.net.waiting.append((self.port, self, list(parts)))
        changed()

    def reply(self):
        """wait for the reply"""
        step([self, self.net], lambda: bool(self.inbox), label='wait for reply')
        changed()
        return self.inbox.popleft()


class Socket:
    LINGER_DEFAULT = -1

    def __init__(self, ctx, kind):
        if kind != zmq_mod.REP:
            from .engine import Unsupported
            raise Unsupported("zmq socket type")
        self.ctx = ctx
        self.net = network()
        self.port = None
        self.state = 'recv'
        self.client = None
        self.linger = self.LINGER_DEFAULT
        self.closed = False
        self.replied = []

    def bind(self, addr):
        self._open()
        step([self.net], label='bind')
        self.port = str(addr).rsplit(':', 1)[1]
        if self.port in self.net.bound:
            raise ZMQError("Address already in use")
        self.net.bound[self.port] = self
        changed()

    def _open(self):
        if self.closed:
            raise ZMQError("Socket operation on non-socket")

    def _next(self):
        for i, (port, client, parts) in enumerate(self.net.waiting):
            if port == self.port:
                return i
        return None

    def poll(self, timeout=None, flags=1):
        self._open()
        if timeout is not None and timeout == 0:
            step([self.net], label='poll')
            return 1 if self._next() is not None and self.state == 'recv' else 0
        ok = step([self.net], lambda: self._next() is not None and self.state == 'recv',
                  timeout is not None and timeout >= 0, 'poll')
        return 1 if ok else 0

    def recv_multipart(self, flags=0, **kw):
        self._open()
        if self.state != 'recv':
            raise ZMQError("Operation cannot be accomplished in current state")
        if flags & 1:
            step([self.net], label='recv')
            if self._next() is None:
                raise Again()
        elif not step([self.net], lambda: self._next() is not None, getattr(self, 'rcvtimeo', -1) >= 0, 'recv'):
            raise Again()
        i = self._next()
        port, self.client, parts = self.net.waiting[i]
        del self.net.waiting[i]
        changed()
        self.state = 'send'
        return parts

    def recv(self, flags=0, **kw):
        parts = self.recv_multipart(flags)
        if len(parts) > 1:
            from .engine import Unsupported
            raise Unsupported("part of a message")
        return parts[0]

    def recv_string(self, flags=0):
        return self.recv(flags).decode()

    def send_multipart(self, parts, flags=0, copy=True, **kw):
        self._open()
        if self.state != 'send':
            raise ZMQError("Operation cannot be accomplished in current state")
        parts = list(parts)
        for p in parts:
            if isinstance(p, str) or p is None or isinstance(p, int):
                raise TypeError("not a message part: %r" % (p,))
        step([self.net, self.client], label='send')
        self.state = 'recv'
        self.net.sent.append((self.client, parts))
        changed()
        self.replied.append(self.client)
        self.client.inbox.append(parts)

    def send(self, data, flags=0, **kw):
        self.send_multipart([data])

    def setsockopt(self, opt, val):
        self._open()
        if opt == zmq_mod.LINGER:
            self.linger = val
        elif opt == zmq_mod.RCVTIMEO:
            self.rcvtimeo = val

    set = setsockopt

    def close(self, linger=None):
        if self.closed:
            return
        if linger is not None:
            self.linger = linger
        step([self.net] + list(self.replied), label='close')
        self.closed = True
        self.net.bound.pop(self.port, None)
        changed()
        if self.linger == 0:
            # what a client has not received yet may be dropped
            for c in self.replied:
                c.inbox.clear()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __setattr__(self, k, v):
        if k == 'linger' and not isinstance(v, int):
            raise TypeError(v)
        object.__setattr__(self, k, v)

    LINGER = property(lambda self: self.linger, lambda self, v: setattr(self, 'linger', v))


class Context:
    closed = False

    def __init__(self, *a, **k):
        pass

    @classmethod
    def instance(cls):
        return cls()

    def socket(self, kind, **k):
        return Socket(self, kind)

    def term(self):
        pass

    def destroy(self, linger=None):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Poller:
    def __init__(self):
        self.socks = []

    def register(self, s, flags=3):
        self.socks.append(s)

    def poll(self, timeout=None):
        if len(self.socks) != 1:
            from .engine import Unsupported
            raise Unsupported("polling several sockets")
        s = self.socks[0]
        return [(s, 1)] if s.poll(timeout) else []


_net = [None]


def network():
    s = _current
    if s is None:
        return Network()
    if not hasattr(s, 'net'):
        s.net = Network()
    return s.net


def _zmq():
    z = types.ModuleType('zmq')
    z.REQ, z.REP, z.PUB, z.SUB, z.PAIR, z.LINGER, z.RCVTIMEO, z.NOBLOCK, z.DONTWAIT, z.POLLIN, z.POLLOUT, \
        z.SNDMORE, z.SNDHWM = 3, 4, 1, 2, 0, 17, 27, 1, 1, 1, 2, 2, 23
    z.Context, z.Poller, z.ZMQError, z.Again = Context, Poller, ZMQError, Again
    z.error = types.SimpleNamespace(ZMQError=ZMQError, Again=Again)
    z.Socket = Socket
    return z


zmq_mod = _zmq()


def _sleep(s):
    if _current is not None:
        _current.step([_current], lambda: False, True, 'sleep')


def modules(clock=None):
    import time
    t = types.ModuleType('threading')
    t.Thread, t.Event, t.Lock, t.RLock = Thread, Event, Lock, RLock
    t.current_thread = lambda: types.SimpleNamespace(name='thread')
    q = types.ModuleType('queue')
    q.Queue, q.LifoQueue, q.SimpleQueue, q.Empty, q.Full = Queue, LifoQueue, SimpleQueue, Empty, Full
    tm = types.ModuleType('time')
    tm.time = clock or (lambda: 1500000000.25)
    tm.time_ns = lambda: int(tm.time() * 10 ** 9)
    tm.monotonic = tm.perf_counter = lambda: 1000.0
    tm.sleep = _sleep
    for n in ('strftime', 'gmtime', 'localtime', 'ctime', 'mktime'):
        setattr(tm, n, getattr(time, n))
    return {'threading': t, 'queue': q, 'zmq': zmq_mod, 'time': tm}
