"""
A stand-in for MPI whose timing is chosen by the case.

Every rank runs in a thread or in a process of its own, and asks the
scheduler for each communication. Only one rank runs at a time; which one
goes on when several can is decided by the list of choices of the case, so a
run can be repeated. Messages are copied through pickle. Sends are either
buffered or wait for their receiver. A state in which no rank can go on, and
a message that is never received, are violations.
"""
import os
import pickle
import queue
import signal
import sys
import threading
import time
import traceback
import types

from .core import HarnessError, Violation, bad_result, touches_repo

ANY = -1
COLLECTIVES = ('barrier', 'bcast', 'scatter', 'gather', 'allgather')


class Stop(BaseException):
    """Ends a rank after another one failed."""


class Status(object):
    def __init__(self):
        self.source = ANY
        self.tag = ANY
        self.error = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Done(object):
    """A request of a communication that is already complete."""

    def __init__(self, value=None):
        self.value = value

    def wait(self, status=None):
        return self.value

    Wait = wait

    def test(self, status=None):
        return True, self.value


class Comm(object):
    """The communicator that the code under test sees."""

    name = 'MPI_COMM_WORLD'

    def __init__(self, size, call, rank=None):
        self._size = size
        self._call = call       # of (rank, request)
        self._rank = rank       # None: the rank of the running thread
        self._local = threading.local()

    def enter(self, rank):
        self._local.rank = rank

    @property
    def rank(self):
        return self._local.rank if self._rank is None else self._rank

    @property
    def size(self):
        return self._size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self._size

    def Get_name(self):
        return self.name

    def _ask(self, *request):
        return self._call(self.rank, request)

    def send(self, obj, dest, tag=0):
        self._ask('send', pickle.dumps(obj), dest, tag)

    def ssend(self, obj, dest, tag=0):
        self._ask('ssend', pickle.dumps(obj), dest, tag)

    def isend(self, obj, dest, tag=0):
        self._ask('isend', pickle.dumps(obj), dest, tag)
        return Done()

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        data, src, t = self._ask('recv', source, tag)
        if status is not None:
            status.source, status.tag = src, t
        return pickle.loads(data)

    def irecv(self, buf=None, source=ANY, tag=ANY):
        comm = self

        class Later(Done):
            def wait(self, status=None):
                if self.value is None:
                    self.value = (comm.recv(None, source, tag, status),)
                return self.value[0]
        return Later()

    def probe(self, source=ANY, tag=ANY, status=None):
        _, src, t = self._ask('probe', source, tag)
        if status is not None:
            status.source, status.tag = src, t
        return True

    def barrier(self):
        self._ask('barrier', None, 0)

    Barrier = barrier

    def bcast(self, obj, root=0):
        return pickle.loads(self._ask('bcast', pickle.dumps(obj), root))

    def scatter(self, sendobj, root=0):
        if self.rank == root and len(sendobj) != self._size:
            raise ValueError('scatter of %d items to %d processes'
                             % (len(sendobj), self._size))
        parts = None if self.rank != root else [pickle.dumps(x)
                                                for x in sendobj]
        return pickle.loads(self._ask('scatter', parts, root))

    def gather(self, sendobj, root=0):
        parts = self._ask('gather', pickle.dumps(sendobj), root)
        return None if parts is None else [pickle.loads(x) for x in parts]

    def allgather(self, sendobj):
        return [pickle.loads(x) for x in
                self._ask('allgather', pickle.dumps(sendobj), 0)]


def fake_mpi(comm):
    """What `from mpi4py import MPI` gives: (package, MPI)"""
    MPI = types.ModuleType('mpi4py.MPI')
    MPI.COMM_WORLD = comm
    MPI.Status = Status
    MPI.ANY_SOURCE = ANY
    MPI.ANY_TAG = ANY
    MPI.Init = MPI.Finalize = lambda: None
    MPI.Is_initialized = lambda: True
    MPI.Is_finalized = lambda: False
    package = types.ModuleType('mpi4py')
    package.MPI = MPI
    return package, MPI


class Scheduler(object):
    """Decides what happens with the requests of the ranks."""

    def __init__(self, size, choices, synchronous=False, max_steps=100000):
        self.size = size
        self.choices = choices or [0]
        self.used = 0
        self.synchronous = synchronous
        self.steps = 0
        self.max_steps = max_steps
        self.boxes = {}         # destination: [(source, tag, data, id)]
        self.next_id = 0
        self.received = set()
        self.entered = [0] * size
        self.collectives = []   # [{rank: (op, data, root)}]
        self.switches = 0
        self.last = None

    def choose(self, options):
        if len(options) == 1:
            return options[0]
        k = self.choices[self.used % len(self.choices)]
        self.used += 1
        return options[k % len(options)]

    def post(self, rank, request):
        """Effect of a request at the moment it is made."""
        op = request[0]
        if op in ('send', 'ssend', 'isend'):
            _, data, dest, tag = request
            if not 0 <= dest < self.size:
                raise Violation('rank %d sends to process %r of %d' % (
                    rank, dest, self.size))
            self.next_id += 1
            self.boxes.setdefault(dest, []).append(
                (rank, tag, data, self.next_id))
            return (op, self.next_id)
        if op in COLLECTIVES:
            k = self.entered[rank]
            self.entered[rank] += 1
            if k == len(self.collectives):
                self.collectives.append({})
            entry = self.collectives[k]
            for other in entry.values():
                if other[0] != op or other[2] != request[2]:
                    raise Violation('rank %d is in %s while others are in %s'
                                    % (rank, op, other[0]))
            entry[rank] = request
            return (op, k, request[2])
        return request

    def matches(self, rank, request):
        _, source, tag = request
        out, seen = [], set()
        for m in self.boxes.get(rank, []):
            if (source in (ANY, m[0])) and (tag in (ANY, m[1])):
                if m[0] not in seen:        # messages do not overtake
                    seen.add(m[0])
                    out.append(m)
        return out

    def ready(self, rank, request):
        op = request[0]
        if op == 'start' or op == 'isend':
            return True
        if op in ('send', 'ssend'):
            if op == 'ssend' or self.synchronous:
                return request[1] in self.received
            return True
        if op in ('recv', 'probe'):
            return bool(self.matches(rank, request))
        entry = self.collectives[request[1]]
        root = request[2]
        if self.synchronous or op in ('barrier', 'allgather') or (
                op == 'gather' and rank == root):
            return len(entry) == self.size
        if op == 'gather':
            return True
        return root in entry

    def complete(self, rank, request):
        """The answer to a request that is ready."""
        op = request[0]
        if op in ('recv', 'probe'):
            m = self.choose(self.matches(rank, request))
            if op == 'recv':
                self.boxes[rank].remove(m)
                self.received.add(m[3])
            return m[2], m[0], m[1]
        if op in COLLECTIVES:
            entry, root = self.collectives[request[1]], request[2]
            if op == 'bcast':
                return entry[root][1]
            if op == 'scatter':
                return entry[root][1][rank]
            if op == 'allgather' or (op == 'gather' and rank == root):
                return [entry[r][1] for r in range(self.size)]
        return None

    def run(self, answer, listen):
        """
        answer(rank, value) lets a rank go on, listen(rank) waits for its
        next request, or ('end',), or ('error', ...), which is returned.
        """
        pending = {r: ('start',) for r in range(self.size)}
        while pending:
            options = [r for r in sorted(pending)
                       if self.ready(r, pending[r])]
            if not options:
                raise Violation('processes wait for ever: ' + ', '.join(
                    '%d in %s' % (r, pending[r][0])
                    for r in sorted(pending)) + ' (of %d)' % self.size)
            self.steps += 1
            if self.steps > self.max_steps:
                raise Violation('no end after %d communications'
                                % self.max_steps)
            rank = self.choose(options)
            if rank != self.last:
                self.switches += 1
                self.last = rank
            answer(rank, self.complete(rank, pending.pop(rank)))
            request = listen(rank)
            if request[0] == 'error':
                return rank, request
            if request[0] != 'end':
                pending[rank] = self.post(rank, request)
        left = sum(len(b) for b in self.boxes.values())
        if left:
            raise Violation('%d messages are never received' % left)
        return None


def run_threads(size, function, choices, synchronous=False):
    """
    Run function(comm) as each of the ranks, each in a thread.
    Returns (the scheduler, the results)
    """
    scheduler = Scheduler(size, choices, synchronous)
    answers = [queue.Queue() for _ in range(size)]
    requests = [queue.Queue() for _ in range(size)]
    results = [None] * size

    def call(rank, request):
        requests[rank].put(request)
        kind, value = answers[rank].get()
        if kind == 'stop':
            raise Stop()
        return value

    comm = Comm(size, call)

    def body(rank):
        comm.enter(rank)
        try:
            if answers[rank].get()[0] == 'stop':
                return
            results[rank] = function(comm)
        except Stop:
            return
        except BaseException as exc:
            requests[rank].put(('error', exc))
            return
        requests[rank].put(('end',))

    threads = [threading.Thread(target=body, args=(r,), daemon=True)
               for r in range(size)]
    for t in threads:
        t.start()
    try:
        failed = scheduler.run(lambda r, v: answers[r].put(('go', v)),
                               lambda r: requests[r].get())
    finally:
        for r in range(size):
            answers[r].put(('stop', None))
        end = time.monotonic() + 20
        for t in threads:
            t.join(max(0, end - time.monotonic()))
    if failed is not None:
        raise failed[1][1]
    return scheduler, results


def run_processes(size, function, choices, synchronous=False):
    """
    Run function(comm) as each of the ranks, each in a forked process, with
    `mpi4py` replaced. Returns (the scheduler, the results)
    """
    from multiprocessing import Pipe
    scheduler = Scheduler(size, choices, synchronous)
    pipes = [Pipe() for _ in range(size)]
    pids = []
    results = [None] * size
    sys.stdout.flush()
    sys.stderr.flush()
    for rank in range(size):
        pid = os.fork()
        if pid == 0:
            _child(rank, size, function, pipes)
        pids.append(pid)
    for _, there in pipes:
        there.close()

    def listen(rank):
        try:
            request = pipes[rank][0].recv()
        except EOFError:
            return ('error', True, 'ended without a result')
        if request[0] == 'end':
            results[rank] = request[1]
        return request

    ended = False
    try:
        failed = scheduler.run(lambda r, v: pipes[r][0].send(('go', v)),
                               listen)
        ended = True
    finally:
        if not ended:
            for pid in pids:
                os.kill(pid, signal.SIGKILL)
        for here, _ in pipes:
            here.close()
        for pid in pids:
            # a rank that still waits gets an end of file, and ends
            os.waitpid(pid, 0)
    if failed is not None:
        rank, (_, ours, text) = failed
        if ours:
            raise Violation('process %d of %d: %s' % (rank, size, text))
        raise HarnessError('process %d of %d: %s' % (rank, size, text))
    return scheduler, results


def _child(rank, size, function, pipes):
    code = 0
    try:
        for i, (here, there) in enumerate(pipes):
            here.close()
            if i != rank:
                there.close()
        pipe = pipes[rank][1]

        def call(_, request):
            pipe.send(request)
            try:
                return pipe.recv()[1]
            except EOFError:
                os._exit(0)

        comm = Comm(size, call, rank)
        package, MPI = fake_mpi(comm)
        sys.modules['mpi4py'] = package
        sys.modules['mpi4py.MPI'] = MPI
        try:
            pipe.recv()
        except EOFError:
            os._exit(0)
        try:
            value = function(comm)
            pipe.send(('end', value))
        except (Exception, SystemExit) as exc:
            text = ''.join(traceback.format_exception_only(
                type(exc), exc)).strip()
            frames = traceback.extract_tb(exc.__traceback__)
            text += ' at %s:%s' % (frames[-1].filename, frames[-1].lineno)
            pipe.send(('error', isinstance(exc, Violation) or
                       touches_repo(exc) or bad_result(exc), text))
    except BaseException:
        traceback.print_exc()
        code = 1
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
