"""
A communicator over threads: every rank of a parallel run is a thread with
its own objects. Collectives must be entered by all ranks with the same
operation; a rank that ends or waits for another operation is a deadlock.
"""
import contextlib
import os
import pickle
import sys
import threading

import numpy as np


class Deadlock(BaseException):
    pass


class Aborted(BaseException):
    """Another rank failed (as MPI_Abort would end all of them)."""


class World:
    def __init__(self, size):
        self.size = size
        self.cond = threading.Condition()
        self.gen = 0
        self.arrived = {}
        self.result = None
        self.finished = set()
        self.dead = None
        self.calls = 0
        self.ops = [[] for _ in range(size)]

    def collective(self, rank, op, value, combine):
        with self.cond:
            if self.dead:
                raise self.dead
            self.calls += 1
            gen = self.gen
            self.arrived[rank] = (op, value)
            ops = {o for o, _ in self.arrived.values()}
            if len(ops) > 1 or (
                    self.finished and len(self.arrived) + len(
                        self.finished) >= self.size):
                self.dead = Deadlock('%s / finished: %s' % (
                    sorted(ops), sorted(self.finished)))
                self.cond.notify_all()
                raise self.dead
            if len(self.arrived) == self.size:
                try:
                    self.result = combine(
                        [self.arrived[r][1] for r in range(self.size)])
                except BaseException as e:
                    self.dead = e
                    self.cond.notify_all()
                    raise
                self.arrived = {}
                self.gen += 1
                self.cond.notify_all()
                return self.result
            while self.gen == gen and not self.dead:
                self.cond.wait(60)
            if self.gen == gen:
                raise self.dead
            return self.result

    def end(self, rank, exc):
        with self.cond:
            self.finished.add(rank)
            if exc is not None and not self.dead:
                self.dead = Aborted(repr(exc))
            if self.arrived and not self.dead and \
                    len(self.arrived) + len(self.finished) >= self.size:
                self.dead = Deadlock('rank %d ended, others wait for %s' % (
                    rank, sorted({o for o, _ in self.arrived.values()})))
            self.cond.notify_all()


_local = threading.local()
LAST = None

# -- which rank opens which file in which epoch ---------------------------
# The epoch of a rank is the number of collectives it has gone through: two
# accesses of different ranks in one epoch are not ordered.
_rec = {'root': None, 'log': None}
_hooked = []


def _note(path, write):
    root, log = _rec['root'], _rec['log']
    w = getattr(_local, 'world', None)
    if log is None or w is None:
        return
    path = os.path.abspath(os.fsdecode(path))
    if not path.startswith(root + os.sep):
        return
    path = path[len(root) + 1:]
    if path.startswith('log' + os.sep):
        return
    log.append([_local.rank, _local.epoch, path, bool(write)])


def _audit(event, args):
    if event == 'open' and _rec['log'] is not None:
        path, mode, flags = args
        if isinstance(path, (str, bytes, os.PathLike)):
            wr = any(c in (mode or '') for c in 'wax+') or bool(
                (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            try:
                _note(path, wr)
            except (TypeError, ValueError):
                pass


@contextlib.contextmanager
def accesses(root, log):
    """Record [rank, epoch, file, write] below root in the list log."""
    if log is None:
        yield
        return
    import h5py
    if not _hooked:
        _hooked.append(1)
        sys.addaudithook(_audit)
    init0 = h5py.File.__init__

    def init(self_, name, mode='r', *a, **k):
        try:
            _note(name, mode != 'r')
        except TypeError:
            pass
        return init0(self_, name, mode, *a, **k)
    _rec.update(root=os.path.abspath(root), log=log)
    h5py.File.__init__ = init
    try:
        yield
    finally:
        h5py.File.__init__ = init0
        _rec.update(root=None, log=None)


class Comm:
    """Delegates to the world and rank of the calling thread."""

    def Get_size(self):
        return getattr(_local, 'world', None) and _local.world.size or 1

    def Get_rank(self):
        return getattr(_local, 'rank', 0)

    @property
    def size(self):
        return self.Get_size()

    @property
    def rank(self):
        return self.Get_rank()

    def _coll(self, op, value, combine):
        w = getattr(_local, 'world', None)
        if w is None:
            return combine([value])
        try:
            r = w.collective(_local.rank, op, value, combine)
        finally:
            _local.epoch += 1
            w.ops[_local.rank].append(op)
        return r

    def bcast(self, obj, root=0):
        r = self._coll('bcast%d' % root, obj if self.Get_rank() == root
                       else None, lambda v: pickle.dumps(v[root]))
        return pickle.loads(r)

    def allgather(self, obj):
        r = self._coll('allgather', pickle.dumps(obj), list)
        return [pickle.loads(x) for x in r]

    def gather(self, obj, root=0):
        r = self._coll('gather%d' % root, pickle.dumps(obj), list)
        return [pickle.loads(x) for x in r] if self.Get_rank() == root \
            else None

    def scatter(self, obj, root=0):
        r = self._coll('scatter%d' % root, pickle.dumps(obj),
                       lambda v: v[root])
        return pickle.loads(r)[self.Get_rank()]

    def barrier(self):
        self._coll('barrier', None, lambda v: None)
    Barrier = barrier

    def allreduce(self, obj, op=None):
        r = self._coll('allreduce', pickle.dumps(obj), list)
        v = [pickle.loads(x) for x in r]
        return _reduce(v, op)

    def Allreduce(self, send, recv, op=None):
        buf = recv[0] if isinstance(recv, (list, tuple)) else recv
        if isinstance(send, str) and send == 'IN_PLACE':
            mine = buf
        else:
            mine = send[0] if isinstance(send, (list, tuple)) else send

        def comb(v):
            if len({(x.shape, x.dtype.str) for x in v}) > 1:
                raise Deadlock('Allreduce of different buffers: %s' % [
                    (x.shape, x.dtype.str) for x in v])
            return _reduce(v, op)
        r = self._coll('Allreduce', np.array(mine, copy=True), comb)
        buf[...] = r


def _reduce(v, op):
    r = v[0]
    for x in v[1:]:
        if op in (None, 'SUM'):
            r = r + x
        elif op == 'MAX':
            r = np.maximum(r, x)
        elif op == 'MIN':
            r = np.minimum(r, x)
        else:
            raise NotImplementedError(str(op))
    return r


class MPI:
    """Stands in for mpi4py.MPI."""
    COMM_WORLD = Comm()
    IN_PLACE = 'IN_PLACE'
    SUM, MAX, MIN = 'SUM', 'MAX', 'MIN'
    FLOAT = DOUBLE = INT = None


def run(size, fn, timeout=120):
    """
    Run fn(rank) on `size` ranks. Returns (results, error) where error is
    None or (kind, text) with kind 'deadlock' or the name of an exception.
    """
    global LAST
    LAST = world = World(size)
    res, err = [None] * size, [None] * size

    def body(rank):
        _local.world, _local.rank, _local.epoch = world, rank, 0
        exc = None
        try:
            res[rank] = fn(rank)
        except BaseException as e:
            exc = err[rank] = e
        finally:
            world.end(rank, exc)
            _local.world = None
    ths = [threading.Thread(target=body, args=(r,), daemon=True)
           for r in range(size)]
    for t in ths:
        t.start()
    for t in ths:
        t.join(timeout)
    if any(t.is_alive() for t in ths):
        with world.cond:
            world.dead = Deadlock('timeout')
            world.cond.notify_all()
        for t in ths:
            t.join(5)
        return res, ('deadlock', 'timeout')
    for e in err:
        if isinstance(e, Deadlock):
            return res, ('deadlock', str(e))
    for e in err:
        if e is not None and not isinstance(e, Aborted):
            return res, (type(e).__name__, str(e)[:300])
    for e in err:
        if e is not None:
            return res, (type(e).__name__, str(e)[:300])
    return res, None
