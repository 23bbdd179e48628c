"""A stand-in for mpi4py: runs a function in N forked processes that talk over pipes.
`run(n, func)` returns the list of the n results; an exception or a deadlock (timeout) gives an Error string."""
import functools
import multiprocessing as mp
import operator
import os
import pickle
import shutil
import sys
import tempfile
import time
import traceback
import types
import warnings

TIMEOUT = 60


class Comm:
    def __init__(self, rank, size, pipes, scratch):
        self.rank, self.size, self.pipes, self.scratch = rank, size, pipes, scratch
        self.queue = {}
        self.count = 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def send(self, obj, dest, tag=0):
        self.pipes[self.rank][dest].send((tag, pickle.dumps(obj)))

    def recv(self, source, tag=0):
        q = self.queue.setdefault((source, tag), [])
        t = time.time()
        while not q:
            c = self.pipes[self.rank][source]
            if not c.poll(TIMEOUT):
                raise RuntimeError("deadlock: rank %d waits for rank %d tag %r" % (self.rank, source, tag))
            tg, data = c.recv()
            self.queue.setdefault((source, tg), []).append(data)
        return pickle.loads(q.pop(0))

    def _exchange(self, kind, obj):
        self.count += 1
        tag = ("coll", self.count)
        if self.rank == 0:
            vals = [(kind, obj)] + [self.recv(r, tag) for r in range(1, self.size)]
            for r in range(1, self.size):
                self.send(vals, r, tag)
        else:
            self.send((kind, obj), 0, tag)
            vals = self.recv(0, tag)
        if len({k for k, _ in vals}) != 1:
            raise RuntimeError("mismatched collectives: %r" % [k for k, _ in vals])
        return [v for _, v in vals]

    def allreduce(self, x, op=None):
        vals = self._exchange("allreduce", x)
        return functools.reduce(op or operator.add, vals)

    def reduce(self, x, op=None, root=0):
        vals = self._exchange("reduce", x)
        return functools.reduce(op or operator.add, vals) if self.rank == root else None

    def bcast(self, x, root=0):
        return self._exchange("bcast", x)[root]

    def Bcast(self, x, root=0):
        x[...] = self._exchange("Bcast", x)[root]

    def allgather(self, x):
        return self._exchange("allgather", x)

    def gather(self, x, root=0):
        v = self._exchange("gather", x)
        return v if self.rank == root else None

    def Barrier(self):
        self._exchange("barrier", None)

    barrier = Barrier


class Win:
    n = 0

    def __init__(self, comm, size):
        Win.n += 1
        self.comm, self.id = comm, Win.n
        self.path = os.path.join(comm.scratch, "w%d_" % self.id)
        with open(self.path + str(comm.rank), "wb") as f:
            f.write(b"\0" * size)
        comm.Barrier()

    @staticmethod
    def Allocate(size, comm=None):
        return Win(comm, size)

    def Lock(self, r, **kw):
        pass

    def Unlock(self, r, **kw):
        pass

    def Put(self, data, target_rank=0):
        with open(self.path + str(target_rank), "wb") as f:
            f.write(data.tobytes())

    def Get(self, buf, target_rank=0):
        import numpy as np
        with open(self.path + str(target_rank), "rb") as f:
            buf[...] = np.frombuffer(f.read(), dtype=buf.dtype).reshape(buf.shape)

    def Free(self):
        self.comm.Barrier()


def _child(rank, n, pipes, scratch, func, out):
    try:
        os.environ["OMP_NUM_THREADS"] = "1"
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        os.chdir(scratch)
        warnings.simplefilter("ignore")
        sys.argv = ["demo"]
        comm = Comm(rank, n, pipes, scratch)
        m = types.ModuleType("mpi4py")
        m.rc = types.SimpleNamespace(threads=False)
        MPI = types.ModuleType("mpi4py.MPI")
        MPI.COMM_WORLD = comm
        MPI.Wtime = time.time
        MPI.Win = Win
        MPI.LOCK_SHARED = 1
        MPI.SUM = operator.add
        MPI.PROD = operator.mul
        MPI.LAND = lambda a, b: bool(a) and bool(b)
        MPI.LOR = lambda a, b: bool(a) or bool(b)
        MPI.MAX, MPI.MIN = max, min
        m.MPI = MPI
        m.__version__, m.__file__ = "0", __file__
        sys.modules["mpi4py"] = m
        sys.modules["mpi4py.MPI"] = MPI
        res = func(rank, n)
        out.send(("ok", res))
    except BaseException:
        out.send(("error", traceback.format_exc()))
    finally:
        os._exit(0)


def run(n, func, timeout=240):
    ctx = mp.get_context("fork")
    scratch = tempfile.mkdtemp(prefix="fakempi_")
    try:
        pipes = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                a, b = ctx.Pipe()
                pipes[i][j], pipes[j][i] = a, b
        procs, outs = [], []
        for r in range(n):
            a, b = ctx.Pipe()
            p = ctx.Process(target=_child, args=(r, n, pipes, scratch, func, b))
            p.start()
            procs.append(p)
            outs.append(a)
        res = []
        t0 = time.time()
        for a, p in zip(outs, procs):
            left = max(0.1, timeout - (time.time() - t0))
            res.append(a.recv() if a.poll(left) else ("error", "timeout"))
        for p in procs:
            if p.is_alive():
                p.terminate()
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
