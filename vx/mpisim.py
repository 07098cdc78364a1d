"""A simulated MPI communicator.

Ranks are threads run one at a time; a rank runs until it reaches a collective
call and waits there.  Collectives are the only interaction between ranks, so
every real schedule is equivalent to the one simulated.  The library's rules
are enforced: every rank must enter the same collective with the same root,
buffers must be contiguous, of the declared element type and of matching
size."""
import copy
import sys
import threading

import numpy as np

from .core import Unsupported


class MPIError(Exception):
    pass


class _Abort(BaseException):
    pass


class Type:
    def __init__(self, name, dt):
        self.name, self.dt = name, None if dt is None else np.dtype(dt)

    def __repr__(self):
        return 'MPI.' + self.name

    def Get_size(self):
        return self.dt.itemsize

    size = property(Get_size)


TYPES = dict(FLOAT=np.float32, DOUBLE=np.float64, LONG=int, INT=np.intc,
             BOOL=bool, C_BOOL=bool, INT64_T=np.int64, INT32_T=np.int32,
             BYTE=None, SHORT=np.int16, LONG_LONG=np.int64,
             UNSIGNED_LONG=np.uint64, UNSIGNED=np.uint32,
             CHAR=np.int8, UINT8_T=np.uint8, INT8_T=np.int8,
             DOUBLE_COMPLEX=np.complex128, COMPLEX=np.complex64)


class _Op:
    def __init__(self, name):
        self.name = name


class _MPI:
    """The names of mpi4py.MPI used by callers."""

    def __init__(self, sim):
        self._sim = sim
        for k, v in TYPES.items():
            setattr(self, k, Type(k, v))
        for k in ('SUM', 'MAX', 'MIN', 'PROD', 'LOR', 'LAND'):
            setattr(self, k, _Op(k))
        self.Comm = Comm
        self.Intracomm = Comm

    @property
    def COMM_WORLD(self):
        return self._sim.comm()

    def __getattr__(self, n):
        raise Unsupported('MPI.' + n)


class Sim:
    def __init__(self, size):
        self.size = size
        self.MPI = _MPI(self)
        self.local = threading.local()
        self.comms = [Comm(self, r) for r in range(size)]
        self.ncoll = 0

    def stubs(self):
        m = type(sys)('mpi4py')
        m.MPI = self.MPI
        return {'mpi4py': m, 'mpi4py.MPI': self.MPI}

    def rank(self):
        return getattr(self.local, 'rank', 0)

    def comm(self):
        return self.comms[self.rank()]

    def run(self, fn):
        """fn(rank, comm) on every rank; list of results."""
        n = self.size
        self.posted = [None] * n
        self.result = [None] * n
        self.done = [False] * n
        self.exc = [None] * n
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.abort = False
        prof = sys.getprofile()

        def body(r):
            self.go[r].acquire()
            self.local.rank = r
            try:
                if self.abort:
                    return
                if prof is not None:
                    sys.setprofile(prof)
                with np.errstate(all='ignore'):
                    self.result[r] = fn(r, self.comms[r])
            except _Abort:
                pass
            except BaseException as ex:
                self.exc[r] = ex
            finally:
                sys.setprofile(None)
                self.done[r] = True
                self.main.release()

        old = threading.stack_size(64 * 1024 * 1024)
        ths = [threading.Thread(target=body, args=(r,), daemon=True)
               for r in range(n)]
        for t in ths:
            t.start()
        threading.stack_size(old)
        err = None
        try:
            while not all(self.done):
                for r in range(n):
                    if self.done[r]:
                        continue
                    self.go[r].release()
                    self.main.acquire()
                    if self.exc[r] is not None:
                        err = self.exc[r]
                        break
                if err is not None or all(self.done):
                    break
                try:
                    self._collective()
                except BaseException as ex:
                    err = ex
                    break
        finally:
            self.abort = True
            for r in range(n):
                if not self.done[r]:
                    self.go[r].release()
                    self.main.acquire()
            for t in ths:
                t.join()
        if err is not None:
            raise err
        return self.result

    def post(self, rank, op):
        self.posted[rank] = op
        self.main.release()
        self.go[rank].acquire()
        if self.abort:
            raise _Abort()
        r = self.answers[rank]
        if isinstance(r, BaseException):
            raise r
        return r

    def _collective(self):
        ops = self.posted
        self.ncoll += 1
        if any(self.done):
            raise MPIError('deadlock: ranks %s wait in %s, the others ended'
                           % ([r for r in range(self.size)
                               if not self.done[r]],
                              [o and o[0] for o in ops]))
        names = {o[0] for o in ops}
        if len(names) != 1:
            raise MPIError('ranks are in different collectives: %s'
                           % [o[0] for o in ops])
        roots = {o[1].get('root') for o in ops}
        if len(roots) != 1:
            raise MPIError('ranks disagree on the root: %s' % [
                o[1].get('root') for o in ops])
        root = roots.pop()
        if root is not None and not 0 <= root < self.size:
            raise MPIError('no such root')
        name = names.pop()
        self.answers = getattr(self, '_' + name)(
            [o[1] for o in ops], root)
        self.posted = [None] * self.size

    # object collectives
    def _bcast(self, a, root):
        return [a[root]['obj'] if r == root else _cp(a[root]['obj'])
                for r in range(self.size)]

    def _gather(self, a, root):
        return [[_cp(x['obj']) for x in a] if r == root else None
                for r in range(self.size)]

    def _allgather(self, a, root):
        return [[_cp(x['obj']) for x in a] for r in range(self.size)]

    def _scatter(self, a, root):
        o = a[root]['obj']
        if o is None or len(o) != self.size:
            raise MPIError('scatter needs one object per rank')
        return [_cp(x) for x in o]

    def _barrier(self, a, root):
        return [None] * self.size

    def _reduce(self, a, root):
        v = _fold([x['obj'] for x in a], a[0]['op'])
        return [v if root in (None, r) else None for r in range(self.size)]

    # buffer collectives
    def _Bcast(self, a, root):
        src, st = _buf(a[root]['buf'])
        for r in range(self.size):
            if r == root:
                continue
            dst, dt = _buf(a[r]['buf'])
            if dst.size > src.size or dst.size < src.size:
                raise MPIError('Bcast buffers of %d and %d elements'
                               % (src.size, dst.size))
            if st.dt != dt.dt:
                raise MPIError('Bcast of %r into %r' % (st, dt))
            dst.reshape(-1)[:] = src.reshape(-1)
        return [None] * self.size

    def _Reduce(self, a, root):
        bufs = [_buf(x['send']) for x in a]
        v = _fold([b[0].reshape(-1) for b in bufs], a[0]['op'])
        for r in range(self.size):
            if root in (None, r):
                dst, dt = _buf(a[r]['recv'])
                if dst.size != np.size(v) or dt.dt != bufs[0][1].dt:
                    raise MPIError('Reduce buffers do not match')
                dst.reshape(-1)[:] = v
        return [None] * self.size

    def _Gatherv(self, a, root):
        for r in range(self.size):
            if root in (None, r):
                self._collect(a, r)
        return [None] * self.size

    def _collect(self, a, r):
        rec = a[r]['recv']
        sizes = disps = None
        if isinstance(rec, (list, tuple)):
            rec = list(rec)
            t = rec.pop() if isinstance(rec[-1], Type) else None
            arr = rec.pop(0)
            if rec and rec[0] is not None and isinstance(
                    rec[0], (list, tuple)) and len(rec) == 1 and len(
                        rec[0]) == 2 and not np.isscalar(rec[0][0]):
                sizes, disps = rec[0]
            else:
                if rec:
                    sizes = rec.pop(0)
                if rec:
                    disps = rec.pop(0)
            dst, dt = _buf([arr, t] if t is not None else arr)
        else:
            dst, dt = _buf(rec)
        n = self.size
        if sizes is None:
            if dst.size % n:
                raise MPIError('Gather into a buffer of odd size')
            sizes = [dst.size // n] * n
        sizes = [int(s) for s in sizes]
        if disps is None:
            disps = np.insert(np.cumsum(sizes), 0, 0)[:-1]
        flat = dst.reshape(-1)
        for i in range(n):
            src, st = _buf(a[i]['send'])
            if st.dt != dt.dt:
                raise MPIError('Gatherv of %r into %r' % (st, dt))
            if src.size != sizes[i]:
                raise MPIError('rank %d sends %d elements, %d expected'
                               % (i, src.size, sizes[i]))
            d = int(disps[i])
            if d < 0 or d + sizes[i] > flat.size:
                raise MPIError('Gatherv writes outside the buffer')
            flat[d:d + sizes[i]] = src.reshape(-1)


def _fold(vals, op):
    name = op.name if isinstance(op, _Op) else 'SUM'
    f = {'SUM': lambda x, y: x + y, 'MAX': max, 'MIN': min,
         'PROD': lambda x, y: x * y, 'LOR': lambda x, y: bool(x or y),
         'LAND': lambda x, y: bool(x and y)}[name]
    v = vals[0]
    for x in vals[1:]:
        v = f(v, x)
    return v


def _cp(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(_cp(i) for i in x)
    if isinstance(x, dict):
        return {k: _cp(v) for k, v in x.items()}
    return copy.copy(x)


_AUTO = {np.dtype(v): k for k, v in reversed(list(TYPES.items()))
         if v is not None}


def _buf(b):
    t = None
    if isinstance(b, (list, tuple)):
        parts = list(b)
        b = parts[0]
        for p in parts[1:]:
            if isinstance(p, Type):
                t = p
            elif isinstance(p, (int, np.integer)) and int(p) != np.size(b):
                raise Unsupported('partial buffers')
    if b is None:
        raise MPIError('no buffer')
    if not isinstance(b, np.ndarray):
        raise MPIError('not a buffer: %s' % type(b).__name__)
    if not b.flags['C_CONTIGUOUS']:
        raise MPIError('buffer is not contiguous')
    dt = np.dtype(b.dtype)
    if dt == object:
        dt = None
    if t is None:
        if dt is None or dt not in _AUTO:
            raise MPIError('no MPI type for %s' % b.dtype)
        t = Type(_AUTO[dt], dt)
    elif t.dt is not None and dt is not None and t.dt != dt:
        raise MPIError('buffer of %s declared as %r' % (dt, t))
    return b, t


class Comm:
    def __init__(self, sim, rank):
        self.sim = sim
        self.rank = rank
        self.size = sim.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _p(self, _name, **a):
        return self.sim.post(self.rank, (_name, a))

    def bcast(self, obj, root=0):
        return self._p('bcast', obj=obj, root=root)

    def gather(self, sendobj, root=0):
        return self._p('gather', obj=sendobj, root=root)

    def allgather(self, sendobj):
        return self._p('allgather', obj=sendobj)

    def scatter(self, sendobj, root=0):
        return self._p('scatter', obj=sendobj, root=root)

    def barrier(self):
        return self._p('barrier')

    Barrier = barrier

    def reduce(self, sendobj, op=None, root=0):
        return self._p('reduce', obj=sendobj, op=op, root=root)

    def allreduce(self, sendobj, op=None):
        return self._p('reduce', obj=sendobj, op=op, root=None)

    def Bcast(self, buf, root=0):
        return self._p('Bcast', buf=buf, root=root)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        return self._p('Reduce', send=sendbuf, recv=recvbuf, op=op, root=root)

    def Allreduce(self, sendbuf, recvbuf, op=None):
        return self._p('Reduce', send=sendbuf, recv=recvbuf, op=op, root=None)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        return self._p('Gatherv', send=sendbuf, recv=recvbuf, root=root)

    def Allgatherv(self, sendbuf, recvbuf):
        return self._p('Gatherv', send=sendbuf, recv=recvbuf, root=None)

    Gather = Gatherv
    Allgather = Allgatherv

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('communicator method ' + n)
