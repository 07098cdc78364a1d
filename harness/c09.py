"""C09: MPI helpers."""
import numpy as np

from vx.mpisim import MPIError, Sim
from vx.core import Unsupported
from vx.run import Task

ID = 'C09'
BOUNDS = ('1-4 ranks (thorough 5), every root, 0- to 3-dimensional arrays with '
          'up to 3 rows per rank (empty ranks included), float64, float32, '
          'int and intc elements of every value, C and Fortran order; the '
          'communicator is simulated (collectives, matching and buffer rules)')
OUTSIDE = 'mpi4py and MPI themselves; element types without an MPI type'

DT = {'f8': np.float64, 'f4': np.float32, 'i8': int, 'i4': np.intc}


def data(w, name, shape, dt, order='C'):
    if dt[0] == 'f':
        a = w.reals(name, shape)
    else:
        a = w.ints(name, shape, -1000, 1000)
    if w.sym:
        a._dt = np.dtype(DT[dt])
        if order == 'F' and len(shape) > 1:
            b = a.T.copy().T
            b._dt = a._dt
            return b
        return a
    return np.array(a, dtype=DT[dt], order=order)


def dt_of(a):
    return np.dtype(a.dtype)


def run(w, sim, fn):
    try:
        return sim.run(fn)
    except MPIError as ex:
        w.check(False, 'collective calls match', str(ex))
        raise Unsupported('mpi error')


def eqa(w, a, b, label):
    w.check(isinstance(a, np.ndarray), label + ': an array')
    w.check(np.shape(a) == np.shape(b), label + ': shape')
    w.check(dt_of(a) == dt_of(b), label + ': element type')
    w.eq(a, b, label + ': values', tol=1e-4)


def bcast(w, size, root, shape, dt, other, order, world=False):
    sim = Sim(size)
    f = w.load(stubs=sim.stubs()).mod('pyuoi.mpi_utils').Bcast_from_root
    x = data(w, 'x', shape, dt, order)
    keep = x.copy()

    def rank(r, comm):
        if r == root:
            s = x
        elif other:
            s = np.full((2, 3), 7)
        else:
            s = None
        return f(s, root=root) if world else f(s, comm, root=root)
    out = run(w, sim, rank)
    if dt_of(keep) != dt_of(x):
        keep = keep.astype(x.dtype)
    for r in range(size):
        eqa(w, out[r], keep, 'broadcast')


def gather(w, size, root, rows, tail, dt, order, world=False):
    sim = Sim(size)
    f = w.load(stubs=sim.stubs()).mod('pyuoi.mpi_utils').Gatherv_rows
    xs = [data(w, 'x%d_' % r, (rows[r],) + tail, dt, order)
          for r in range(size)]

    def rank(r, comm):
        if world:
            return f(xs[r], root=root)
        return f(send=xs[r], comm=comm, root=root)
    out = run(w, sim, rank)
    n = sum(rows)
    for r in range(size):
        if r != root:
            w.check(out[r] is None, 'gather: nothing on the other ranks')
            continue
        w.check(isinstance(out[r], np.ndarray), 'gather: an array')
        w.check(np.shape(out[r]) == (n,) + tail, 'gather: shape')
        w.check(dt_of(out[r]) == np.dtype(DT[dt]), 'gather: element type')
        i = 0
        for q in range(size):
            for k in range(rows[q]):
                w.eq(out[r][i], xs[q][k], 'gather: rows in rank order',
                     tol=1e-4)
                i += 1


class DS:
    """An HDF5 dataset."""

    def __init__(self, a):
        self.a = a
        self.shape, self.dtype = a.shape, a.dtype

    def __getitem__(self, k):
        if k == () or k is Ellipsis or k == slice(None):
            return self.a.copy()
        return self.a[k]

    def __array__(self, *a, **k):
        raise Unsupported('dataset as array')


def loading(w, size, root, xs, ys, dt, keys, world=False):
    sim = Sim(size)
    X = data(w, 'X', xs, dt)
    y = data(w, 'y', ys, 'i8' if dt == 'f8' else 'f8')
    opened = []
    kw = {} if keys is None else dict(X_key=keys[0], y_key=keys[1])
    kx, ky = keys or ('X', 'y')

    class File:
        def __init__(self, name, mode='r', **k):
            opened.append((sim.rank(), name, mode))

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        def __getitem__(self, k):
            return {kx: DS(X), ky: DS(y)}[k]
    h5 = type(np)('h5py')
    h5.File = File
    f = w.load(stubs=dict(sim.stubs(), h5py=h5)).mod(
        'pyuoi.mpi_utils').load_data_MPI
    def rank(r, comm):
        if world:
            return f('file.h5', root=root, **kw)
        return f('file.h5', comm=comm, root=root, **kw)
    out = run(w, sim, rank)
    w.check(bool(opened) and all(o == (root, 'file.h5', 'r')
                                for o in opened),
            'the file is read on the root')
    for r in range(size):
        w.check(len(out[r]) == 2, 'features and targets')
        for a, b, l in ((out[r][0], X, 'features'), (out[r][1], y,
                                                     'targets')):
            w.check(np.shape(a) == np.shape(b), l + ': shape')
            w.check(dt_of(a) == np.dtype(DT[dt] if l == 'features' else
                                         ('i8' if dt == 'f8' else 'f8')),
                    l + ': element type')
            w.eq(a, b, l + ': values', tol=1e-4)


def tasks(tier):
    out = []

    def sh(s):
        return 'x'.join(str(i) for i in s) or '0d'
    P = (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5)
    shapes = [(), (1,), (3,), (0,), (2, 2), (0, 2), (2, 0), (1, 2, 2)]
    for size in P:
        for root in range(size):
            def many(w, size=size, root=root):
                s = w.choose('shape', shapes)
                d = w.choose('type', ['f8', 'f4', 'i8', 'i4'])
                bcast(w, size, root, s, d, w.choose('other', [False, True]),
                      w.choose('order', ['C', 'F']),
                      w.choose('world', [False, True]))
            out.append(Task('bcast-p%d-root%d' % (size, root), many))

            def manyg(w, size=size, root=root):
                rows = [w.choose('rows%d' % r, [0, 1, 2] if size < 4 else
                                 [0, 2]) for r in range(size)]
                k = w.choose('tail', [(), (1,), (2,), (2, 2), (3, 1)]
                             if size < 4 else [(), (2,), (2, 2)])
                d = w.choose('type', ['f8', 'i8'] if size > 2 else
                             ['f8', 'f4', 'i8', 'i4'])
                gather(w, size, root, rows, k, d,
                       w.choose('order', ['C', 'F'] if size < 3 else ['C']),
                       w.choose('world', [False, True]
                                if size == 2 else [False]))
            out.append(Task('gather-p%d-root%d' % (size, root), manyg))

            def manyl(w, size=size, root=root):
                xs, ys = w.choose('shapes', [((2, 2), (2,)), ((3, 1), (3,)),
                                             ((2, 1), (2, 1)), ((1, 3), (1,)),
                                             ((0, 2), (0,))])
                loading(w, size, root, xs, ys,
                        w.choose('type', ['f8', 'f4', 'i8', 'i4']),
                        w.choose('keys', [None, ('A', 'B')]),
                        w.choose('world', [False, True]))
            out.append(Task('load-p%d-root%d' % (size, root), manyl))
    return out
