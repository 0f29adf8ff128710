"""A stand-in for mpi4py.MPI (no real MPI is started by the checks)."""
import sys, types


class Comm:
    def __init__(self, rank=0, size=1, box=None):
        self._rank, self._size = rank, size
        self.box = {} if box is None else box
        self.bcasts = 0

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    rank = property(lambda s: s._rank)
    size = property(lambda s: s._size)

    def bcast(self, obj, root=0):
        import pickle
        k = self.bcasts
        self.bcasts += 1
        if self._rank == root:
            self.box[k] = pickle.dumps(obj)
            return obj
        return pickle.loads(self.box[k])

    def Barrier(self):
        pass

    barrier = Barrier


def install(rank=0, size=1, box=None):
    m = types.ModuleType('mpi4py.MPI')
    m.COMM_WORLD = Comm(rank, size, box)
    p = types.ModuleType('mpi4py')
    p.MPI = m
    p.__path__ = []
    sys.modules['mpi4py'] = p
    sys.modules['mpi4py.MPI'] = m
    return m.COMM_WORLD


def install_comm(comm):
    """like install, with a communicator that was made elsewhere"""
    m = types.ModuleType('mpi4py.MPI')
    m.COMM_WORLD = comm
    m.SUM = m.MAX = m.MIN = None
    p = types.ModuleType('mpi4py')
    p.MPI = m
    p.__path__ = []
    sys.modules['mpi4py'] = p
    sys.modules['mpi4py.MPI'] = m
