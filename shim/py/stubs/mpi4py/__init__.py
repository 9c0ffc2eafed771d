class _World:
    rank, size = 0, 1
class MPI:
    COMM_WORLD = _World()
    SUM = None
