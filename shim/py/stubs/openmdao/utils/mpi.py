MPI = None
