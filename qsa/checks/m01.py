"""Collective exchanges.  Every routine of the distributed build is unfolded for every process of worlds of
2, 4 and 8 (thorough 16) processes, with parts of the state that are or are not zero and draws that differ between
the processes; the processes meet in their collectives.  A process that waits in an exchange the others are not in,
or that is in one of another kind, root, type of data or operation, is reported with what every process waits for."""
from ..mpicheck import simulate

RULE = "every process takes part in the same collective exchanges in the same order"
NAMES = ("mv_multiply_MPI", "mv_multiply_MPI_bcast3", "measureOneCollapsingMPI", "measureOneMPI", "measureAllMPI",
         "probabilitiesMPI", "printVectorMPI", "makeZeroStateMPI", "makeOneStateMPI", "adjust_weight")


def check(ctx):
    simulate(ctx, ("collective", "deadlock"), NAMES, RULE)
