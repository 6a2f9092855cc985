"""Agreement on measured values.  The same systems of processes as in M01, with exact probabilities of the
processes' parts: for evenly spread draws, equal or different on the processes, every process must return the same
outcome, the share of the draws giving an outcome must be its probability, an outcome of probability zero must not
occur, and every process must hold its rows of the projection on that outcome, scaled by the same factor."""
from ..mpicheck import simulate

RULE = "all processes continue with one measured value, chosen with its probability in the whole state"
NAMES = ("measureOneCollapsingMPI", "measureOneMPI", "measureAllMPI", "probabilitiesMPI")


def check(ctx):
    simulate(ctx, ("value", "collective", "deadlock", "message"), NAMES, RULE)
