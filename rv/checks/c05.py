"""C05: affine projection"""
from ._law import law_case

FILES = ["filters/"]
RULE = ("Random order, regularisation, data and call history; every increment is compared with the regularised "
        "projection computed by long double Cholesky factorisation (dual form when order exceeds the size).")
NEED = dict(decisive=1000, adapt_traces=20, run_traces=20)


def case(ctx):
    law_case(ctx, ["AP"], hi=80, long=.02, nhi=12)
