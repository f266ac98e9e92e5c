"""C02: memoryless update laws"""
from ._law import law_case

FILES = ["filters/"]
RULE = ("Random memoryless filter, parameters (ordinary and extreme), data; the increment of every sample is compared "
        "with the long double value of the documented law, in batch use, in sample-after-sample use (with zero errors "
        "forced at random samples), and in mixed use.")
NEED = dict(decisive=2000, zero_error_samples=20, zero_input_samples=20, adapt_traces=20, run_traces=20)
KINDS = ["LMS", "NLMS", "LMF", "NLMF", "SSLMS", "NSSLMS", "GMCC", "Llncosh"]


def case(ctx):
    law_case(ctx, KINDS)
