"""C03: variable step recursions"""
from ._law import law_case

FILES = ["filters/"]
RULE = ("Random GNGD or VSLMS filter, parameters with mild and with strong step adaptation, data; the increment of "
        "every sample is compared with a stateful long double recursion fed by the observed errors.")
NEED = dict(decisive=2000, adapt_traces=20, run_traces=20)
KINDS = ["GNGD", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"]


def case(ctx):
    law_case(ctx, KINDS, hi=120)
