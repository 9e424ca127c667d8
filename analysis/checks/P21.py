"""The processor tables admit exactly the rows of correct execution steps."""
import starkmodel as sm
from constraintset import check_table

TABLES = ("CpuStark", "CpuSkeletonStark", "AddStark")


def run(ctx):
    ctx.rule = ("abstract interpretation of each table's constraint generation, in both evaluators, yields its constraints as exact polynomials over the row's columns; "
                "the linear span of them is compared, per row kind, with that of an independent specification of the rows")
    P = sm.load()
    for t in TABLES:
        check_table(ctx, P, t)
