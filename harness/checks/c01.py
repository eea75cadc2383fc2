import numpy as np
import scen_wavelet as s


def run(ctx):
    ctx.models_check([('MC_Masks', None, 2), ('MC_Cascade', None, 2)])
    n = ctx.n(420, 4000)
    jobs = [(s.general, (i, ('coef', 'leader', 'p'), 1600, 'c01')) for i in range(n)] \
        + [(s.boundary_lengths, (i,)) for i in range(6)] + [(s.large, (i,)) for i in range(ctx.n(8, 40))] \
        + [(s.long, (i, (None, np.inf, 2, 1))) for i in range(ctx.n(12, 60))] \
        + [(s.layouts, (i, ('coef', 'leader', 'p'))) for i in range(ctx.n(40, 200))]
    ctx.judge('Trace_Cascade', ctx.record(jobs), 'C01')
