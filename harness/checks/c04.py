import numpy as np
import scen_wavelet as s


def run(ctx):
    ctx.models_check([('MC_Leaders', None, 2)])
    n = ctx.n(420, 4000)
    jobs = [(s.general, (i, ('leader',), 1600, 'c04', i % 2 == 0)) for i in range(n)] \
        + [(s.large, (i,)) for i in range(1, ctx.n(32, 100), 4)] \
        + [(s.long, (i, (np.inf,))) for i in range(ctx.n(8, 60))] \
        + [(s.layouts, (i, ('leader',))) for i in range(ctx.n(40, 200))]
    ctx.judge('Trace_Cascade', ctx.record(jobs), 'C04')
