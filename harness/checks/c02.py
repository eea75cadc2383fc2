import scen_wavelet as s


def run(ctx):
    ctx.models_check([('MC_Cascade', None, 2)])
    n = ctx.n(420, 4000)
    jobs = [(s.general, (i, ('coef', 'coef', 'leader', 'p'), 1600, 'c02', i % 2 == 0)) for i in range(n)] \
        + [(s.large, (i,)) for i in range(ctx.n(16, 60))] + [(s.polynomial, (i,)) for i in range(ctx.n(24, 120))] \
        + [(s.long, (i, (None,))) for i in range(ctx.n(8, 60))] \
        + [(s.layouts, (i, ('coef', 'coef', 'leader', 'p'))) for i in range(ctx.n(40, 200))]
    ctx.judge('Trace_Cascade', ctx.record(jobs), 'C02')
