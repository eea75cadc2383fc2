import scen_wavelet as s


def run(ctx):
    ctx.models_check([('MC_Leaders', None, 2)])
    n = ctx.n(360, 4000)
    jobs = [(s.general, (i, ('p',), 1600, 'c05', i % 2 == 0)) for i in range(n)] \
        + [(s.large, (i,)) for i in range(2, ctx.n(32, 100), 4)] + [(s.large, (i,)) for i in range(3, ctx.n(32, 100), 4)] \
        + [(s.long, (i, (2, 1, 2.5, 4))) for i in range(ctx.n(8, 60))] \
        + [(s.layouts, (i, ('p',))) for i in range(ctx.n(40, 200))]
    ctx.judge('Trace_Cascade', ctx.record(jobs), 'C05')
