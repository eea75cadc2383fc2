import scen_bivariate as s


def run(ctx):
    ctx.models_check([('MC_BivariateLaws', None, 2)])
    jobs = [(s.cumulants, (i,)) for i in range(ctx.n(500, 4000))]
    ctx.judge('Trace_Bivariate', ctx.record(jobs), 'C16')
