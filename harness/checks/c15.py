import scen_bivariate as s


def run(ctx):
    ctx.models_check([('MC_BivariateLaws', None, 2)])
    jobs = [(s.structure, (i,)) for i in range(ctx.n(500, 4000))] \
        + [(s.joint, (i,)) for i in range(ctx.n(150, 1000))]
    ctx.judge('Trace_Bivariate', ctx.record(jobs), 'C15')
