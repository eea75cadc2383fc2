import scen_bivariate as b
import scen_stats as s


def run(ctx):
    ctx.models_check([('MC_RegressionLaws', None, 2), ('MC_NumLaws', None, 2)])
    jobs = [(s.linreg, (i,)) for i in range(ctx.n(600, 6000))]
    for f in (s.structure, s.cumulants, s.spectrum, s.hmin):
        jobs += [(f, (i,)) for i in range(ctx.n(60, 600))]
    jobs += [(s.large_structure, (i,)) for i in range(4)]
    ctx.judge('Trace_Stats', ctx.record(jobs), 'C07')
    jobs = [(f, (i,)) for f in (b.structure, b.cumulants) for i in range(ctx.n(60, 600))]
    ctx.judge('Trace_Bivariate', ctx.record(jobs), 'C07')
