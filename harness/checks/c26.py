import scen_plots as s


def run(ctx):
    ctx.models_check([('MC_Plots', None, 2)])
    n = ctx.n(1, 8)
    jobs = []
    for f, k in ((s.structure, 70), (s.cumulants, 60), (s.spectrum, 40), (s.bistructure, 36), (s.bicumulants, 32), (s.hmin, 40),
                 (s.psd, 100), (s.legendre, 24), (s.multiscale, 30)):
        jobs += [(f, (i,)) for i in range(k * n)]
    ctx.judge('Trace_Plots', ctx.record(jobs), 'C26')
