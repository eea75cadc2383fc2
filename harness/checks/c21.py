import scen_spectral as s


def run(ctx):
    ctx.models_check([('MC_SpectralLaws', None, 2)])
    jobs = [(s.beta, (i,)) for i in range(ctx.n(1200, 8000))] + [(s.fractal, (i,)) for i in range(ctx.n(80, 800))] \
        + [(s.nobeta, (i,)) for i in range(ctx.n(120, 600))]
    ctx.judge('Trace_Spectral', ctx.record(jobs), 'C21')
