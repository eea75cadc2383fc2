import scen_spectral as s


def run(ctx):
    ctx.models_check([('MC_SpectralLaws', None, 2)])
    jobs = [(s.conv, (i,)) for i in range(ctx.n(120, 1200))] + [(s.band, (i,)) for i in range(ctx.n(400, 6000))] \
        + [(s.qlog, (i,)) for i in range(ctx.n(200, 2000))]
    ctx.judge('Trace_Spectral', ctx.record(jobs), 'C20')
