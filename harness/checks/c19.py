import scen_spectral as s


def run(ctx):
    ctx.models_check([('MC_SpectralLaws', None, 2)])
    jobs = [(s.welch, (i,)) for i in range(ctx.n(320, 2400))] + [(s.wpsd, (i,)) for i in range(ctx.n(320, 2400))] \
        + [(s.wlong, (i,)) for i in range(ctx.n(8, 60))] + [(s.law, (i,)) for i in range(ctx.n(80, 600))]
    ctx.judge('Trace_Spectral', ctx.record(jobs), 'C19')
