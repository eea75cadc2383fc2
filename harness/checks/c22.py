import scen_simul as s


def run(ctx):
    ctx.models_check([('MC_SimulLaws', None, 2)])
    jobs = [(s.gram, (i,)) for i in range(ctx.n(100, 1500))] + [(s.gram_large, (i,)) for i in range(ctx.n(24, 200))] + [(s.gram_long, (i,)) for i in range(ctx.n(6, 30))] + [(s.sample, (i,)) for i in range(ctx.n(16, 100))] \
        + [(s.linear, (i,)) for i in range(ctx.n(40, 400))] + [(s.shape, (i,)) for i in range(ctx.n(80, 800))] + [(s.rejects, (0,))]
    ctx.judge('Trace_Simul', ctx.record(jobs), 'C22')
