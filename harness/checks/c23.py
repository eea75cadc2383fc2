import scen_simul as s


def run(ctx):
    ctx.models_check([('MC_SimulLaws', None, 2)])
    jobs = [(s.mrwgram, (i,)) for i in range(ctx.n(60, 800))] + [(s.mrwlong, (i,)) for i in range(ctx.n(10, 80))] + [(s.volsample, (i,)) for i in range(ctx.n(16, 100))] \
        + [(s.same, (i,)) for i in range(ctx.n(60, 600))] + [(s.skew, (i,)) for i in range(ctx.n(60, 600))] \
        + [(s.skewconv, (i,)) for i in range(ctx.n(40, 400))] + [(s.field, (i,)) for i in range(ctx.n(36, 200))] + [(s.fieldsample, (i,)) for i in range(ctx.n(8, 60))] + [(s.rejects, (0,))]
    ctx.judge('Trace_Simul', ctx.record(jobs), 'C23')
