import scen_sym as s


def run(ctx):
    ctx.models_check([('MC_Cascade', None, 2)])
    jobs = [(s.columns, (i, [600, 1500, 6000][i % 3])) for i in range(ctx.n(110, 1200))]
    ctx.judge('Trace_Sym', ctx.record(jobs), 'C06')
