import scen_sym as s


def run(ctx):
    ctx.models_check([('MC_StatsLaws', None, 2)])
    jobs = []
    for f in (s.amplitude, s.trend, s.gamint):
        jobs += [(f, (i, [600, 2000, 20000][i % 3])) for i in range(ctx.n(110, 1200))]
    ctx.judge('Trace_Sym', ctx.record(jobs), 'C12')
