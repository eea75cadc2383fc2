import scen_stats as s


def run(ctx):
    ctx.models_check([('MC_StatsLaws', None, 2)])
    jobs = [(s.hmin, (i,)) for i in range(ctx.n(900, 6000))] + [(s.large_structure, (3,))] + [(s.large, (i, 'hmin')) for i in range(ctx.n(8, 60))] \
        + [(s.dead, (i, 'hmin')) for i in range(ctx.n(40, 300))]
    ctx.judge('Trace_Stats', ctx.record(jobs), 'C11')
