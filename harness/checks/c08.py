import scen_stats as s


def run(ctx):
    ctx.models_check([('MC_StatsLaws', None, 2)])
    n = ctx.n(360, 3000)
    jobs = [(s.structure, (i,)) for i in range(n)] + [(s.hurst, (i,)) for i in range(n // 4)] \
        + [(s.structure_onebyone, (i,)) for i in range(ctx.n(6, 40))] + [(s.large_structure, (0,))] + [(s.large, (i, 'structure')) for i in range(ctx.n(8, 60))] \
        + [(s.dead, (i, 'structure')) for i in range(ctx.n(40, 300))] \
        + [(s.dead, (i, 'hurst')) for i in range(ctx.n(40, 300))]
    ctx.judge('Trace_Stats', ctx.record(jobs), 'C08')
