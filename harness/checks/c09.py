import scen_stats as s


def run(ctx):
    ctx.models_check([('MC_StatsLaws', None, 2)])
    jobs = [(s.cumulants, (i,)) for i in range(ctx.n(600, 4000))] + [(s.large_structure, (1,))] + [(s.large, (i, 'cumulants')) for i in range(ctx.n(8, 60))] \
        + [(s.dead, (i, 'cumulants')) for i in range(ctx.n(40, 300))]
    ctx.judge('Trace_Stats', ctx.record(jobs), 'C09')
