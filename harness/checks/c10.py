import scen_stats as s


def run(ctx):
    ctx.models_check([('MC_StatsLaws', None, 2)])
    jobs = [(s.spectrum, (i,)) for i in range(ctx.n(500, 4000))] + [(s.large_structure, (2,))] + [(s.large, (i, 'spectrum')) for i in range(ctx.n(8, 60))] \
        + [(s.dead, (i, 'spectrum')) for i in range(ctx.n(40, 300))]
    ctx.judge('Trace_Stats', ctx.record(jobs), 'C10')
