import scen_stats as st
import scen_sym as s


def run(ctx):
    ctx.models_check([('MC_StatsLaws', None, 2)])
    jobs = [(s.missing, (i,)) for i in range(ctx.n(240, 2400))] + [(s.bimissing, (i,)) for i in range(ctx.n(150, 1500))]
    ctx.judge('Trace_Sym', ctx.record(jobs), 'C13')
    # absolute values on quantities with missing entries: the valid counts
    jobs = [(st.structure, (i,)) for i in range(ctx.n(40, 400))]
    ctx.judge('Trace_Stats', ctx.record(jobs), 'C13')
