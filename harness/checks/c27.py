import scen_theory as s


def run(ctx):
    ctx.models_check([('MC_Multifractal', None, 2)])
    jobs = [(s.mrq, (i,)) for i in range(ctx.n(150, 2000))] + [(s.signal, (i,)) for i in range(ctx.n(150, 2000))] \
        + [(s.bimrq, (i,)) for i in range(ctx.n(120, 1500))] + [(s.spectrum, (i,)) for i in range(ctx.n(60, 600))]
    ctx.judge('Trace_Multifractal', ctx.record(jobs), 'C27')
