import scen_contract as s
import scen_wavelet as w


def run(ctx):
    uni, bi, g, d = s.configs()
    ctx.states += d
    ctx.transitions += g
    ctx.notes['configurations'] = len(uni)
    k = 20
    jobs = []
    for rep in range(ctx.n(1, 5)):
        jobs += [(s.univariate, (uni[i:i + k], (rep, i))) for i in range(0, len(uni), k)]
    ctx.judge('Trace_Contract', ctx.record(jobs), 'C14')
    # what the quantities themselves carry
    ctx.judge('Trace_Cascade', ctx.record([(w.general, (i, ('coef', 'leader', 'p'), 400, 'c14')) for i in range(60)]), 'C14')
