import scen_contract as s


def run(ctx):
    uni, bi, g, d = s.configs()
    ctx.states += d
    ctx.transitions += g
    ctx.notes['configurations'] = len(bi)
    k = 20
    jobs = []
    for rep in range(ctx.n(1, 5)):
        jobs += [(s.bivariate, (bi[i:i + k], (rep, i))) for i in range(0, len(bi), k)]
    jobs += [(s.rejects, (i,)) for i in range(ctx.n(24, 200))]
    ctx.judge('Trace_Contract', ctx.record(jobs), 'C17')
