import scen_domain as s


def run(ctx):
    reqs, g, d = s.requests()
    ctx.states += d
    ctx.transitions += g
    ctx.notes['request_classes'] = len(reqs)
    cheap = [r for r in reqs if r['op'] not in ('wavelet', 'hmin', 'signal', 'analysis')]
    rest = [r for r in reqs if r['op'] in ('wavelet', 'hmin', 'signal', 'analysis')]
    jobs = []
    for rep in range(ctx.n(2, 20)):
        jobs += [(s.chunk, (cheap[i::16], rep)) for i in range(16)]
    for rep in range(ctx.n(4, 30)):
        jobs += [(s.chunk, (rest[i::16], rep)) for i in range(16)]
    ctx.judge('Trace_Domain', ctx.record(jobs), 'C25')
