import scen_purity as s


def run(ctx):
    ctx.models_check([('MC_Purity', None, 2)] + [('MC_Purity', f'MC_Purity_seen_{b}', 2) for b in ('alias', 'inplace', 'state', 'sticky', 'ambient')])
    bs = s.behaviours(ctx.n(240, 3000), 40, ctx.seed)
    e = list(enumerate(bs))
    recs = ctx.record([(s.histories, (e[k:k + 10],)) for k in range(0, len(e), 10)])
    ctx.notes['calls_replayed'] = sum(len(r['events']) for r in recs)
    ctx.notes['calls_compared_with_a_fresh_process'] = sum(e['fresh'] != 0 for r in recs for e in r['events'])
    ctx.notes['calls_that_raised'] = sum(r['_raised'] for r in recs)
    ctx.notes['calls_repeated'] = sum(1 for b in bs for x in b if x['rep'])
    ctx.judge('Trace_Purity', recs)
