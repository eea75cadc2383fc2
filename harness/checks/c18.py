import scen_workspace as s


def run(ctx):
    ctx.models_check([('MC_Workspace', None, 4)])
    bs, n = s.behaviours(ctx.n(420, 3000), 24, ctx.seed)
    ctx.notes['behaviours_replayed'] = len(bs)
    ctx.notes['calls_replayed'] = n
    e, k = [], 0
    while k < len(bs):                               # groups of one to three interleaved objects
        n = 1 + len(e) % 3
        e.append((len(e), bs[k:k + n]))
        k += n
    recs = ctx.record([(s.replays, (e[k:k + 5],)) for k in range(0, len(e), 5)])
    recs += ctx.record([(s.diff, (i,)) for i in range(40)])
    ctx.judge('Trace_Workspace', recs)
