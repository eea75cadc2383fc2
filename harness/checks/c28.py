import re
import scen_repr as s
import vlib


def run(ctx):
    ctx.models_check([('MC_Repr', None, 2)])
    cs, g, d = s.configs()
    ctx.states, ctx.transitions = ctx.states + d, ctx.transitions + g
    kinds = {m.group(1): re.findall(r'"(\w+)"', m.group(2))
             for m in re.finditer(r'(\w+)\s+\|-> <<(.*?)>>', open(vlib.SPEC + '/Repr.tla').read().split('Slots == [')[1])}
    cs = cs + s.mixed(cs, kinds, ctx.n(4, 40))
    items = [(k * len(cs) + i, c, kinds[c['call']]) for k in range(ctx.n(1, 5)) for i, c in enumerate(cs)]
    recs = ctx.record([(s.batch, (items[k:k + 20],)) for k in range(0, len(items), 20)])
    ctx.notes['configurations'] = len(cs)
    ctx.judge('Trace_Repr', recs)
