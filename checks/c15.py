"""C15: results are a pure function of the data."""
import obj
import vlib

TRACE = 'Trace_ResultsObj'
RULE = ('histories of five (thorough: six) operations over two data sets and two sets of arguments, enumerated by TLC from '
        'MC_ResultsObj (creations, reads, catalogues, changes of what was returned, plots, serialisations), and random '
        'histories of 15 to 60 operations on three and more objects; every value read is compared with that of an object of '
        'its own which was asked nothing else, and every catalogue with the figures and sections of ResultsObj.tla')
ASSUMPTIONS = ['the arrays given as data are not changed by the caller afterwards',
               'values are compared to 1e-9; which values are right is decided by C07 to C13']
drive = obj.drive


def scenarios(ctx):
    r = ctx.rng
    em = ctx.mc('MC_ResultsObj', ctx.n('MC_ResultsObj', 'MC_ResultsObj_deep'))
    em = r.sample(em, min(len(em), ctx.n(260, 5000)))
    scns = [dict(obj.world(r, e['h']), src='tlc') for e in em]
    for _ in range(ctx.n(60, 1200)):
        scns.append(obj.world(r, obj.longer(r, r.choice([15, 30, 60]))))
    return scns


def canaries(traces):
    out = []
    for t in traces[::max(1, len(traces) // 15)]:
        for k, e in enumerate(t['ev']):
            if e['op'] == 'read' and e['val']['v'] and e['val']['v'][0] and e['val']['v'][0][0] != 'nan':
                out.append(vlib.corrupt(t, ['ev', k, 'val', 'v', 0, 0], vlib.bump(e['val']['v'][0][0], 1e-6)))
                break
        for k, e in enumerate(t['ev']):
            if e['op'] == 'cat' and e['rows'] and not any(v['o'] not in ('ok', 'none') for x in t['ref'].values() for v in x.values()):
                out.append(vlib.corrupt(t, ['ev', k, 'rows'], e['rows'][1:]))
                out.append(vlib.corrupt(t, ['ev', k, 'rows', 3, 'section'], 'other'))
                break
        out.append(vlib.corrupt(t, ['ev', len(t['ev']) - 1, 'h'], 'other'))
    return out
