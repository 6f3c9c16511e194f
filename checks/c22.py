"""C22: a report contains exactly the operation points added, in order."""
import rep
import vlib

TRACE = 'Trace_Report'
RULE = ('histories of five (thorough: six) creations, additions, changes of the caller\'s dictionaries and generations over '
        'two reports and folders, enumerated by TLC from MC_Report, and random ones of 8 to 25 operations on three '
        'reports; the generated report is read back as lines, rows, labels and pictures and compared with the document of '
        'Report.tla, every number with the figure of a results object of its own, every plot file with the same plot of an '
        'object of its own')
ASSUMPTIONS = ['a stand-in for savefig that writes the curves is used for most histories, real PDF files for the rest',
               'which figures and curves are right is decided by C07 to C15 and C23']
drive = rep.drive
SCENARIO_TIMEOUT = 120


def scenarios(ctx):
    r = ctx.rng
    em = ctx.mc('MC_Report', ctx.n('MC_Report', 'MC_Report_deep'))
    em = r.sample(em, min(len(em), ctx.n(70, 1500)))
    scns = [dict(rep.world(r, e['h']), src='tlc') for e in em]
    for _ in range(ctx.n(30, 500)):
        scns.append(rep.world(r, rep.longer(r, r.choice([8, 14, 25]))))
    for _ in range(ctx.n(4, 40)):
        scns.append(rep.world(r, rep.longer(r, 6), mode='real'))
    r.shuffle(scns)
    return scns


def canaries(traces):
    out = []
    for t in traces[::max(1, len(traces) // 25)]:
        for k, e in enumerate(t['ev']):
            if e['op'] != 'latex' or not e.get('doc', {}).get('points'):
                continue
            p = ['ev', k, 'doc', 'points', 0]
            pt = e['doc']['points'][0]
            j = len(pt['name']) % len(pt['rows'])
            if pt['rows'][j]['num'] not in ('none', 'nan', 'inf', '-inf'):
                out.append(vlib.corrupt(t, p + ['rows', j, 'num'], vlib.bump(pt['rows'][j]['num'], 1)))
            out.append(vlib.corrupt(t, p + ['pics'], pt['pics'][1:]))
            out.append(vlib.corrupt(t, p + ['name'], 'wrong'))
            out.append(vlib.corrupt(t, ['ev', k, 'doc', 'heads', 0, 'id'], 'OP9'))
            out.append(vlib.corrupt(t, ['ev', k, 'doc', 'points'], e['doc']['points'][::-1] + [pt]))
            out.append(vlib.corrupt(t, ['ev', k, 'files'], e['files'][:-3]))
            break
    return out
