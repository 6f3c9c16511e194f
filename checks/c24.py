"""C24: descriptor in, results out: the chain is the composition of its parts."""
import chain
import vlib

TRACE = 'Trace_Chain'
RULE = ('histories of image and descriptor files being written, replaced and removed and of facades being made and read (xml, '
        'xml file, print, plots), enumerated by TLC from MC_Chain and random ones: each facade must be what Chain.tla (the '
        'composition of Descriptor, DataPrep and Results over the files at that moment) gives, and show what the parts give '
        'step by step on a copy of the files; and datasets of simulated cameras enumerated by TLC from MC_Recover, whose '
        'figures must agree with the configured ones within the bounds of Recover.tla (7 standard deviations)')
ASSUMPTIONS = ['grey images of 8 to 16 bits', 'recovery: no clipping of electrons or grey values at the dark end, temporal dark '
               'noise of at least 0.6 DN, one wavelength, the same number of bright and dark spatial images',
               'figures of data where rounding decides an index are compared with the step by step evaluation only',
               'pictures are compared by the data and texts of their axes']
drive = chain.drive
SCENARIO_TIMEOUT = 200


def scenarios(ctx):
    r = ctx.rng
    em = ctx.mc('MC_Chain', ctx.n('MC_Chain', 'MC_Chain_deep'))
    em = r.sample(em, min(len(em), ctx.n(130, 2500)))
    scns = [{'src': 'tlc', 'root': r.choice(['w', 'some where', 'images']), 'ops': chain.replay(r, e['h'])} for e in em]
    scns += [{'ops': chain.history(r)} for _ in range(ctx.n(50, 1000))]
    rec = ctx.mc('MC_Recover', ctx.n('MC_Recover', 'MC_Recover_deep'))
    keyed = {}
    for e in rec:
        keyed[repr(sorted(e.items()))] = e
    rec = [keyed[k] for k in sorted(keyed)]
    rec = r.sample(rec, min(len(rec), ctx.n(60, 1500)))
    scns += [{'src': 'tlc', 'ops': [chain.recovery(r, e, (130, 150) if k < ctx.n(6, 60) else None)]} for k, e in enumerate(rec)]
    return scns


def canaries(traces):
    out, n, m = [], 0, 0
    for t in traces:
        for k, e in enumerate(t['ev']):
            if e['e'] == 'recover' and e['out'] == 'ok' and n < 6 and e['g']['M'] < 100:
                n += 1
                for f in ('K', 'QE', 'sigma_d'):
                    out.append(vlib.corrupt(t, ['ev', k, 'res', f, 'v'], vlib.bump(e['res'][f]['v'], 1)))
            if e['e'] == 'read' and m < 8:
                m += 1
                out.append(vlib.corrupt(t, ['ev', k, 'dig'], 'other'))
                if e['res'] and e['res']['s_2_y_measured']['o'] == 'ok':
                    out.append(vlib.corrupt(t, ['ev', k, 'res', 's_2_y_measured', 'v'], vlib.bump(e['res']['s_2_y_measured']['v'], 1e-3)))
    return out
