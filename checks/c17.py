"""C17: the comparison says OK exactly for results that agree."""
import vlib
import xmldoc

TRACE = 'Trace_Xml'
RULE = ('pairs of documents enumerated by TLC from MC_XmlDoc and random documents with variants (a last bit, the seventh '
        'digit, ties, signs, missing, None, NaN, longer, shorter, renamed, moved), as files and as strings, in both orders, go '
        'through compare_xml; every line of the report and the file are compared with Report of XmlDoc.tla, which rounds to '
        'seven digits exactly')
ASSUMPTIONS = ['magnitudes between 1e-290 and 1e290 (or zero) and non-finite values; every figure has a value or at least one array',
               'a figure holds a value or arrays, not both']
drive = xmldoc.drive


def tame(doc):
    return all(xmldoc.tame(float(xmldoc.tofloat(x))) or x in ('nan', 'inf', '-inf')
               for f in doc for x in ([f['v']] if f['kind'] == 'value' else sum(f['arr'], [])) if x != 'none')


def scenarios(ctx):
    r = ctx.rng
    em = ctx.mc('MC_XmlDoc', ctx.n('MC_XmlDoc', 'MC_XmlDoc_deep'))
    em = r.sample(em, min(len(em), ctx.n(1200, 20000)))
    calls = [{'e': 'cmp', 'd1': xmldoc.of_tlc(e['d1']), 'd2': xmldoc.of_tlc(e['d2']), 'both': r.random() < .3} for e in em]
    scns = [{'src': 'tlc', 'calls': calls[i:i + 50]} for i in range(0, len(calls), 50)]
    calls = []
    while len(calls) < ctx.n(1200, 20000):
        d1 = xmldoc.document(r, r.random() < .7)
        d2 = xmldoc.variant(r, d1) if r.random() < .95 else xmldoc.document(r)
        if tame(d1) and tame(d2):
            calls.append({'e': 'cmp', 'd1': d1, 'd2': d2, 'both': r.random() < .5, 'as': r.choice(['file', 'file', 'str'])})
    return scns + [{'calls': calls[i:i + 15]} for i in range(0, len(calls), 15)]


def canaries(traces):
    out = []
    for t in traces[::max(1, len(traces) // 15)]:
        for k, e in enumerate(t['ev']):
            if e['lines']:
                out.append(vlib.corrupt(t, ['ev', k, 'lines', 0, 'ok'], not e['lines'][0]['ok']))
                out.append(vlib.corrupt(t, ['ev', k, 'lines'], e['lines'][1:]))
                out.append(vlib.corrupt(t, ['ev', k, 'file'], 'other'))
                break
    return out
