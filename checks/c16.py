"""C16: results survive the XML round trip."""
import vlib
import xmldoc

TRACE = 'Trace_Xml'
RULE = ('the documents enumerated by TLC from MC_XmlDoc and random ones (any doubles by bit pattern, decimals, powers of ten, '
        'subnormals, infinities, NaN, None, integers; arrays of 0 to 17, some of up to 1500 numbers; names and metadata of all kinds) are written '
        'by dict_to_xml to a file, as bytes or text, with decimal points or commas, and read by xml_to_dict; what is read is '
        'compared with Read of XmlDoc.tla; texts that are not XML are read as well')
ASSUMPTIONS = ['names are XML names, different when written in lower case; every figure has a value or at least one array',
               'arrays are one-dimensional']
drive = xmldoc.drive

JUNK = ['', 'x', 'not xml at all', '<a>', '<a></b>', '<a/><b/>', 'K;1;2', '<results><a>1</results>', '<?xml version="1.0"?>', '<',
        '{"a": 1}', '<a b=1/>', '\n\n', 'no/such/file.xml', '<results>&nope;</results>']


def scenarios(ctx):
    r = ctx.rng
    em = ctx.mc('MC_XmlDoc', ctx.n('MC_XmlDoc', 'MC_XmlDoc_deep'))
    docs = {repr(e['d1']): e['d1'] for e in em}
    hows = ['file', 'bytes', 'str', 'bytesfile', 'comma', 'commafile']
    calls = [{'e': 'trip', 'doc': xmldoc.of_tlc(d), 'how': h} for d in docs.values() for h in hows[:3]]
    if len(calls) > ctx.n(1000, 6000):
        calls = r.sample(calls, ctx.n(1000, 6000))
    scns = [{'src': 'tlc', 'calls': calls[i:i + 50]} for i in range(0, len(calls), 50)]
    calls = []
    for _ in range(ctx.n(1200, 20000)):
        doc = xmldoc.document(r)
        for h in r.sample(hows, 2):
            calls.append({'e': 'trip', 'doc': doc, 'how': h})
    for t in JUNK:
        calls += [{'e': 'junk', 'text': t, 'file': f} for f in (False, True)]
    r.shuffle(calls)
    return scns + [{'calls': calls[i:i + 15]} for i in range(0, len(calls), 15)]


def canaries(traces):
    out = []
    for t in traces[::max(1, len(traces) // 15)]:
        for k, e in enumerate(t['ev']):
            if e['e'] == 'trip' and e['got']['doc'] and e['got']['doc'][0]['v'] not in ('none', 'nan', 'inf', '-inf'):
                out.append(vlib.corrupt(t, ['ev', k, 'got', 'doc', 0, 'v'], vlib.bump(e['got']['doc'][0]['v'], 1e-12)))
                out.append(vlib.corrupt(t, ['ev', k, 'got', 'doc'], e['got']['doc'][1:]))
                break
    return out
