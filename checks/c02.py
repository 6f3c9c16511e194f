"""C02: a malformed descriptor is rejected, never silently misread."""
import desc

TRACE = 'Trace_Desc'
RULE = ('files over a block alphabet (enumerated by TLC from MC_Descriptor) and random descriptors with one to three planted '
        'flaws are parsed by the real parser; the outcome must be one of the errors the parser machine of Descriptor.tla '
        'derives from the bytes of the file, or the exact reading if it derives none')
ASSUMPTIONS = ['ASCII text; white space is blanks and tabs; numerals are decimal (no inf, nan, underscores)',
               'of a file with several flaws any of their errors is accepted']
drive = desc.drive


def scenarios(ctx):
    em = ctx.mc('MC_Descriptor', ctx.n('MC_Descriptor', 'MC_Descriptor_deep'))
    scns = desc.from_tlc(em, ctx)
    r = ctx.rng
    for _ in range(ctx.n(200, 2500)):
        files = []
        for _ in range(6):
            b = desc.wellformed(r)
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                b = desc.flaw(r, b)
            files.append(desc.scenario(r, b))
        scns.append({'files': files})
    return scns


def canaries(traces):
    return desc.canaries(traces, 'C02')
