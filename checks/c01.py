"""C01: a well-formed descriptor is read completely and exactly."""
import desc

TRACE = 'Trace_Desc'
RULE = ('files over a block alphabet (enumerated by TLC from MC_Descriptor) and random well-formed descriptors in random '
        'layout, folders and path arguments are parsed by the real parser; every parse is an event validated against the '
        'parser machine of Descriptor.tla run by TLC on the bytes of the file')
ASSUMPTIONS = ['ASCII text; white space is blanks and tabs; numerals are decimal (no inf, nan, underscores)',
               'image lines outside a series and unknown commands are not decided']
drive = desc.drive


def scenarios(ctx):
    em = ctx.mc('MC_Descriptor', ctx.n('MC_Descriptor', 'MC_Descriptor_deep'))
    scns = desc.from_tlc(em, ctx)
    r = ctx.rng
    for _ in range(ctx.n(120, 1500)):
        scns.append({'files': [desc.scenario(r, desc.wellformed(r)) for _ in range(6)]})
    return scns


def canaries(traces):
    return desc.canaries(traces, 'C01')
