from mc import fams


RULE = ('every scheduler (HEFT, HEFT-between, topological, LFT, the randomised ones with fixed seeds, HEFT with the average '
        'optimizer and with the momentum timeline, genetic with both decoding schemes) is run on every world of each '
        'family; mc.ref judges the result from the world description alone')
ASSUMPTIONS = ('priorities are >= 1 and do not decrease along a dependency; positive lags are not placed between two works of one '
               'inseparable chain; members of one chain share the requirement of its head',)
A = {'precedence'}
FAMILIES = [
    fams.fam('two', fams.w2, fams.ALL8, A), fams.fam('graphs3', fams.w3, fams.ALL8, A), fams.fam('contested3', fams.w3c, fams.FAST, A),
    fams.fam('graphs4', fams.w4, lambda t: ['heft', 'between', 'lft'] if t == 'quick' else fams.ALL8, A), fams.fam('chain4', fams.chain4, lambda t: ['between', 'heft'] if t == 'quick' else fams.ALL8, A),
    fams.fam('gaps4', fams.w4lag, lambda t: ['between', 'topo'] if t == 'quick' else fams.ALL8, A), fams.fam('priorities', fams.pri3, ['heft', 'between', 'lft'], A), fams.fam('names', fams.named3, ['heft', 'lft', 'rtopo'], A),
    fams.fam('spec', fams.spec3, lambda t: ['heft', 'between', 'lft'] if t == 'quick' else fams.ALL8, A), fams.fam('zones', fams.zones2, ['heft', 'between', 'lft'], A), fams.fam('genetic', fams.ga3, lambda t: ['ga_par', 'ga_ser'], A),
]
