from mc import fams


RULE = ('every scheduler (HEFT, HEFT-between, topological, LFT, the randomised ones with fixed seeds, HEFT with the average '
        'optimizer and with the momentum timeline, genetic with both decoding schemes) is run on every world of each '
        'family; mc.ref judges the result from the world description alone')
ASSUMPTIONS = ('priorities are >= 1 and do not decrease along a dependency; positive lags are not placed between two works of one '
               'inseparable chain; members of one chain share the requirement of its head',)
A = {'spec', 'indep'}
FAMILIES = [
    fams.fam('spec1of3', fams.spec3, lambda t: fams.ALL8, A), fams.fam('spec2of2', fams.spec2x, fams.ALL8 + fams.sched.GA, A), fams.fam('speccap', fams.spec_cap, fams.ALL8 + fams.sched.GA, A),
    fams.fam('genetic', lambda t: (w for i, w in enumerate(fams.spec3('quick')) if t != 'quick' or len(w['edges']) <= 1), lambda t: ['ga_par', 'ga_ser'], A),
]
