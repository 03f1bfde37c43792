from mc import fams


RULE = ('every scheduler (HEFT, HEFT-between, topological, LFT, the randomised ones with fixed seeds, HEFT with the average '
        'optimizer and with the momentum timeline, genetic with both decoding schemes) is run on every world of each '
        'family; mc.ref judges the result from the world description alone')
ASSUMPTIONS = ('priorities are >= 1 and do not decrease along a dependency; positive lags are not placed between two works of one '
               'inseparable chain; members of one chain share the requirement of its head',)
A = {'feasible', 'offset'}
FAMILIES = [
    fams.fam('feasibility', fams.infeas, fams.ALL8 + fams.sched.GA, A), fams.fam('speccap', fams.spec_cap, fams.ALL8, A), fams.fam('offset', fams.start3, fams.ALL8, A),
    fams.fam('two', fams.w2, fams.ALL8, A), fams.fam('graphs3', fams.w3, fams.FAST, A), fams.fam('offsetGA', lambda t: (w for w in fams.start3('quick') if t != 'quick' or len(w['edges']) <= 1), fams.sched.GA, A),
]
