from genset import against

EXPLANATION = ('The text of the generators, derived from the tables of their writes as for C21. Rule: the three types of every declaration (what is written, what is read, the sizes) and the conversion between them '
               'are the reference ones: optional fields may be absent on both sides, asymmetric ones only when reading; optional and asymmetric choices carry a fallback when writing, only optional ones when reading.')
FLOORS = {'obligations': 1500, 'functions': 15}


def check(prog, rep):
    against(prog, rep, {'type', 'convert'})
