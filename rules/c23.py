from genset import against

EXPLANATION = ('The text of the generators, derived from the tables of their writes as for C21. Rule: the code that computes sizes and the code that writes values is, for every type, rule and kind of declaration, '
               'the reference code: header with index, size and whether an integer may be inlined, the payload by type, fallbacks after the field; sizes count exactly these.')
FLOORS = {'obligations': 1500, 'functions': 15}


def check(prog, rep):
    against(prog, rep, {'size', 'write'})
