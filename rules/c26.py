from genset import against

EXPLANATION = ('The text of the generators, derived from the tables of their writes as for C21. Rule: the code that reads values is, for every type, rule and kind of declaration, the reference code: fields by index, '
               'unknown ones skipped, missing required ones an error, fallbacks read for optional choices only, payloads by type.')
FLOORS = {'obligations': 700, 'functions': 15}


def check(prog, rep):
    against(prog, rep, {'read'})
