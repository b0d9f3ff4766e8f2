from genset import against

EXPLANATION = ('Each generator is read as tables: for every function that writes, the pieces of text it writes under which conditions on the schema (dataflow over the MIR). From the tables the text for a family of '
               'schemas is put together without running anything (every type to depth 3 under every rule in both kinds of declaration, all sequences of rules of up to 3 fields, 0 to 3 declarations, module trees to depth 4, '
               'reserved words). Rule: the modules, type definitions and functions in the text are exactly those the schemas stand for, each once, and what precedes them is the same for all schemas; every condition '
               'in the tables is met by some schema of the family.')
FLOORS = {'obligations': 1500, 'functions': 15}


def check(prog, rep):
    against(prog, rep, {'declared', 'preamble'})
