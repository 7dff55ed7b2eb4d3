"""Contracts established by other checks that each check's proofs use at call sites.

A check also runs the tasks of those checks whose names match, so that a broken callee contract shows up
wherever it is relied on (with a failing input; without one it is left to the callee's own check)."""
NUMBERS = ('C01', 'lemmas|contract|bounded')
AMO = ('C02', 'contract|bounded encodings')
CELLS = ('C27', 'accessors|alloc|proof iter|walks|templates')
FRESH = ('C03', r'construction')
COLOURS = ('C06', 'colour')
DEPENDS = {
    'C03': [NUMBERS, AMO, CELLS],
    'C04': [FRESH, CELLS],
    'C05': [FRESH, CELLS],
    'C06': [FRESH, CELLS, NUMBERS],
    'C07': [FRESH, CELLS],
    'C08': [FRESH, ('C27', '.')],
    'C09': [NUMBERS, AMO, CELLS, FRESH, COLOURS, ('C20', 'operations|files')],
    'C10': [AMO, CELLS, FRESH, ('C08', 'pin')],
    'C11': [NUMBERS, AMO, CELLS, FRESH, COLOURS],
    'C12': [('C27', '.'), FRESH],
    'C13': [NUMBERS, CELLS, FRESH],
    'C14': [('C27', 'templates|alloc')],
    'C16': [('C18', '.')],
    'C22': [('C20', 'operations|files')],
    'C25': [('C27', '.'), FRESH, ('C04', '.'), ('C05', '.'), ('C07', r'wrap=\(False, False\)|wrap=\(True, True\)|bounded'), NUMBERS, ('C12', 'parallel undergrounds|proof parallel|bounded parallel')],
    'C26': [('C27', '.'), FRESH, ('C04', '.'), ('C05', '.'), COLOURS, ('C07', r'wrap=\(False, False\)|bounded'), NUMBERS, AMO],
}
