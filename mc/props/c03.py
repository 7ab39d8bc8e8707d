""" C03: simple and triad statistics """
from .. import statcheck

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of event sequences up to a depth (plus pumped long sequences) fed to the real statistics classes, compared with counts computed from the definition'
RULE = 'a case is a prefix of events; all continuations up to the depth bound over an alphabet covering plain, shifted, doubly modified, white space (plain and shifted) and skip events are fed; every sequence is distinct'
ASSUMPTIONS = ['events of one writer on one keyboard (ibmpc105)']

LAYERS = [
    ([[]], {'Dl1': 'a', 'Dr3': 'b', 'Cl4': '\u0644\u0627', 'Fl_space': ' ', 'Fr_space': ' ', 'CD_ret': '\n', 'Cl_tab': '\t'}),
    ([['El_shift'], ['Er_shift']], {'Dl1': 'A', 'Dr3': 'B', 'Fl_space': '\u00a0', 'CD_ret': '\r'}),
    ([['El_shift', 'Fr_altgr']], {'Dl1': 'D'}),
    ]
EVENTS = [
    ('comb', 'a', (frozenset (), 'Dl1')),
    ('comb', 'b', (frozenset (), 'Dr3')),
    ('comb', 'A', (frozenset (['Er_shift']), 'Dl1')),
    ('comb', 'D', (frozenset (['El_shift', 'Fr_altgr']), 'Dl1')),
    ('comb', ' ', (frozenset (), 'Fl_space')),
    ('comb', ' ', (frozenset (), 'Fr_space')),
    ('comb', '\n', (frozenset (), 'CD_ret')),
    ('comb', '\t', (frozenset (), 'Cl_tab')),
    ('comb', '\u00a0', (frozenset (['El_shift']), 'Fl_space')),
    ('skip', 'x'),
    ('skip', ' '),
    ]
KINDS = ('simple', 'triads')
SUITES = statcheck.suites (LAYERS, EVENTS, KINDS, ('a', 'A', 'b', ' ', '\u0644\u0627', '\ufffd', '\n', 'D'))

# white space keys used as modifiers do not make white space
MODLAYERS = [LAYERS[0], ([['Fl_space'], ['Cl_tab', 'CD_ret'], ['Fr_space', 'El_shift']], {'Dl1': 'E', 'Dr3': 'F'}), ([['Dl2']], {'Fl_space': 'G', 'Dr3': 'H'})]
MODEVENTS = [EVENTS[0], EVENTS[4], EVENTS[9],
    ('comb', 'E', (frozenset (['Fl_space']), 'Dl1')), ('comb', 'E', (frozenset (['Cl_tab', 'CD_ret']), 'Dl1')), ('comb', 'F', (frozenset (['Fr_space', 'El_shift']), 'Dr3')),
    ('comb', 'G', (frozenset (['Dl2']), 'Fl_space')), ('comb', 'H', (frozenset (['Dl2']), 'Dr3'))]
more = [x for x in statcheck.suites (MODLAYERS, MODEVENTS, KINDS, ()) if x.name == 'sequences']
more[0].name = 'unusual-modifiers'
SUITES += more
