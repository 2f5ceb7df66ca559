"""Spelling of schema names as the harness needs them to reach generated code.

This is the harness' own statement of the documented naming conventions (the
TLA+ module MapryNames states and decides them); it is never imported from the
code under test.
"""


def ucamel(name):
    return ''.join(w[:1].upper() + w[1:] for w in name.split('_'))


def lower(name):
    return name.lower()


IRREGULAR = {'criterion': 'criteria', 'minimum': 'minima', 'maximum': 'maxima', 'matrix': 'matrices', 'life': 'lives', 'focus': 'foci'}
IRREGULAR.update({a.capitalize(): b.capitalize() for a, b in list(IRREGULAR.items())})


def plural(name):
    head, sep, last = name.rpartition('_')
    if last in IRREGULAR:
        last = IRREGULAR[last]
    elif last.endswith('y') and last[-2:-1] not in ('a', 'e', 'i', 'o', 'u'):
        last = last[:-1] + 'ies'
    elif last.endswith(('s', 'x')):
        last += 'es'
    else:
        last += 's'
    return head + sep + last
