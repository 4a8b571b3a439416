'''All checks: property -> (check, clauses); notes for MANIFEST.json.'''
from . import orderchecks, geochecks, eventchecks, plotchecks

CHECKS = {}
for _p, _f in orderchecks.CHECKS.items():
    CHECKS[_p] = (_f, orderchecks.clauses)
for _m in (geochecks, eventchecks, plotchecks):
    for _p, _f in list(vars(_m).items()):
        if _p[:7] == 'check_C':
            CHECKS[_p[6:]] = (_f, getattr(_m, 'clauses_' + _p[6:]))

TECHNIQUE = {}
NA = {}
_ORDER = ' The verdict on every recorded step and answer is the definition ' \
    'in Order.tla/Histories.tla evaluated by TLC. Bounded: exhaustive on ' \
    'small orders, seeded random above. Trusted: TLC, the driver that ' \
    'records public results, CPython.'
_SMALL = 'All orders of up to 5 events (thorough: 6) in shuffled insertion ' \
    'orders plus seeded random orders and histories of up to 16 events, ' \
    'asked through the public interface.'
NOTES = {
    'C01': 'Model checked: the state machine of all operations and the '
           'implementation-level loops with every set iteration order (3 '
           'events). Conformance: every transition of the state machine with '
           '3 events (thorough: 4), TLC-simulated and random histories of up '
           'to 14 events.' + _ORDER,
    'C02': _SMALL + _ORDER,
    'C03': 'Model checked: link memory at implementation level, every set '
           'iteration order, 3 events (thorough: 4). Conformance: every '
           'transition including link/unlink/lazy queries, simulated and '
           'random histories with randomised set orders.' + _ORDER,
    'C04': 'Every event of every order of up to 4 events (thorough: 5) in '
           'all/some/no linked states, plus all transitions and random '
           'histories.' + _ORDER,
    'C05': 'Every transition with one causet object, simulated and random '
           'histories with several causets.' + _ORDER,
    'C06': 'All permutations of up to 4 (thorough: 5) numbers, random ones '
           'up to 13, chains, antichains, simplices up to 5 dimensions, '
           'fences of all lengths/heights up to 7 x 4 incl. degenerate ones, '
           'all label formats.' + _ORDER,
    'C07': 'All logical matrices of up to 3 events, random consistent and '
           'inconsistent ones up to 9, files with several delimiters, '
           'writing and reading back.' + _ORDER,
}
for _p in ('C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16',
           'C17'):
    NOTES[_p] = _SMALL + _ORDER

NOTES.update({
    'C18': 'Model checked: membership/relation state machine of embedded '
           'causets (EmbeddedMC). Conformance: every transition of the '
           'generated histories of creating, discarding and relating events '
           'on lattice coordinates of each spacetime, simulated and random '
           'longer ones; TLC recomputes order and links from the exact '
           'lattice causality. Bounded: up to 16 events.',
    'C19': 'Model checked: irreflexivity, antisymmetry and transitivity of '
           'the specified causality on whole lattices. Conformance: all pairs '
           'of lattice points of each spacetime (2 to 4 dimensions, periods, '
           'several radii), in both argument orders; TLC evaluates the exact '
           'integer form of the light cone condition (Eddington-Finkelstein '
           'points also on the horizon, de Sitter points also beyond it). '
           'Points on black hole light rays (irrational) are left open.',
    'C20': 'Numbers, shape, seeds, dimension, centre and hollow fraction '
           'drawn from grids; TLC decides membership of every sprinkled '
           'point in the (slightly widened) region, the count, and whether '
           'the region is spanned.',
    'C21': 'Every transition of the intensity state machine, simulated and '
           'random histories; the sums are kept in the specification as '
           'exact fractions, compared within rounding.',
    'C22': 'Grid of all shapes x dimensions x parameters x centres including '
           'invalid ones; volumes and extents are the closed forms of '
           'Shapes.tla.',
    'C24': 'Every combination of spacetime, shape, coordinates and dim '
           'argument of the specification (several thousand constructions).',
})
NOTES.update({
    'C30': 'Model checked: the shares of all parts agree with counted cells '
           'of a fine grid (1 to 3 dimensions). Conformance: sprinkles of '
           '2000 events (thorough: 4000) into all shapes in 1 to 6 '
           'dimensions, many small ones, repeated intensities; TLC judges '
           'every part, successive pairs, mean and dispersion at six '
           'standard deviations (false alarm below 1e-6 per run).',
    'C32': 'Every request of the specification (classes, dimensions -1 to 4 '
           '(thorough: 5), argument kinds and values) in random sequences; '
           'all objects are looked at after all were made and used.',
    'C33': 'Random centres, sizes, hollow fractions, axes and sampling sizes '
           '(400 cases, thorough 5500; with and without optional '
           'arguments); TLC decides the outline and surface conditions of '
           'Edges.tla on points in ten thousandths.',
    'C34': 'Model checked: calls of setDefaultColors in any order. Conformance: '
           'random sequences of colour settings, requests and plots (1750 '
           'sequences, thorough 22500), every keyword argument left out, on, '
           'off or with random entries, 2D and 3D; TLC builds the expected '
           'settings from Settings.tla and compares returned settings, '
           'artists and axes. Open: empty dictionaries, look of link gaps, '
           'limits when a shape is given without axislim.',
    'C35': 'Model checked: histories of up to 2 (thorough 3) events. '
           'Conformance: random histories of up to 7 events with labels of '
           'all kinds (1500, thorough 20000), random spacetimes and shapes '
           '(800, thorough 8000); TLC builds the texts from Printed.tla. '
           'Numbers of shapes are compared in thousandths.',
    'C31': 'Model checked and replayed: all problems on two places '
           '(thorough: checked on three), random tables of up to 15 places, '
           'roots of powers. The expected result is the state machine of '
           'Newton.tla.',
})
NOTES.update({
    'C23': 'Every transition of the event life cycle with 3 events and '
           'copies (all argument kinds, valid and rejected), random histories '
           'of up to 25 steps; argument collections are changed after every '
           'call. Model checked: frame conditions, frozen copies.',
    'C25': 'All combinations of switches in all modes and kinds of plotted '
           'objects, random event lists, causets, axis choices, time depths '
           'and fadings, all permutations of up to 4 (thorough: 5) numbers as '
           'diagrams; the artists on the axes are compared by TLC with the '
           'scene of Plots.tla (opacities in parts per thousand), the '
           'handles of every call with these artists, and again at the end.',
    'C26': 'Random events, slices, axis orders (2D and 3D), periods, de Sitter radii and both black hole metrics; every drawn cone is asked about lattice points whose causal relation TLC decides exactly.',
    'C29': 'All shapes in 2 to 5 dimensions with random parameters and axis orders; TLC decides for random points and exact boundary points whether they are inside, outside or on the boundary.',
    'C27': 'Every transition of the colour scheme machine, random histories '
           'of setting, resolving and plotting; TLC resolves every colour in '
           'the tables of the code and judges the colours of the drawn '
           'artists.',
    'C28': 'Every n up to 2000 with exact fixed point and modular arithmetic '
           'in the specification, doubling chains up to 4e15, thresholds from '
           '20 on. Trusted: primes do not hide a wrong fraction (1e-9).',
})
