import subprocess, json, os, glob
head = r'''# Verification of Python-causets with an explicit TLA+ specification

## 1. Language and tool

**TLA+, checked with TLC.** The library is a collection of set-valued
definitions (pasts, futures, links, intervals, layers, ...) and of methods that
maintain them incrementally. TLC evaluates such definitions directly, enumerates
all small orders and all behaviours of the state machines, and - through the
CommunityModules `Json`/`IOUtils` - reads recorded runs of the real code. So one
text serves three purposes: it is *model checked* by itself, it *generates*
histories that are replayed in the real code, and it is the *oracle* that judges
what the real code answered. Quint was not used: its simulator cannot read a
recorded file as a constant, and the recursive set definitions (paths, layers,
distance matrices) would have to be unrolled for Apalache.

## 2. Architecture

    spec/Order.tla ...            definitions and state machines
      | TLC: model checking       (Theorems, invariants of the specification)
      | TLC: Gen*.tla, Posets     (every order, every transition, simulation)
      v
    vlib/*checks.py               histories (from TLC or seeded random) as JSON
      v
    harness/*_driver.py           replays them in /repo through public methods,
      |                           records every answer (one subprocess per shard)
      v
    spec/*Trace.tla               TLC reads the records, steps the state machine
                                  along, and names the clauses that are wrong

* `check.py Cxx` runs one property: exit 0, or exit 1 with
  `VIOLATION property=Cxx replay=<file>`; the replay file holds the failing
  history and the clauses. It writes `evidence/Cxx.json` with the numbers of
  model states, generated behaviours, recorded steps and judged answers.
* No Python oracle: the harness only records (and for real-valued quantities
  quantises); every verdict is a TLC evaluation. Driver subprocesses have time
  limits, so a hanging method is a verdict ("did not finish"), not a hang.
* A trace module never gets stuck: after a wrong step it reports the clause and
  continues, so that one failure does not hide the others; clauses of a shared
  trace module belong to properties (`clauses` in the check modules), so that
  each check reports only its own property.
* Every specification module that states something non-obvious is model checked
  by itself (section 4), so the oracle is not just an unchecked second
  implementation.
* The checks import the code from `/repo` of the moment (`causets` on
  `sys.path` is a link to /repo in a scratch directory); nothing is built or
  cached. There are no hooks in /repo: everything needed is public.

Variables the real interpreter chooses are part of the generated input: set
iteration order is varied with dummy insertions, different insertion orders of
events and PYTHONHASHSEED-independent object identity; random generators get
recorded seeds.

### 2.1 TLA+ modules

| Module | Content |
|---|---|
| Order | orders, links, regions, intervals, paths, ranks, layers, sorting, components, central antichains, interval cards, distance matrices, antipaths |
| Posets | generator of all naturally labelled orders; theorems about Order |
| Histories | state machine of events and several causets: create, merge, causet, add, discard, disjoin, link, unlink, lazy queries |
| GenHistories | every transition out of every distinct state, simulation |
| LinkMemory | implementation level: `_prec/_succ/_lprec/_lsucc` and the loops of the methods as micro steps with every set iteration order |
| Algorithms | the algorithms of the order queries step by step, every iteration order; equal to the meanings in Order |
| Families | permutations, chains, simplices, fences, crowns; matrices |
| Events, GenEvents | life cycle of event attributes and copies |
| Spacetimes, SpacetimeThm | exact causal structure on integer lattices; order theorems |
| Embedded, GenEmbedded | state machine of EmbeddedCauset |
| Sprinkling, GenSprinkling | account of intensity and cardinality |
| Construct, GenConstruct | consistency of spacetime, shape, coordinates, dim |
| Shapes | validity, extents, volume and points of coordinate shapes |
| Uniform | volume shares of parts of a region; acceptance of counts |
| SpacetimeObjects | accepted spacetime requests and their attributes |
| Newton | Newton's method with a restricted domain as state machine |
| Plots | the scene of a plot: markers, segments, labels, opacities |
| Cones | points covered by drawn light cones |
| DrawnShapes | cut of a shape along plotted coordinates |
| Edges | outlines and surfaces of the shape builders |
| Settings, SettingsMC | settings of plots: state of the colours, documented defaults, expected entries of every group; calls of setDefaultColors in any order |
| Printed, PrintedMC | printed forms of events in a history, of spacetimes and shapes |
| Colours, GenColours | colour schemes and default colours |
| Harmonic | harmonic numbers with modular and fixed point arithmetic |
| *Trace | validation of recorded runs of the driver of the same name |

### 2.2 Properties of TLC that shaped the text

* `\E P, F \in SUBSET S` with S = {} was evaluated wrongly in an action (shared
  bound); separate quantifiers are used.
* Function constructors are lazy; nested ones that depend on recursive
  definitions are wrapped in `TLCEval`, likewise LET values passed to recursive
  operators (otherwise exponential re-evaluation).
* Integers have 32 bits: lattices are chosen so that products stay below 2^31
  (de Sitter times |k| <= 4, shapes in 1/Q of a unit, densities scaled).
* `SequencesExt` is not extended (name clashes), `Print` is a TLC operator.
* Precedence `a /\ b => c` and DOMAIN need parentheses.

## 3. Properties

For each property: what is specified (S), what is enumerated/generated and
replayed (G), bounds and cost (B), and why unit tests cannot settle it (T).
Quick wall times were measured on 8 cores; thorough tiers raise the bounds as
given in the check functions.
'''
props = {}
for l in open('properties.jsonl'):
    d = json.loads(l)
    props[d['id']] = d['title']
T = {}
def p(k, **kw): T[k] = kw
p('C01', S='Histories: creation and merging as closure of relations; LinkMemory: the loops of `__init__` and merge as micro steps. Invariant IsOrder, both ends agree.',
  G='LinkMemory with 3 events, every set iteration order; every transition out of every distinct state with 3 events (2 to 4 in thorough), TLC simulations, random histories of up to 14 events with several causets, one-shot iterables and empty arguments.',
  B='26 s; about 6200 histories', T='the closure depends on what was named, in which order, on top of which history')
p('C02', S='All query forms are defined from one relation (Order).', G='All orders of up to 5 events, random orders of up to 14, histories; all ordered pairs.', B='12 s', T='agreement of 20 entry points on every reachable state')
p('C03', S='LinkMemory (implementation level) against the covering relation; Histories with link, unlink and lazy queries as state.', G='LinkMemory, N=3 exhaustively (4 in thorough); every transition with link state; simulations, random histories with shuffled sets.', B='31 s; about 6700 histories', T='link memory is repaired incrementally; failures need a certain cache state and iteration order')
p('C04', S='Disjoin in Histories and LinkMemory.', G='Every event of every order of up to 4 events (5) with all/none/some/causet-wide links, then further operations.', B='18 s', T='needs "only event between" constellations in each cache state')
p('C05', S='Causets as sets with the closure on construction (Histories).', G='Every transition with one causet, simulations with three, random histories; operators with lists, tuples, sets, causets, iterators and the causet itself on both sides.', B='20 s', T='algebraic laws over all operand kinds and histories')
p('C06', S='Families: the documented orders as set comprehensions.', G='All permutations up to 4 (5), random up to 40 (70); simplices up to dimension 9 (10), fences of all sizes up to 7 x 4 and random up to 24 x 6, all label formats.', B='14 s', T='parameters are unbounded, errors start at certain sizes (vertex 10, height 2)')
p('C07', S='Closure of a logical matrix, consistency, default order (Families/Histories).', G='All matrices of up to 3 events, random ones up to 9 with several dtypes, delimiters, memory orders, missing rows; writing and reading back; streams.', B='11 s', T='loops of any length, link-only matrices in any order')
p('C08', S='Regions by set comprehension (Order), theorems on intervals.', G='Orders up to 5 (6) events, random up to 14, larger ones with sampled queries; histories with queries before and after changes.', B='11 s', T='holds for every event set and order')
p('C09', S='IsChain, IsAntichain, IsPath.', G='All subsets of all orders of 4 (5) events, also as list, tuple, iterator.', B='12 s', T='all subsets, not sampled ones')
p('C10', S='Recursive set of maximal chains between two events (checked against path predicates).', G='As C08 with all pairs, lengths and ranges.', B='11 s', T='completeness and absence of duplicates need the full set')
p('C11', S='Breadth first distance over links; checked equal to the shortest path.', G='As C08.', B='12 s', T='shortest among several paths')
p('C12', S='LayerNum by the largest interval; Peel for layered(); theorems on partition.', G='As C08; layered only for convex subsets (see 5).', B='10 s', T='largest interval over all members')
p('C13', S='Acceptance predicate: permutation of the set that respects the order/labels.', G='As C08; labels int, float, str, None, equal.', B='10 s', T='nondeterministic result; each accepted order must be a linear extension')
p('C14', S='Components by growth; theorem: connected and separated.', G='As C08, more sparse orders.', B='12 s', T='long connections through many hops')
p('C15', S='Acceptance predicate of the greedy choice; theorem: exists and is maximal.', G='As C08.', B='10 s', T='tie breaks and signs')
p('C16', S='Widening distances, antipaths; theorems: symmetric, zero diagonal, sound.', G='As C08 with all searching/intersecting combinations.', B='13 s', T='distances need several widenings')
p('C17', S='Frame condition: the observed state after a query is the state before, arguments kept, answers repeated.', G='Orders up to 5 events, random, histories; all query methods; collections of all kinds.', B='13 s', T='over all queries and argument kinds')
p('C18', S='Embedded: relation of the members by coordinates, links, labels.', G='Every transition (EmbeddedMC: 6 spacetimes), simulations and random histories on lattices of all spacetimes; permutations; relabel.', B='19 s', T='histories mixing relate=True/False, discards')
p('C19', S='Spacetimes: exact integer light cones; theorems on lattices (partial order).', G='All pairs of lattice points, 2 to 4 dimensions, periods, radii; random real points as partial order.', B='14 s', T='exactness at the boundary, all charts')
p('C20', S='Membership of points in widened regions, counts, seeds.', G='Grid of shapes, dimensions 1-6, centres, hollow fractions; explicit shapes.', B='9 s', T='every point of every sprinkle')
p('C21', S='Sprinkling: intensity as exact fraction.', G='Every transition, simulations, random histories.', B='7 s', T='account over a history')
p('C22', S='Closed forms (volume as rational times a power of pi).', G='Grid of shapes, dimensions, parameters, invalid requests.', B='5 s', T='formula over all dimensions')
p('C23', S='Events: attribute life cycle, copies frozen.', G='Every transition with 3 events, random histories of 25 steps; argument collections changed after each call.', B='13 s', T='aliasing shows only after later changes')
p('C24', S='Construct: consistency and expected result of a request.', G='Every combination of arguments (GenConstruct).', B='11 s', T='product of argument kinds')
p('C25', S='Plots: the scene; exact fading; cut links.', G='All switch combinations, modes, random events, collinear and gaps, diagrams of all permutations up to 4.', B='15 s', T='exactly - nothing more - for every axis order and time')
p('C26', S='Cones: covered lattice points by exact causality.', G='Random events, slices, axes, periods, radii, metrics.', B='20-26 s', T='drawn geometry is independent code that must agree with Causality()')
p('C27', S='Colours: scheme machine.', G='Every transition, random histories of setting and plotting; every scheme and key.', B='7 s', T='global state over histories')
p('C28', S='Harmonic: recurrences with residues modulo primes and fixed point bounds.', G='All n up to 2000, doubling chains up to 4e15, thresholds.', B='6 s', T='all n')
p('C29', S='DrawnShapes: point in/out/on.', G='All shapes, axes, random and exact boundary points.', B='16 s', T='drawing code per axis order')
p('C30', S='Uniform: shares of parts; shares model checked against cell counts (UniformMC).', G='2000 events (4000) per shape in 1-6 dimensions, many small sprinkles, repeated intensities; six sigma.', B='26 s', T='a distribution, not single values')
p('C31', S='Newton: state machine of steps over tables of f and f\'.', G='All problems on two places (model: three), tables up to 15 places, powers.', B='12 s', T='clamping and the limits matter on special sequences')
p('C32', S='SpacetimeObjects: accepted requests and what the object tells.', G='Every request (GenSpacetimeObjects) in random sequences of 1 to 5.', B='5 s', T='product of argument kinds; shared state between objects')
p('C33', S='Edges: closed parts, corners, regular rings, faces, rows of surfaces.', G='Random sizes, hollow fractions, axes, samplings, optional arguments left out.', B='8 s', T='every parameter of every builder; no test calls them')
p('C34', S='Settings: state of the colours, documented defaults, on/off switches, user entries, axis limits; SettingsMC: setDefaultColors in any order.', G='Random sequences of colour settings, requests and plots (2D, 3D, causets and lists of events); arguments compared before and after.', B='18 s', T='every combination of arguments and histories of settings; tests never look at an artist')
p('C35', S='Printed: the texts of events in a history of relations and labels, of spacetimes and shapes; PrintedMC: same text only for same labels, links and relations decide the form.', G='Random histories of up to 18 steps with labels of all kinds; random spacetimes and shapes.', B='18 s', T='the form depends on the history of links and relations; falsy labels')
body = ''
for k in sorted(props):
    t = T[k]
    body += '\n### %s %s\n\n* S: %s\n* G: %s\n* B: %s\n* T: %s\n' % (
        k, props[k], t['S'], t['G'], t['B'], t['T'])
tail = r'''
No property is listed as not applicable.

## 4. Model checking of the specification itself

* Posets: every order of up to 4 (thorough 5) events against IntervalThm,
  PathThm, LayerThm, ComponentThm, CentralThm, DistanceThm and the closure of
  links (OrderOK).
* Histories: IsOrder, closedness, the frame conditions of every action.
* LinkMemory: memory of linked events = covering relation whenever idle, for
  every iteration order of every loop; with `Relate`, `Repair` or `Relink`
  FALSE - the algorithms of the pinned commit - TLC finds the counterexamples
  that became the fixes 66f0bc1, 6d4da3d and 8cd2f75.
* Algorithms: exchange sort, growth of pieces, greedy central antichain, two-sided
  ranks, layers by numbers, tests by counting, path search with pruning, distance
  matrices with updates in place. For all orders of up to 4 or 5 (thorough 5 or 6)
  events and every iteration order the result is the one defined in Order (or, for
  the greedy antichain, the set of results is exactly the accepted one). This shows
  that the definitions used as oracle are neither too strong nor too weak for the
  intended algorithms.
* SpacetimeMC: reflexivity, antisymmetry, transitivity on all lattices.
* EmbeddedMC, GenEvents, GenColours, GenSprinkling, GenConstruct: invariants and
  frame conditions along the generated behaviours.
* UniformMC: shares of parts against counted cells. Newton (GenNewton):
  evaluation stays within the limits, result is a fixed point or the default.

## 5. Decisions on the domain

Outside of what is promised (documentation, types or explicit remarks), hence
not generated:

* `causetpermutations.py` is unfinished (raises or has no implementation);
  NewKROrder raises NotImplementedError; AdS light cones are not implemented.
* PastInf/FutureInf of a causet are the events without past/future *at all*
  (also outside the causet), as the code documents.
* merge is used with closed disjoint sets; layered() with causally convex
  subsets (it peels by cardinality); Paths with a range ending in -1 excluded.
* Labels are int, float, str or None.
* `SprinkledCauset(card < 0)` ignores the number silently (not claimed).
* Dynamic Hasse diagrams, time depth 0.
* The 3D ConePlotter returns surface data (documented) instead of artists.
* C26: de Sitter cones only for zero coordinates along hidden directions;
  inside the Schwarzschild horizon the future cone is not cut at the slice;
  events on the Schwarzschild horizon excluded (those on the horizon in
  Eddington-Finkelstein coordinates are covered).
* A hollow cylinder is hollow in space only (a pipe).
* The Past and Future properties return the internal set; changing the returned
  set is the caller's fault (aliasing is not claimed; copies are).

## 6. False alarms met and corrected

* C18: links of discarded events were judged before it was clear what they
  should be; they are again since relate() drops such relations at both ends.
* C19/C18: black hole points exactly on light rays have irrational coordinates;
  either answer is accepted there (OnRay), but still one of the two directions.
* C22: MaxEdgeHalf of round shapes and hollow one-dimensional shapes.
* C26: spurious-edge detection is off for Schwarzschild cones across the horizon
  (sampling gap), points close to the drawn edge are "undecided" (2).
* C25: opacity at the very end of a linear fading is zero up to rounding.
* C20: even-distribution clauses with few points were replaced by C30, whose
  thresholds are six standard deviations with seeded generators.

## 7. Defects found and repaired

All are `fix:` commits in /repo, listed in known_findings.txt as "fixed:"; there
is no open finding. Reverting each was confirmed to raise the violation again
for the recent ones. The list:

'''
fixes = [l.strip() for l in open('known_findings.txt') if l.startswith('fixed')]
for l in fixes:
    w = l.split(' ', 3)
    tail += '* %s `%s` %s\n' % (w[1].split('=')[1], w[2], w[3])
tail += r'''
## 8. Planted bugs

Written from the text of a property and the code, confirmed with
`tools/plant.py` (applies, builds, passes the stable tests, demo fails with it
and passes without). "Caught" is the quick check of the property.

| Bug | Property | What it breaks | Caught by |
|---|---|---|---|
'''
caught = json.load(open('seeded/caught.json')) if os.path.exists('seeded/caught.json') else {}
for s in sorted(glob.glob('seeded/s*')):
    if not os.path.isdir(s): continue
    m = json.load(open(s + '/meta.json'))
    k = os.path.basename(s)
    tail += '| %s | %s | %s | %s |\n' % (k, m['property'], m['what_it_breaks'].replace('|','/'), m.get('caught_by', m['property']))
tail += open('/verif/tools/design_missed.txt').read() if os.path.exists('/verif/tools/design_missed.txt') else ''
open('DESIGN.md', 'w').write(head + body + tail)
