import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
ce='causetevent.py'; cs='causet.py'; em='embeddedcauset.py'; sp='sprinkledcauset.py'; st='spacetimes.py'; sh='shapes.py'
p('C01','Precedence stays a strict partial order through any history',
 "After any sequence of creating events (naming any consistent past and future events), merging causets and building causets from the results, precedence is irreflexive, antisymmetric and transitive. Creating an event or merging two causets that are not yet related adds exactly the relations implied by the named past and future and by transitivity, and changes no other pair. Both ends always agree: a is in the past of b exactly when b is in the future of a.",
 ['histories','inputs'],'all histories of event creation (past and/or future given, linked or not), Causet construction and merge, for all reachable finite orders and any internal set iteration order',
 'Tests build a handful of fixed causets with past= only; they never combine past= and future=, never merge twice, and never look at both ends of a relation.',
 [ce,cs],[('CausetEvent.__init__ propagates past and future',ce),('CausetEvent._addToPast/_addToFuture',ce),('Causet.merge',cs),('Causet.__init__ closure',cs)],
 [('_prec/_succ','past and future set of an event',ce)],['a.Past','a.Future','a < b'])
p('C02','All ways of asking about causality agree',
 "For any two events in any reachable state, the operators <, <=, >, >=, isCausalTo and isSpacelikeTo, the sets Past, Future, Cone, PresentOrPast, PresentOrFuture and Spacelike(S), and the cardinalities PastCard, FutureCard, ConeCard and SpacelikeCard(S) all describe one and the same relation. Exactly one of 'a before b', 'a after b', 'a is b' and 'a spacelike to b' holds.",
 ['histories','inputs'],'all pairs of events and all argument sets S, in every state reachable by creating, merging and disjoining events',
 'Tests only compare set sizes of a few fixed causets; no test calls isSpacelikeTo, Spacelike, SpacelikeCard or the comparison operators.',
 [ce],[('comparison operators and cone properties',ce)],[('_prec/_succ','past and future set',ce)],['public methods of CausetEvent'])
p('C03','Links are always exactly the covering relation',
 "Whenever links are queried (LinkPast, LinkFuture, LinkCone and their cardinalities, isPastLink, isFutureLink, isLinkedTo, isLink on a related pair, LinkCount, LinkCountOf), the answer is exactly the pairs a before b with no event strictly between them at that moment. This does not depend on which events had their links computed, cached, reset or incrementally updated before, nor on earlier event creations, merges, disjoins, discards, link() or unlink() calls. link() makes hasBeenLinked() true and unlink() makes it false, and neither fails in any state.",
 ['histories','schedules'],'all interleavings of link-memory operations (event-level and causet-level link/unlink, lazy computation by a query) with relation-changing operations, and all internal set iteration orders',
 'Link memory is a cache that is updated incrementally; the existing tests never change relations after links were computed, and the result may depend on set iteration order, which a test run samples once.',
 [ce,cs],[('incremental link maintenance in _addToPast/_addToFuture/_discard',ce),('CausetEvent.link/unlink, lazy link',ce),('Causet.link/unlink/merge',cs)],
 [('_lprec/_lsucc','cached link past and future',ce)],['LinkPast','LinkFuture','LinkCount'])
p('C04','Disjoining an event removes it and nothing else',
 "After e.disjoin(), in any state and whether or not links were computed before, e is spacelike to every event and every other event has lost exactly e from its past and future. The relations between all other events are unchanged, and their links are exactly the covering relation of the remaining order (new links appear where e was the only event between).",
 ['histories','schedules'],'all orders, all choices of the disjoined event(s), all link-memory states, all set iteration orders',
 'disjoin is not called by any existing test, and its link repair depends on the order in which neighbours are visited.',
 [ce],[('CausetEvent.disjoin and _discard',ce)],[('_prec/_succ/_lprec/_lsucc','relations and link memory',ce)],['all event queries after disjoin()'])
p('C05','A causet behaves as a mathematical set of events',
 "A new Causet contains exactly the given events and everything connected to them through causal relations; add and discard change the membership as set union and difference and nothing else. Membership, iteration, Card, Causet.len, the operators -, |, &, ^ (with the causet as left or as right operand), difference, union, intersection, symmetric_difference, find, findAny and findAll agree with that set. None of the set operators changes its operands.",
 ['histories','inputs'],'all histories of construction, add and discard, and all operand kinds (causet, set, list; left or right operand)',
 'Tests use one pair of causets and only Causet-Causet operands; add, discard, reflected operators and closure of indirectly related events are not exercised.',
 [cs],[('Causet.__init__ closure loop',cs),('operators, add, discard, find*',cs)],[('_events','member set',cs)],['public set interface of Causet'])
p('C06','Generated families have their documented order',
 "For every parameter, FromPermutation gives the 2D order of the permutation (i before j exactly when i<j in value and in position), NewChain a total order, NewAntichain the empty order, NewSimplex the proper inclusion order of the non-empty faces (with or without the full face), and NewFence and NewCrown the layered order in which each event above the first layer is linked to its two neighbours below (one at the open end). Event count, labels (including the labelFormat variants) and relations are exactly as documented; degenerate sizes give the empty causet.",
 ['inputs','configurations'],'all permutations, all sizes n, simplex dimensions, fence lengths, heights, closed or open, and label formats',
 'Tests check the cardinality and the chain/antichain predicate for about a dozen fixed parameters, never which event precedes which.',
 [cs],[('FromPermutation, NewSimplex, NewFence',cs)],[],['Causet.* factories'])
p('C07','Causal matrices and files represent the order faithfully',
 "PastMatrix, FutureMatrix, LinkPastMatrix and LinkFutureMatrix hold exactly the (link) relation of the events in the given or the default order, for any dtype. FromPastMatrix and FromFutureMatrix (also with missing trailing rows, and from link-only matrices in any index order) and saveAsCSV/FromTextFile rebuild exactly the transitive closure of the matrix, seen alike from both ends, and a matrix with a causal loop of any length, or with more rows than columns, raises ValueError.",
 ['inputs'],'all causets, all event orderings and all square or short boolean matrices, link-only or transitively closed, cyclic or acyclic',
 'Tests use one 5x3 matrix, one two-cycle and one chain of 4 through a file; closure of link matrices, longer loops and single-event files are not reached.',
 [cs],[('FromPastMatrix closure and loop check',cs),('PastMatrix, LinkPastMatrix',cs),('saveAsCSV/FromTextFile',cs)],[],['matrix conversions of Causet'])
p('C08','Past, future, cone and interval regions match the order',
 "PastOf, FutureOf and ConeOf (union or intersection, with or without the present), SpacelikeTo, PastInf and FutureInf (of the causet or of a set, and their cardinalities), Interval, IntervalCard, PerimetralEvents, InternalEvents and their counts return exactly the events the precedence relation defines, for all events and event sets. Each counting method equals the size of the corresponding set.",
 ['inputs'],'all causets, all event subsets and all pairs of events (including a is b, unrelated and reversed pairs), all flags',
 'No test calls these methods except PastInf/FutureInf on one causet.',
 [cs],[('region methods',cs)],[],['static and instance region methods of Causet'])
p('C09','Chain, antichain and path tests decide exactly',
 "isChain, isAntichain and isPath, for a whole causet or for any iterable of events, are true exactly if the events are pairwise causally related, pairwise spacelike, or a non-empty chain whose consecutive events are linked in the causal set.",
 ['inputs'],'all causets and all subsets of their events (empty, single, disconnected, zigzag, cyclic fences)',
 'Tests call them on whole causets and on two subsets; link-connected sets that are not chains (zigzags, crowns) are never tried.',
 [cs],[('isChain, isAntichain, isPath',cs)],[],['Causet.isChain/isAntichain/isPath'])
p('C10','Path enumeration is sound, complete and duplicate-free',
 "Paths(a, b, length) yields exactly the sequences of events from a to b in which each next event is linked to the future of the one before, each exactly once. With an int or a two-element list it yields those with that number of events or within that range, with 'min' those of minimal length, with 'max' or 'timegeo' those of maximal length; a length of another type raises ValueError.",
 ['inputs'],'all causets, all pairs (a, b) and all length specifications',
 'Tests check one diamond-like causet with min and count 6 paths in a simplex; max, int and range lengths and mixed-length orders are not exercised.',
 [cs],[('Paths and its recursive search with pruning',cs)],[],['Causet.Paths'])
p('C11','Ranks are shortest link distances',
 "a.Rank(b) is the least number of links on a path from a up to b (0 for a itself, infinity if a does not precede b). Ranks(S, first, last) and RankNumbers(list, reverse) select and number events by the largest rank to or from the events of the set, negative towards the past and positive towards the future.",
 ['inputs'],'all causets, pairs, event sets, rank ranges and directions',
 'No existing test calls Rank, Ranks or RankNumbers.',
 [ce,cs],[('CausetEvent.Rank two-sided recursion',ce),('Causet.Ranks, RankNumbers',cs)],[],['Rank, Ranks, RankNumbers'])
p('C12','Layers are numbered by the largest interval and partition the set',
 "Layers(S, first, last) and LayerNumbers(list, reverse) number an event by the cardinality minus one of the largest causal interval between it and an event of the set, negative towards the past, 0 for the set itself, positive towards the future. layered(), for a causet or for a causally convex subset of it, returns a list of disjoint non-empty antichains that together contain every event, the k-th holding exactly the events whose longest chain down to (or with reverse, up to) the infinity has k further events.",
 ['inputs'],'all causets, event sets, convex subsets, layer ranges and directions',
 'No existing test calls Layers, LayerNumbers or layered.',
 [cs],[('Layers, LayerNumbers, layered',cs)],[],['Layers, LayerNumbers, layered'])
p('C13','Sorting keeps every event once and respects causality or labels',
 "sortedByCausality returns every event of the set exactly once such that no event is listed before one of its past (after, if reversed), for any labels including missing or equal ones. sortedByLabels returns every event exactly once with labels ascending (descending if reversed).",
 ['inputs','histories'],'all causets and subsets, all labelings (integer, string, repeated, missing) and internal set orders',
 'Sorting is only used indirectly by one chain; a partial order sorted by pairwise exchange can fail for specific label/order combinations only.',
 [cs],[('sortedByCausality exchange sort on top of sortedByLabels',cs)],[],['sortedByCausality, sortedByLabels'])
p('C14','Disjoint pieces are the connected components',
 "disjoint(S) (or of the whole causet) splits the events into non-empty, pairwise disjoint pieces that cover it; events of different pieces are spacelike and the pieces are connected through causal relations within S. isDisjoint is true exactly if there is more than one piece.",
 ['inputs'],'all causets and event subsets, including subsets whose connecting events are left out',
 'No existing test calls disjoint or isDisjoint.',
 [cs],[('Causet.disjoint growth loop',cs)],[],['disjoint, isDisjoint'])
p('C15','The central antichain is maximal and greedy-central',
 "CentralAntichain(e) returns a maximal antichain of the causet that contains e if e is given; every event left out is causally related to a chosen event whose difference of past and future cardinality is at least as close to the reference (that of e, or 0).",
 ['inputs','schedules'],'all causets, all reference events, all internal set orders (ties may be broken either way)',
 'Only demo code calls it; ties are broken by set iteration order, so a test sees one of many outcomes.',
 [cs],[('CentralAntichain greedy loop',cs)],[],['CentralAntichain'])
p('C16','Antichain distances and antipaths are consistent',
 "SmallestIntervalCard(a, b) returns the documented smallest interval cardinality for every choice of searching and intersecting sets. DistanceMatrix of an antichain is symmetric with zero diagonal and holds, for 'ziczac' and 'intersection' counting, recursive or not, the distances obtained by repeatedly widening the slice around the antichain by one layer and adding up unit steps along connected events (-1 or 0 if never connected). Antipaths(a, b, along) yields exactly the shortest such sequences of antichain events from a to b, each once, and nothing if a and b are not connected or not spacelike members of the antichain. Other counting methods raise ValueError.",
 ['inputs'],'all causets, maximal antichains and pairs, both counting methods',
 'Tests only follow antipaths in one closed fence of length 6; intersections, recursion over several slices and disconnected antichains are not reached.',
 [cs],[('SmallestIntervalCard, DistanceMatrix, Antipaths',cs)],[],['SmallestIntervalCard, DistanceMatrix, Antipaths'])
p('C17','Queries never change the causal set or their arguments',
 "No query on an event or causet (set, region, path, rank, layer, sorting, matrix, distance, representation and copy methods) changes any past or future, any causet's membership, any label or coordinate, or the collection passed as argument, and asking twice gives the same answer. The answers belong to the caller: changing a returned set, list or matrix changes neither the causal set nor later answers (only the past, future and links an event gives of itself are its own sets).",
 ['histories','inputs'],'all sequences of queries with all argument sets in all reachable states',
 'Tests never compare the state before and after a query.',
 [ce,cs],[('queries work on copies or build new sets',cs)],[],['every read-only method of Causet and CausetEvent'])
p('C18','Embedded events are related exactly as their coordinates dictate',
 "After any sequence of creating events in an embedded causet (related at creation, or by a later call of relate), adding events created elsewhere or discarded before, embedding events anew, discarding events and calling relate, the member events that are related by the last relate are exactly the pairs of members whose coordinates were causally related in the causet's spacetime, earlier event first, and their links are the covering relation; events that are no members any more have no relations (or links) with members after relate, at either end, and keep those among themselves. Events are created one per coordinate row, carry exactly these coordinates and the documented running labels (or labelFormat); EmbeddedCauset.FromPermutation has the same order as Causet.FromPermutation; relabel numbers the members 1..n ascending or descending along the chosen coordinate.",
 ['histories','inputs','configurations'],'all histories of create (relate on or off), add, discard, embed anew, relate (link on or off) and relabel over all coordinates and supported spacetimes',
 'Tests create one timelike chain once and look at two subsets of one permutation.',
 [em,st],[('EmbeddedCauset.create, relate, relabel, FromPermutation',em)],[('_events, coordinates','members and embedding',em)],['C.create, C.relate, a < b'])
p('C19','Spacetime causality is the exact causal order of the spacetime',
 "For flat spacetime of any dimension (with any spatial periods), de Sitter, anti-de Sitter and the two-dimensional black hole in both metrics, Causality() returns (x<=y, x>y) exactly as the light cones of that spacetime prescribe, with the time coordinate (or, inside the Schwarzschild horizon, the decreasing radius) deciding which event is the earlier one. It never reports both directions, swapping the arguments swaps the direction, and the relation is transitive.",
 ['inputs','configurations'],'all pairs and triples of points off the light cone (beyond rounding), all dimensions and parameters',
 'No existing test evaluates a causality function except through one timelike chain in flat space.',
 [st],[('FlatSpacetime/deSitterSpacetime/AntideSitterSpacetime/BlackHoleSpacetime.Causality',st)],[],['spacetime.Causality()(x, y)'])
p('C20','Sprinkled events lie inside the region and are counted exactly',
 "Sprinkling into any supported shape (ball, bicone/diamond, cylinder, cube, cuboid; any dimension, centre, size and hollow fraction) creates exactly the requested number of new events, every one inside the outer boundary, inside Limits, and outside the hollow interior of that shape. A shape passed to sprinkle or intensify is used instead of the embedding region, equal generator states give equal sprinkles, the events span the region in every coordinate rather than a lower-dimensional part, and negative numbers raise ValueError and change nothing.",
 ['inputs','configurations','histories'],'all shapes and parameters, all generator seeds, all histories of sprinkle and intensify',
 'Tests sprinkle once into a cube and once into a cylinder and never look at the coordinates.',
 [sp,sh],[('SprinkledCauset._sprinkle_coords, sprinkle, intensify',sp)],[],['C.sprinkle, C.intensify, event coordinates'])
p('C21','Intensity, density and length scale keep exact account',
 "The Intensity of a sprinkled causet is, after any history, the sum of all sprinkled numbers and intensities plus the number of events created or newly added explicitly, scaled by the kept fraction at every discard (no failure on an empty causet), and is untouched by rejected calls (negative numbers, shapes or coordinates of another dimension). Density is intensity (for a plain embedded causet: cardinality) divided by the region's volume, and LengthScale to the power of the dimension times Density is 1 (0 length for an empty plain embedded causet).",
 ['histories'],'all histories of sprinkle, intensify, create, add, discard with repeated and unknown events',
 'No existing test reads Intensity, Density or LengthScale.',
 [sp,em],[('SprinkledCauset intensity bookkeeping in sprinkle/intensify/create/add/discard',sp),('Density, LengthScale',em)],[('_intensity','expected number of events',sp)],['C.Intensity, C.Density, C.LengthScale'])
p('C22','Shape volume, limits and edges follow from the parameters',
 "For every supported shape, dimension, centre and parameters, Volume is the volume of the outer body minus that of the hollow interior, Limits(d) is the centre plus/minus the half extent along d, MaxEdgeHalf the largest half extent along the given dimensions, and Parameter, Center, Name and Dim return what was given or the documented defaults. Out-of-range dimensions, names and parameters raise ValueError.",
 ['inputs','configurations'],'all shapes, dimensions 1..8 and parameter values, valid or not',
 'Tests compute two hollow volumes, one cube volume and one limit.',
 [sh],[('CoordinateShape.__init__ checks, Volume, Limits, MaxEdgeHalf',sh)],[],['CoordinateShape properties'])
p('C23','Event attributes follow their life cycle and copies are independent',
 "An event is embedded exactly between giving it coordinates (at creation or by embed) and disembed; embed on an embedded event without reembed raises and keeps the old coordinates, Coordinates of an event that is not embedded raises AttributeError, and CoordinatesDim is 0 then. Position is [0, 0] until it is set to exactly two values. copy() returns an event with the same label, past, future and links, not embedded, and later changes to the original or to the copy's own attributes do not show in the other.",
 ['histories'],'all histories of create, embed (with and without reembed), disembed, Position assignment and copy',
 'No existing test calls embed, disembed, Position or copy.',
 [ce],[('embed, disembed, Coordinates, Position, copy',ce)],[('_coordinates/_position','embedding and diagram position',ce)],['event attribute properties'])
p('C24','Embedded causets are dimension-consistent or rejected',
 "Constructing an EmbeddedCauset from any combination of spacetime (object or name), shape (object or name), coordinates and dim either yields an object whose Spacetime, Shape, Dim and all coordinates have one and the same dimension, with the documented defaults for what was left out, or raises ValueError. Later coordinates of another dimension are rejected with ValueError, too, and nothing is added then.",
 ['configurations','inputs'],'all combinations of given and omitted arguments with matching and conflicting dimensions',
 'Tests construct from at most two arguments with matching dimensions.',
 [em,st,sh],[('EmbeddedCauset.__init__ dimension resolution',em)],[],['EmbeddedCauset(...)'])
p('C25','Plots show exactly the events, links and labels of the causet',
 "A static plot of events (2D or 3D, any choice of coordinate axes) contains exactly one marker per event at its coordinates, one line per link between plotted events running between their two coordinates, and one label per event carrying its label; switching one of them off removes exactly these. In dynamic mode exactly the events within the time depth are shown, with the opacity of the fading function, and links are cut, and marked, where they cross the time slice. plotDiagram places the events of a permutation such that their light cones show the order. The handles returned by a call name the artists drawn by that call, also after later calls of the same plot function.",
 ['inputs','configurations'],'all embedded causets and event lists, axis choices, switches and time settings',
 'Plot tests only check that drawing does not raise.',
 ['causetplotting.py'],[('Plotter/_timeslice',"causetplotting.py"),('plot_parameters',"causetplotting.py"),('dynamic_parameter',"causetplotting.py")],[],['matplotlib artists in the returned dictionary'])
p('C26','Drawn light cones agree with the causal structure',
 "The past or future cone of an event, drawn up to a time slice by ConePlotter or by plot with pastcones/futurecones, in 2D or 3D and for every axis order, covers exactly the shown points up to that slice that are causally related to the event. This holds in flat spacetime (for periodic directions, within a period around the event), in de Sitter spacetime (for events with zero coordinates along the directions that are not shown), and for black holes. No cone is drawn when the slice lies on the other side of the event, a plot draws one cone per other event, and its opacity follows the cone fading options.",
 ['inputs','configurations'],'all events (off the horizon in Schwarzschild coordinates), time slices, cone directions, axis orders, fading options and spacetime parameters',
 'Tests draw one cone and never compare it with Causality.',
 [st],[('ConePlotter, _XT_slice, _XY_slice',st)],[],['ConePlotter(...)(origin, timeslice)'])
p('C27','Colours resolve through the scheme that was set last',
 "A colour 'cs:key' resolves to the value of that key in the explicitly named scheme or else in the scheme set last; other values pass through unchanged, unknown schemes raise ValueError and leave the current scheme in place. The dictionary and list converters resolve every colour entry and nothing else, every scheme has all documented keys (gray and grey alike) and every resolved colour is a valid matplotlib colour, and setDefaultColors determines the colours used by subsequent plots.",
 ['histories','configurations'],'all histories of setting schemes (valid or not) and default colours, interleaved with colour resolution',
 'No existing test resolves a colour; the active scheme is global state that depends on the history of calls.',
 ['colorschemes.py','causetplotting.py'],[('setGlobalColorScheme, pickColorScheme, getColor, convertColorsIn*','colorschemes.py'),('setDefaultColors, plot_parameters','causetplotting.py')],[('__global_color_scheme','active scheme','colorschemes.py')],['getColor, plot_parameters'])
p('C28','All harmonic number functions agree with the exact sums',
 "HarmonicNumberFraction(n) and HarmonicNumberFractions(n) are exactly the sums 1 + 1/2 + ... + 1/n (0 for n=0) for every n. HarmonicNumber(n) and HarmonicNumbers(n) equal it within 1e-9 for every n up to large values and approximation thresholds from 20 on, are finite and increasing, and the scalar and the vector function agree.",
 ['inputs'],'all n (exact sums to several hundred, floating values up to 10^5 and beyond) and approximation thresholds',
 'Tests compare a few n up to 200 at the default threshold.',
 ['calculations.py'],[('HarmonicNumber*, asymptotic expansion','calculations.py')],[],['HarmonicNumber, HarmonicNumbers, HarmonicNumberFraction(s)'])
p('C29','Drawn shapes are the cut through the centre of the region',
 "CoordinateShape.plot(dims), in 2D or 3D and for every shape, dimension, centre, hollow fraction and order of axes, draws exactly the cut of the region through its centre along dims. In 2D exactly the points of the region are filled and the drawn lines are exactly its outer and inner boundary; in 3D the surfaces are the outer and inner boundary. The artists are added once and carry the given options or the documented defaults, and the shape itself (parameters, limits, volume) stays as it was, so that drawing it again shows the same.",
 ['inputs','configurations'],'all shapes and parameters, dimensions, axis choices and orders',
 'Tests draw one or two shapes centred at the origin and only check that drawing does not raise.',
 [sh],[('CoordinateShape.plot and the Edge/Surface functions',sh)],[],['CoordinateShape.plot(...)'])
p('C30','Sprinkling is a Poisson process with even density',
 "Sprinkled events are independent and evenly distributed: each falls into any part of the region (halves, quadrants, inner cores, shells and slabs of ball, bicone/diamond, cylinder, cube and cuboid, hollow or not, in any dimension and at any centre) with the probability that is the part's share of the coordinate volume of the region, and successive events and successive calls do not depend on each other. The number of events created for an intensity (by intensify or by the constructor) follows the Poisson distribution with this expectation.",
 ['inputs','configurations','histories'],'all shapes and parameters, all numbers of events and intensities, all generator states, one large or many small sprinkles',
 'A distribution cannot be seen in the few sprinkles that tests make, and no test looks at coordinates or at numbers of events.',
 [sp,sh],[('SprinkledCauset._sprinkle_coords, sprinkle, intensify',sp)],[],['C.sprinkle, C.intensify, event coordinates'])
p('C31',"Newton's method converges within its limits or gives the default",
 "NewtonsMethod returns the first point x at which the Newton step for f(x) = y, restricted to [xmin + precission, xmax - precission], is shorter than precission, if this happens within maxIterations steps, and default otherwise (also where the derivative vanishes). After the start f and fprime are only evaluated within these limits.",
 ['inputs'],'all functions, start points, goals, limits, precisions and iteration numbers',
 'No existing test calls NewtonsMethod; wrong results show only as slightly wrong light cones.',
 ['calculations.py'],[('NewtonsMethod','calculations.py')],[],['NewtonsMethod(...)'])
p('C32','Spacetime objects are what was asked for',
 "A spacetime is constructed for exactly the supported dimensions (flat from 1, de Sitter and Anti-de Sitter from 2, black holes 2) and parameters (period as float or as tuple with one value per spatial dimension, positive radii, the two metrics); everything else raises ValueError. Name, MetricName, Dim, str, Parameter values (periodic exactly if some period is positive; a single period applies to all directions; documented defaults for what was left out) and the default region (unit diamond, cube if periodic, else cylinder, of the same dimension at the origin) of every object stay as it was asked for, whatever other objects are made and used.",
 ['inputs','configurations','histories'],'all classes, dimensions, parameter kinds and values, and sequences of constructions',
 'Tests construct a handful of spacetimes with valid arguments and do not look at their attributes.',
 [st],[('FlatSpacetime, deSitterSpacetime, AntideSitterSpacetime, BlackHoleSpacetime __init__, DefaultShape, Parameter',st)],[],['spacetime objects'])
p('C33','Outlines and surfaces follow the exact shape',
 "For every centre, size, hollow fraction, axis and sampling size the public builders describe the documented shape. RectangleEdge, BiconeEdge and CylinderCutEdge return exactly the closed polygons through the corners, CircleEdge and EllipseEdge samplingsize + 1 regularly spaced points once around the curve (128 if the size is not positive); a hollow part follows after one row of NaN, closed, scaled by the hollow fraction and (circle, ellipse, bicone) in opposite direction, while the cut through a hollow cylinder is the two rectangles left and right of the hole. CuboidSurface and CubeSurface return the six faces of the box, BallSurface, CylinderSurface and OpenConeSurface matrices of the documented size with all points on the surface, aligned with the requested axis and shifted by the centre (tip). The arguments are not changed.",
 ['inputs'],'all builders, centres, sizes, hollow fractions, axes and sampling sizes',
 'Tests never call these functions; errors show only as slightly wrong pictures.',
 [sh],[('RectangleEdge, CircleEdge, EllipseEdge, BiconeEdge, CylinderCutEdge',sh),('CuboidSurface, CubeSurface, BallSurface, CylinderSurface, OpenConeSurface',sh)],[],['returned matrices'])
p('C34','Plot settings are the documented ones and reach the picture',
 "plot_parameters returns exactly what its documentation says, for every combination of keyword arguments. links, events and labels are on unless switched off, pastcones and futurecones only if switched on or given a non-empty dictionary; each group that is on holds the documented default entries (2D or 3D by the length of dims, default colours converted by the current scheme) overridden by all entries the user gives, and no others; dims, aspect, conetimefade, conetimedepth, timedepth and timefade are the given or default values (timedepth and timefade are unset without timedepth); axislim is the given dictionary, the bounds of the shape for 'shape' (equal axis lengths in 3D), and unset without axislim and shape; dims of another length than 2 or 3 raise ValueError. setDefaultColors sets the scheme (matplotlib if left out) and the named colours for all later plots and nothing else; an unknown scheme raises ValueError and changes nothing. A request does not depend on earlier requests and does not change its arguments. plot draws the links, events, labels and 2D cones with these entries and sets the aspect (2D) and axis limits (given, or the shape of the embedded causet for 'shape').",
 ['inputs','histories'],'all combinations of keyword arguments, after all histories of setDefaultColors and requests',
 'Tests draw one or two pictures and never look at an artist; a default that leaks from one plot to the next needs a sequence of calls.',
 ['causetplotting.py','colorschemes.py'],[('plot_parameters, setDefaultColors, Plotter','causetplotting.py'),('convertColorsInDict','colorschemes.py'),('Limits, MaxEdgeHalf','shapes.py')],[],['returned settings','properties of artists and axes'])
p('C35','Printed forms tell what an object is',
 "After any history of creating, linking, unlinking, relabelling and disjoining events, str() of an event is '#' followed by its label (in single quotes unless it is an int), or '#Event' if it has no (or an empty) label; repr() names its class and, each exactly if the event has them, the events it is linked to in the past (by their str, in any order), its label and its coordinates. A causet prints the forms of its members. str() of a spacetime names dimension and kind; str() of a shape its dimension and name, and that it is hollow exactly if it is; repr() of both names the class, the dimension and every parameter with its value (normalised as stored: period per direction, diamond as bicone). Printing changes nothing, and unchanged objects print the same again.",
 ['inputs','histories'],'all histories of single events, all labels and coordinates, all parameters of spacetimes and shapes',
 'Tests never look at a printed form; stale links or a label that counts as false show only after a certain history.',
 [ce,cs,st,sh],[('CausetEvent.__str__, __repr__',ce),('Spacetime.__str__, __repr__ and subclasses',st),('CoordinateShape.__str__, __repr__',sh),('Causet.__repr__','causet.py')],[],['str(x)','repr(x)'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
