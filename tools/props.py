AI = 'abstract interpretation of MIR (shape domain for trees, ordering domain for keys)'
NOTE_S = 'Covers trees of every size and shape and every key, for a consistent comparator; fixpoint over a finite abstract state space, no bound on size. Trusts the MIR dump, the interpreter and a few std models. Undecided constructs are listed in the evidence, not reported as violations.'
PROPS = []
def P(id, title, statement, quant, why, files, mech, tech=AI, note=NOTE_S, over=None, na=None):
    d = dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note)
    if over: d['over'] = over
    if na: d['na'] = na
    PROPS.append(d)
ST = 'src/splay/tree.rs'; SS = 'src/splay/set.rs'; SN = 'src/splay/node.rs'

P('S01', 'Splay tree lookups are exact and leave the content intact',
  'Looking a key up in a splay tree (get, get_mut, find_key, contains, indexing) finds the entry comparing Equal with the key exactly when one is stored, and returns a reference to that very entry; indexing panics exactly when there is none. Although lookups restructure the tree, they never lose, duplicate, reorder or alter an entry.',
  'every tree size and shape, every key position, every history that led to the tree', 'the tests look up a few keys in trees of at most 400 random integers; restructuring depends on shape, of which they see a handful',
  [ST, SN], [('splay', ST), ('get/get_mut/find_key/contains', ST), ('Index/IndexMut', ST)], over=['inputs', 'histories'])
P('S02', 'Splay tree neighbour queries return the adjacent entry',
  'next and prev return the entry directly above or below the given key (present or not), min and max the extreme keys, and None exactly when there is no such entry; the stored content is the same afterwards.',
  'every tree size and shape, every key position', 'the sweep relies on neighbours for correctness; tests compare them on a few small trees only',
  [ST, SN], [('next/prev', ST), ('min/max', ST), ('splay', ST)], over=['inputs', 'histories'])
P('S03', 'Splay tree insertion adds exactly the given entry',
  'Inserting a key not stored adds one entry with that key and value at its place in the order and returns None; inserting a stored key replaces its value, returns the old one and keeps the stored key. Every other entry stays, and extending inserts every item of the input in turn.',
  'every tree size and shape, every key position, every input sequence', 'tests insert a few keys and random integers; which rotations occur depends on shape',
  [ST, SN], [('insert', ST), ('splay', ST), ('Extend', ST)], over=['inputs', 'histories'])
P('S04', 'Splay tree removal deletes exactly the matching entry',
  'Removing a key deletes the entry comparing Equal with it and returns its value, or changes nothing and returns None when there is none; every other entry stays in order.',
  'every tree size and shape, every key position', 'tests remove two keys from four-entry trees',
  [ST, SN], [('remove', ST), ('splay', ST)], over=['inputs', 'histories'])
P('S05', 'Owning iteration yields every entry once, in order, from both ends',
  'Consuming a splay tree or set yields every stored entry exactly once, ascending from the front and descending from the back in any interleaving, and ends when all are yielded. size_hint is the exact number of entries left at every point.',
  'every tree size and shape, every interleaving of front and back steps', 'tests iterate a three-entry tree once in each direction',
  [ST, SS], [('IntoIter::next/next_back/size_hint', ST), ('into_iter', ST), ('set IntoIter', SS)], over=['inputs', 'histories'])
P('S06', 'Releasing a splay tree needs bounded stack',
  'Clearing or dropping a splay tree or set, or dropping its partly consumed iterator, uses stack space independent of the number of entries, and clearing leaves an empty tree.',
  'every tree size and shape', 'tests drop trees of at most 400 entries; the overflow needs about 10^5 entries inserted in order',
  [ST, SS], [('clear', ST), ('Drop', ST), ('IntoIter', ST)], over=['inputs', 'histories'])
P('S07', 'Splay tree length always equals the number of entries',
  'len and is_empty of a splay tree or set agree with the entries actually stored after every operation, starting from an empty new tree.',
  'every history of operations', 'test_len follows one short history',
  [ST, SS], [('size field updates', ST), ('len/is_empty', ST)], over=['histories', 'inputs'])
P('S08', 'The splay set behaves as the set of its elements',
  'Every operation of the splay set (find, contains, next, prev, min, max, insert, remove, clear, extend, len) gives the answer of a mathematical ordered set of the elements inserted and not removed; insert and remove report whether they changed the set; inserting an equal element leaves the stored one in place.',
  'every set size and shape, every element', 'no test exercises the set directly',
  [SS, ST], [('SplaySet methods', SS)], over=['inputs', 'histories'])
P('S09', 'Shared lookups leave every stored entry at its address',
  'No operation taking a splay tree or set by shared reference moves or overwrites a stored key or value in memory, although it may restructure the tree; references handed out by earlier lookups therefore keep referring to the same entries.',
  'every tree size and shape, every key position, every sequence of lookups', 'tests never hold a reference across another lookup, and equal contents hide that an entry moved',
  [ST, SS], [('splay', ST), ('shared lookups', ST)], over=['inputs', 'histories'])
AIO = 'abstract interpretation of MIR (order domain over symbolic coordinates, uninterpreted geometric predicates)'
NOTE_O = 'Every path of the analysed functions over symbolic coordinates; scalars are assumed totally ordered (no NaN), Kernel::orient2d an alternating unknown function, geo::line_intersection an unknown function. Numeric rounding is outside. Undecided constructs are listed in the evidence, not reported as violations.'
EV = 'src/events.rs'; LP = 'src/line_or_point.rs'
P('O01', 'Sweep points are ordered by x, then y',
  'Every comparison of two sweep points (==, <, cmp, partial_cmp, ...) is the lexicographic one, x before y, so it is one total order; converting a coordinate to a sweep point and back keeps both coordinates.',
  'every pair of coordinates', 'tests compare two points',
  [EV], [('SweepPoint PartialOrd/Ord/PartialEq', EV), ('SweepPoint From/coord', EV)], tech=AIO, note=NOTE_O)
P('O02', 'Events leave the queue by point, then by type, consistently',
  'As items of a max-heap, events at a lexicographically smaller point compare greater; at one point the ranks are point-left, line-right, line-left, point-right (earliest greatest). All comparison methods of Event and EventType agree with this, and the segment key plays no part.',
  'every pair of points and event types', 'tests compare one pair of events',
  [EV], [('Event PartialOrd/Ord/PartialEq', EV), ('EventType', EV)], tech=AIO, note=NOTE_O)
P('O03', 'Segments are stored with ends in order and keep their coordinates',
  'Building a LineOrPoint from a line gives a Point when both ends coincide and otherwise a Line from the lexicographically smaller to the larger end; from a coordinate, a Point. is_line, line, first and second return exactly what is stored.',
  'every pair of coordinates', 'tests build a few lines, all already in order',
  [LP], [('From<Line>', LP), ('is_line/line/first/second', LP)], tech=AIO, note=NOTE_O)
P('O04', 'Segments with a common span are ordered by height, antisymmetrically',
  'Comparing two segments with a common x-span (lexicographically) orders them by vertical position where the later one starts, ties by the direction in which they leave; a point lies below a line through it; segments with no common span are not ordered; swapping the operands reverses the answer; == holds exactly when they compare Equal.',
  'every pair of segments, every value of the orientation predicate', 'tests order a handful of segment pairs',
  [LP], [('LineOrPoint PartialOrd/PartialEq', LP)], tech=AIO, note=NOTE_O + ' One genuine defect (segments without a common span are ordered) is recorded as a known finding.')
P('O05', 'Intersecting a segment with a line gives their common part, in order',
  'A point intersects a line exactly when it is collinear with it and lies between its ends. Two lines intersect as geo says for these very lines: no answer, the point, or the overlap with its ends in order. The ordered variant differs only in moving a crossing point that would precede the first operand\'s start to the next x.',
  'every pair of segments, every answer of the geometry library', 'tests cover a few pairs; rounding below the start occurs for rare inputs only',
  [LP], [('intersect_line', LP), ('intersect_line_ordered', LP)], tech=AIO, note=NOTE_O)

AIW = 'abstract interpretation of MIR (one sweep step from every abstract state; oracle for geometry)'
NOTE_W = 'One step of the sweep (next_event with everything it calls) from every abstract state up to the stated size: an event of each type with up to two neighbours on each side, each a line or a chain of overlapping lines; larger neighbourhoods are covered by locality (a step reaches the next neighbours only). Assumes the invariants other steps establish (each checked here as a postcondition), the active set and heap behave as sets (checked for SplaySet, BTreeSet trusted), finite coordinates. Intersections are answered by an oracle, so rounding is covered only as far as intersect_line_ordered admits it.'
SW = 'src/crossings/sweep.rs'
P('W01', 'Splitting a segment yields pieces that make it up exactly',
  'When the sweep splits a segment at an intersection, the pieces (kept part, middle overlap, rest) join end to end and together cover exactly the former geometry, each belongs to the same input as before, and segments overlapping it are split alike; no piece is lost or covered twice.',
  'every segment, intersection kind and active neighbourhood', 'the tests check a few arrangements for their totals, not the pieces',
  [SW], [('Segment/Sweep::adjust_for_intersection, adjust_one_segment', SW), ('create_segment', SW)], tech=AIW, note=NOTE_W, over=['inputs', 'histories'])
P('W02', 'Every piece stays scheduled; stale events are ignored; no panic',
  'After every step each segment that is not chained below another has its right end queued and is either active or has its left end queued; nothing else is active. Events of segments split or chained since are dropped without effect; next_event returns the point of the event it took. No step panics or leaves the queue order.',
  'every event and active neighbourhood', 'a lost or stale event shows only in particular arrangements',
  [SW, 'src/active.rs'], [('handle_event', SW), ('next_event', SW), ('segment_for_event', SW)], tech=AIW, note=NOTE_W, over=['inputs', 'histories'])
P('W03', 'Segments that become neighbours are tested and split where they meet',
  'After every step any two adjacent active segments have been intersected with their current geometry and split at the answer, whether they became adjacent by insertion, by removal of one between them, or by a split; a point is tested against the segments beside it.',
  'every event and active neighbourhood', 'missing one adjacency loses intersections only in particular arrangements',
  [SW], [('handle_event', SW), ('adjust_one_segment', SW)], tech=AIW, note=NOTE_W, over=['inputs', 'histories'])
P('W04', 'Each piece reports its left and its right end exactly once',
  'Every final piece of every input (overlapped ones included) is reported to the callback once at its left end when it becomes active and once at its right end when it is released, with its final geometry and the right event type; pieces chained below a carrier are reported with it.',
  'every event and active neighbourhood', 'the totals of a few arrangements do not tell missing from doubled reports',
  [SW], [('handle_event', SW), ('next_event', SW)], tech=AIW, note=NOTE_W, over=['inputs', 'histories'])
P('W05', 'Pieces that coincide are chained behind one carrier',
  'Where two segments overlap along a span, the sweep ends with pieces of equal geometry in one chain: one carrier that is active, the others linked behind it exactly once and marked overlapping, without cycles, and including what was chained to either before.',
  'every pair of overlapping segments and their chains', 'tests hold two or three overlapping segments',
  [SW], [('chain_overlap', SW), ('create_segment', SW), ('handle_event', SW)], tech=AIW, note=NOTE_W, over=['inputs', 'histories'])
P('W06', 'Exactly the first piece of every line is marked first',
  'Among the pieces of one input segment the one that starts where the input starts is marked as first segment, and no later piece is.',
  'every input, every way of splitting it', 'pair reporting depends on the mark; tests do not look at it piece by piece',
  [SW], [('Segment::new', SW), ('Segment::adjust_for_intersection', SW)], tech=AIW, note=NOTE_W + ' The tree breaks this at four sites (the left piece loses its mark when split); they are recorded as known findings.', over=['inputs', 'histories'])
P('W07', 'The sweep starts with every input scheduled and ends when none is left',
  'A new sweep holds one segment per input crossable with its geometry, marked first, and exactly its end events in the queue; peek_point gives the point of the next event without changing anything, and both peek_point and next_event give None when the queue is empty.',
  'every input sequence', 'tests start from a few inputs',
  [SW], [('Sweep::new', SW), ('peek_point', SW), ('next_event', SW)], tech=AIW, note=NOTE_W)
AIC = 'abstract interpretation of MIR (sweep replaced by scripted events)'
CR = 'src/crossings.rs'; AC = 'src/active.rs'
NOTE_C = 'Exhaustive over the stated abstract cases (batches of up to three events or lines at a point; thorough: four); batches are independent of each other, which sequences of points confirm. The sweep below is replaced by its contract (W01-W07), geo::line_intersection by an unknown function that answers.'
P('C01', 'A crossings step exposes exactly the events at the next point',
  'Each step of CrossingsIter takes all events at the lexicographically next point and no other, returns its coordinate, and exposes, in order, one crossing per reported piece with its own input, piece geometry, first_segment, has_overlap and at_left (true only at the left end of a line). It returns None only when no events are left; collecting starts with all inputs and nothing exposed.',
  'every sequence of events at a point', 'tests count the points of two arrangements',
  [CR, SW], [('CrossingsIter::next', CR), ('Crossing::from_segment', SW), ('FromIterator', CR), ('intersections', CR)], tech=AIC, note=NOTE_C, over=['inputs', 'histories'])
P('C02', 'Intersections yields each pair of meeting lines exactly once',
  'Given the crossings of each point, the Intersections iterator yields every pair of different input lines that meet exactly once: at the point where they touch or cross, or where their overlap begins, with the intersection geometry of the two input lines themselves; never a line with itself; and it ends when the crossings end.',
  'every way lines can meet in a point, every sequence of points', 'tests count the pairs of two arrangements',
  [CR], [('Intersections::next', CR), ('step', CR), ('intersection', CR)], tech=AIC, note=NOTE_C + ' One genuine defect (a pair coinciding from where one begins on the other is reported twice) is recorded as a known finding. First-segment marks are taken to be right (W06).', over=['inputs', 'histories'])
P('C03', 'Wrapped crossables have the line of what they wrap',
  'For a reference, Box, Rc or Arc to a crossable the line is that of the wrapped value, and a Line is its own line with its ends unchanged.',
  'every crossable', 'tests use Rc and references to plain lines only',
  [CR], [('Crossable implementations', CR)], tech='abstract interpretation of MIR', note='All five implementations, T::line an unknown function.')
P('C04', 'prev_active is the segment directly below',
  'For a crossing at its left end, CrossingsIter::prev_active gives the current geometry and input of the active segment directly below, and None when there is none.',
  'every active set', 'no test calls it directly',
  [CR, SW, AC], [('CrossingsIter::prev_active', CR), ('Sweep::prev_active', SW)], tech=AIC, note='The query and the mapping of its answer; the active set itself is A01.', over=['inputs', 'histories'])
P('A01', 'Both active sets answer and change as ordered sets of segments',
  'For the splay-based and the BTreeSet-based active set: prev_key and next_key give the key of the active segment directly below or above the given one (active or not), None when there is none, without changing the set; add_key and remove_key add or remove exactly that key, and panic rather than ignore an impossible change.',
  'every active set and key', 'tests use the sets only through a few sweeps; the BTreeSet not at all',
  [AC], [('Access for SplayWrap', AC), ('Access for BTreeSet', AC)], tech='abstract interpretation of MIR', note='Every position of the key among up to three (thorough: six) active segments; the underlying sets are replaced by their contract (S08; BTreeSet trusted).', over=['inputs', 'histories'])
P('A02', 'Active segments are ordered as the segments they refer to',
  'Active segments compare as the stored segments of their keys, are equal exactly when their keys are, and panic instead of being ordered arbitrarily when the segments are incomparable; stored segments order by geometry, ties by key; the splay-based set uses this order unreversed and starts empty.',
  'every pair of segments', 'no test compares active segments',
  [AC, SW], [('Active PartialOrd/Ord/PartialEq', AC), ('Segment PartialOrd/PartialEq', SW), ('SplayWrap::default', AC)], tech='abstract interpretation of MIR', note='Every answer of the geometric order (an unknown function here) and every relation of the keys.')
AIE = 'abstract interpretation of MIR (crossings replaced by scripted histories)'
OP = 'src/bops/op.rs'; RI = 'src/bops/rings.rs'; LA = 'src/bops/laminar.rs'; BO = 'src/bops.rs'
NOTE_E = 'Exhaustive or fixed samples over the stated abstract cases. The crossings come from a script (the contract of C01/C04: right order, coincident pieces next to each other, carrier first); geometry enters only through the order of points and the vertical order of pieces, so rounding that makes the sweep break its contract is not covered.'
P('E01', 'Boolean operations turn exactly the result\'s boundary into ring edges',
  'For each operation, a piece of an edge of the operands becomes part of a ring exactly once if the result (intersection, union, difference or xor of what both operands cover, even-odd) lies on exactly one side of it, and not at all otherwise; the winding handed on tells the side. This holds where edges of either or both operands coincide, continue one another, or extend beyond other pieces.',
  'every arrangement of the edges of two polygons along the sweep', 'tests compare a handful of results, all without longer stacks of coincident edges',
  [OP, BO], [('Op::sweep', OP), ('Edge::get_region/set_region', OP), ('Region', OP), ('compare_crossings', OP)], tech=AIE, note=NOTE_E + ' Histories of up to four points, stacks of up to five groups of up to three coincident edges.', over=['inputs', 'histories'])
P('E02', 'Boolean operations take every edge of both operands, each for its own',
  'boolean_op of polygons and of multi-polygons gives the sweep exactly the non-degenerate edges of all rings (exterior and interior, every polygon) of both operands, each counted for the operand it comes from; intersection, union, difference and xor perform the operation of their name on their operands in order.',
  'every pair of operands', 'tests use single polygons with at most one hole',
  [OP, BO], [('add_polygon, add_multi_polygon, add_closed_ring', OP), ('BooleanOp', BO)], tech=AIE, note=NOTE_E)
P('E03', 'Boundary pieces become closed simple rings, holes told from exteriors',
  'From the boundary pieces in sweep order Rings builds closed rings that visit no vertex twice, use every piece exactly once, and keep the region on the same side all along, also where rings touch in a vertex; a ring is a hole exactly when the region lies outside of it. No panic occurs.',
  'every arrangement of rings that are disjoint or touch in vertices, every order of report', 'tests build two rings',
  [RI], [('Rings::add_edge', RI), ('Rings::finish', RI), ('Ring::from_coords', RI)], tech=AIE, note=NOTE_E + ' Boundaries of up to three loops (thorough: four) over up to seven points.', over=['inputs', 'histories'])
P('E04', 'Each exterior ring becomes one polygon with the holes directly inside it',
  'Assembling rings that are disjoint or touch in vertices gives exactly one polygon per exterior ring, with its coordinates as exterior and the coordinates of precisely the holes that lie directly inside it as interiors; islands inside holes become polygons of their own.',
  'every nesting of rings, every order in which they are given', 'tests assemble at most one hole',
  [LA], [('assemble', LA)], tech=AIE, note=NOTE_E + ' Arrangements of up to five rings, depth up to four (900 fixed samples; thorough: 9000).', over=['inputs', 'histories'])
AIF = 'abstract interpretation of MIR (order types of polygons, algebraic terms)'
MC = 'src/monotone/chains.rs'; MS = 'src/monotone/sweep.rs'; MG = 'src/monotone/segment.rs'; MP = 'src/monotone/mono_poly.rs'; MR = 'src/monotone/rasterize.rs'; MO = 'src/monotone.rs'
NOTE_F = 'Fixed pseudo-random families of order types, not every polygon; within one every polygon of that order type is covered. Geometry (orientation, order of edges and points) answers exactly, as order types say; wrong answers of floating-point predicates are not covered.'
P('F01', 'Monotone decomposition partitions the polygon into monotone pieces',
  'For every polygon whose edges meet only at the common end of consecutive edges, no two rings touching (holes, rings in either direction, any start vertex and consecutively repeated vertices included), monotone_chains returns pieces whose two sides run strictly in sweep order between common ends, the upper above the lower; every edge of the polygon bounds exactly one piece, from the inside; every added line lies inside the polygon and has one piece on either side. Together the pieces tile the polygon without overlap. No panic occurs.',
  'every polygon as stated', 'tests check the total area of a few polygons and of random ones of two kinds, none with several holes',
  [MC, MS, MG], [('monotone_chains', MC), ('Sweep::process_event', MS), ('Chain', MG), ('Segment', MG)], tech=AIF, note=NOTE_F + ' Polygons of up to 22 vertices.', over=['inputs'])
P('F02', 'The monotone sweep reports each vertex once, in order, with its kind',
  'Iterating MonotoneSweep over a polygon whose edges meet only at the common end of consecutive edges yields every vertex exactly once, in sweep order (by x, then y), as Start, Split, End, Merge or Continue according to the side on which its two neighbours lie and to whether the inside is between them, and then ends.',
  'every polygon as stated', 'tests only count events of a few polygons',
  [MS, MG], [('Sweep::from_polygon', MS), ('Sweep::process_event', MS), ('VertexType', MG)], tech=AIF, note=NOTE_F, over=['inputs'])
P('F03', 'A monotone piece is made of valid sides only and gives them back',
  'MonoPoly::new succeeds exactly if both sides begin at the same point, end at the same, different point, and each is strictly increasing in sweep order. top, bot and into_ls_pair give back the sides; into_polygon is the closed ring along one side and back along the other, without holes; bounding_rect is the least rectangle containing all its points.',
  'every pair of sides', 'tests construct valid pieces only',
  [MP], [('MonoPoly::new', MP), ('MonoPoly::into_polygon', MP), ('MonoPoly::bounding_rect', MP)], tech=AIF, note='All pairs of up to three points from a grid in which coordinates repeat (invalid ones: a fixed sample); rectangles on order types of pieces.', over=['inputs'])
P('F04', 'Scanning a monotone piece yields trapezoids that tile it',
  'After scan_lines(left), every call of advance_to(x) or advance_upto(x) reports, left to right, exactly the trapezoids into which the vertices of either side cut the part of the piece between the last stop and x; their corners lie on the sides (linear interpolation along the edge, vertical edges included). curr() is at the last stop, clamped to the extent of the piece. Trapz::area is the width times the mean of both heights.',
  'every piece, every increasing sequence of stops', 'tests compare total areas for equally spaced stops',
  [MP, MO], [('Scanner::advance_next/peek_next', MP), ('Scanner::advance_to/advance_upto', MP), ('MonoPoly::scan_lines', MP), ('Trapz::area', MO)], tech=AIF, note='Order types of pieces with up to three (thorough: four) inner columns; values are compared as rational functions (identity testing in two prime fields), exact arithmetic.', over=['inputs', 'histories'])
P('F05', 'Raster bounds of a stretch name the rows it spans and nothing else',
  'cross_bounds and cross_ubounds, for the stretch of a piece from the current position to `right` and `height` rows between cross_min and cross_max: nothing (None, respectively (height, 0)) exactly if no part of the stretch lies strictly between cross_min and cross_max; otherwise the rows of the lowest and of the highest height of the stretch within these bounds (the last row for cross_max itself), and, for cross_bounds, the greatest height of the lower side and the least height of the upper side on the stretch. The scanner moves to the end of the stretch.',
  'every piece, stretch and raster', 'tests only compare sums of cell areas with total areas',
  [MR], [('Scanner::cross_bounds', MR), ('Scanner::cross_ubounds', MR)], tech=AIF, note='Order types as in F04, rows placed below, across, above and exactly on corners; exact arithmetic.', over=['inputs'])
P('F06', 'Raster areas: each row receives exactly the area of the piece within it',
  'cross_area adds to each of the rows between cross_min and cross_max exactly the area of the part of the stretch (from the current position to `right`) that lies in this row, and changes no other row; parts below cross_min or above cross_max count nowhere.',
  'every piece, stretch and raster', 'tests only compare the sum over all rows with the total area',
  [MR, MP], [('Scanner::cross_area', MR)], tech=AIF, note='Order types as in F04 and rows as in F05; areas are compared as rational functions with the integral between the sides; exact arithmetic.', over=['inputs'])

WT = 'compile-fail witnesses with compiling twins'
NOTE_G = 'Client programs compiled (not run) against the current tree: each must be rejected with the expected error code, while its twin without the offending lines is accepted. Covers the listed methods; a witness whose twin stops compiling is reported as undecided.'
P('G01', 'Splay trees and sets are never shared between threads',
  'SplayTree and SplaySet restructure themselves on lookup through a shared reference, so a program that shares one between threads, or sends one whose keys, values or comparator may not be sent, does not compile; sending one with sendable content does.',
  'every client program', 'a test that must not compile cannot be a unit test',
  [ST, SS], [('UnsafeCell root', ST), ('SplaySet', SS)], tech=WT, note=NOTE_G, over=['programs', 'schedules'])
P('G02', 'References handed out by trees exclude changes and never outlive the tree',
  'A program that uses a reference obtained from a splay tree or set after the tree is dropped, or across an operation that inserts, removes, clears or hands out a mutable reference, does not compile; otherwise-equal programs without that use do.',
  'every client program using one handed-out reference', 'a test that must not compile cannot be a unit test; the internals hand out unbounded lifetimes (unsafe)',
  [ST, SS], [('get/get_mut/find_key/next/prev/min/max/index', ST), ('root_mut', ST), ('SplaySet', SS)], tech=WT, note=NOTE_G, over=['programs'])
P('G03', 'Scanners, stretches and exposed crossings stay within what they borrow from',
  'A program that uses a scanner or the iterator over a stretch after the monotone piece (or the scanner) is gone or in use otherwise, two stretches of one scanner at once, exposed crossings after the iterator moved on, or results that borrow input lines after those are dropped, does not compile; otherwise-equal programs without that use do.',
  'every client program of these shapes', 'a test that must not compile cannot be a unit test; advance_to transmutes lifetimes',
  [MP, CR], [('MonoPoly::scan_lines', MP), ('Scanner::advance_to', MP), ('CrossingsIter::intersections', CR)], tech=WT, note=NOTE_G, over=['programs'])
P('G04', 'The storage that active segments refer to never moves while a sweep runs',
  'Active segments of a sweep refer to segment storage by address, and that storage stays in place as long as the sweep has active segments: a sweep over crossings may be moved at any time between steps, a monotone sweep cannot be moved by safe code once it has started, and no step replaces the storage.',
  'every client program, every step of a sweep', 'tests never move a sweep between steps; a dangling read often goes unnoticed',
  [SW, MS, AC], [('Sweep.segments', SW), ('Sweep (pinned)', MS), ('Active.storage', AC)], tech='type rules and compile-fail witnesses; abstract interpretation of sweep steps', note='Witnesses as in G01; the ownership of the storage is read off the type; the step exploration is that of W01 with its assumptions.', over=['programs', 'histories'])
def N(id, title, statement, quant, why, files, mech, na, over=None):
    P(id, title, statement, quant, why, files, mech, over=over, na=na)
N('N01', 'Results stay accurate under floating-point rounding',
  'For floating-point inputs of moderate size, reported crossing points, output rings and interpolated heights differ from the exact ones by at most a small multiple of the coordinate precision.',
  'every floating-point input', 'tests use integer or random coordinates and compare totals',
  [LP, CR], [('LineOrPoint::intersect_line', LP)],
  'Quantifies over floating-point values; the arithmetic is in the geo crate (robust orient2d, line_intersection) and errors chain through splits, for which no static error bound is in reach.')
N('N02', 'Sweeps and splay operations stay within their asymptotic cost',
  'A splay operation costs amortised O(log n) steps, and finding the k crossings of n segments takes O((n+k) log n) steps.',
  'every history', 'tests do not measure cost', [ST, SW], [('splay', ST), ('Sweep::next_event', SW)],
  'An amortised bound needs a potential argument over whole runtime histories (real-valued potential of tree shapes); no type, dataflow or finite-domain rule in reach decides it.', over=['histories'])
N('N03', 'Every sweep terminates',
  'Iterating crossings, boolean operations or the monotone decomposition of finitely many finite segments ends after finitely many steps.',
  'every input', 'tests sample inputs', [SW], [('Sweep::handle_event', SW)],
  'Under rounding a split may create new crossings further on; termination needs a well-founded measure over floating-point values, which no static argument in reach provides.')
N('N04', 'No panic on arbitrary floating-point input',
  'No input of finite coordinates makes a sweep, boolean operation or decomposition panic.',
  'every floating-point input', 'tests sample inputs', [AC, SW], [('Active::cmp', AC)],
  'Inconsistent answers of the predicates after rounding make the active order panic by design; which inputs do so is a question about float values. With consistent predicates, panics are violations of W02 and others.')
N('N05', 'Areas of union and intersection add up on real polygons',
  'For valid polygons A and B, area(A or B) + area(A and B) equals area(A) + area(B) up to rounding.',
  'every pair of polygons', 'benches compare with geo-booleanop on samples', ['src/bops.rs', 'src/bops/op.rs'], [('BooleanOp', 'src/bops.rs')],
  'An end-to-end numeric identity over whole inputs of unbounded size. Its combinatorial parts (inclusion rule, ring assembly, nesting) are decided by E01-E04, the sweep beneath by W01-W07.')
P('G05', 'Sweeps access segment storage only while it is in use',
  'No step of a sweep reads, changes or compares a segment whose storage was already released, neither directly nor by what it leaves in the set of active segments.',
  'every step of every sweep over exactly evaluated geometry', 'the accesses are unchecked: reading a released slot usually goes unnoticed in tests',
  [SW, AC, MS], [('Sweep::handle_event (get_unchecked)', SW), ('Active::get', AC), ('monotone Sweep::next', MS)], tech=AIW, note='Coverage of the step exploration of W01 and of the polygons of F02 with their assumptions; unsafe code of the splay tree is covered by S01-S09 and G02.', over=['histories', 'inputs'])
