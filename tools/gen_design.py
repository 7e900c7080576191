import json,glob
head = '''# Deciding PathLib's properties with property-based testing

PathLib is a pure-Python library of 2D Bezier and outline geometry (about 2,500 lines: curves,
contours, rectangles, transforms, curve fitting, a fontTools-style pen, an SVG plotter). It has no
concurrency, no files and no persistent state; what a user relies on is that the geometry is right
for every input and that objects which cache results (Bezier, BContour) or keep a state (pens,
plotter, Color, the binomial table) answer the same whatever happened before. The existing 9 tests
do not import `Bezier` at all. `properties.jsonl` lists 30 properties; all of them are decided
by generated-input search against an explicit oracle, none is not applicable.

## Machinery

* `check.sh CNN quick|thorough` runs `pbt/run.py` under `python3-vt` (Hypothesis 6) with
  `/repo` (or `$VERIF_REPO`) at the head of `sys.path`, without byte-code caches, so it always runs
  the working tree. `setup.sh` only tests that the tools are present. Nothing is built: the code is Python.
* A property is a list of *clauses* (`pbt/props/cNN.py`): a Hypothesis strategy for JSON-able cases and a
  `check(case)` which raises `Violation` or returns labels; labels that start with `*` mark the
  case as non-trivial by the rule stated in the clause. Each clause is searched by one or several
  worker processes with seeds derived from `VERIF_SEED`; `database=None`, `deadline=None`.
* A failing case is shrunk by Hypothesis (which re-executes it; a case that passes when repeated is reported as
  depending on earlier calls, and its replay re-runs the whole deterministic search) and reported as
  `VIOLATION property=<id> replay=<path>`. The replay file holds property, clause, case and message;
  `check.sh --replay FILE` runs it without the library. Exit code 1 is used for violations only, errors of
  the harness exit 2.
* An exception raised inside PathLib on an input in the domain is a violation; one raised by harness
  code is a harness error. A case that has used 20 s of CPU starts a count of the calls and jumps the
  repository's code still executes, and is a violation only far beyond what any terminating case needs. No clock decides anything.
* `evidence/CNN.json`: cases generated, distinct non-trivial cases, label histogram per clause,
  samples, and the stated rule per clause.
* The two modules that need FontDocTools, which is not in the sandbox (`ContourPlotter`, `Color`), run against
  `pbt/standin/FontDocTools`, a minimal stand-in with the documented attributes and setters that records calls.
* `known_findings.json`: open findings by exact case (none at present) and the list of fixed ones.

Oracles never look at private attributes, the wording of messages, or how a value is
computed. Numbers are compared with tolerances derived from the conditioning of the case (magnitude of the
coordinates, angle between lines, condition number of a matrix), and with exact equality only where exactness
is the claim (end points, path strings, rotations by multiples of 90 degrees, joints, editing histories).

Generators (`pbt/gen.py`): coordinates come in "flavours" — tiny and small integers (coincidences are frequent),
font units, 16-bit, up to a million, halves, thousandths, full-mantissa floats; curves are drawn free or with
one of 15 degenerate shapes (retracted handles, collinear, evenly spaced line, degree elevated,
closed, arch, s-shape, monotone, axis tangents, nearly quadratic with a perturbation of 1..1e-9, level, quarter
circle). Parameters hit 0, 1, simple fractions, neighbourhoods of the ends (1e-1..1e-9) and generic values.

## Properties

'''
sec = {
"C01": "Exact `Fraction` Bernstein evaluation at the exact value of the float t. *evaluate* (orders 1-6, all flavours), *lut* (sizes 2-60, several sizes from one curve, equality with get at equally spaced parameters), *hull* (levels of de Casteljau), *decimal* (Decimal control points and parameters). Tolerance: a few ulps of the largest coordinate.",
"C02": "Sub-curve control points by exact rational blossoming; *two_parts*, *interval*, and *chain* (a history of up to 5 successive splits whose composed interval is tracked exactly). Both parts must share the split point and keep the end points bit for bit; the source is compared before and after. `split(t1, t2)` with t2 = 0 is outside the domain (falsy second argument means no second argument in the library).",
"C03": "Exact derivative polynomials. *hodographs* compares dcPoints with exact differences; *normal* compares with the rotated exact derivative where its relative size exceeds a stated conditioning limit, and at ends with retracted control points with the limiting direction; *offset_point* for all distances including 0. Orders 1-5.",
"C04": "Extremes of each coordinate polynomial in extended precision (exact derivative coefficients, roots refined with mpmath) give the tight box: both enclosure and tightness are required. *extrema*: every reported parameter has a vanishing first (for cubics first or second) derivative, every well-conditioned zero is reported, the third list is their sorted union. *overlaps* only where the relation of the boxes is decided beyond rounding. bbox of order >= 4 raises by design and is not claimed.",
"C05": "Alignment by extended-precision rotation of the exact points; lengths, orientation and position of the segment's end are required. *tightbbox*: four connected sides, parallel/perpendicular to the chord, enclosing the exact extremes and touched on each side.",
"C06": "Differential: a Bezier with a history against one freshly built in a freshly loaded copy of the library (pbt/pristine.py), so that a memo shared by all curves is seen too. *alike* puts the same query to curves that resemble one another (nudged by 10^-8 to 9, same ends, same sums, permuted, mirrored, shifted). *history* is stateful: up to a dozen queries from the table of all public queries (arguments generated) on up to three curves interleaved; after each step the answer is compared with the fresh curve's, all earlier results handed out are compared with their copies, and the control points passed in and the Decimal context must be unchanged. *pairs* runs every ordered pair of queries (q1, q2, q1).",
"C07": "Composite 24-point Gauss-Legendre on 256/512 sub-intervals with exact-break handling as reference length; the allowed error is twice the true error of the plain 24-point rule on that curve plus rounding, so an implementation at least as good as stated passes and a wrong weight, abscissa or derivative does not. Plus bounds (chord, control polygon), reversal, Decimal points, *additive*: parts add up, scaling scales.",
"C08": "The intervals of the pieces are *recovered from geometry*: each piece must be a sub-curve of the original starting where the previous ended (its end parameter is found from ratios of forward differences, then refined), the last one ending at 1, every exact interior extremum must be a cut, and each piece must be simple. *tame*: gently turning curves must be reduced and to few pieces (an upper bound from the turning angle plus one step of the search, 0.01). *simple*: exact angle criterion. An empty result is allowed by the property where no reduction exists and only there (near-stationary points); tame curves must not be empty.",
"C09": "Exact polynomial of signed distances from the line, transversal crossings isolated with Fractions and mpmath. *roots*: soundness of each parameter (in [0,1] to 1e-6, point on the line) and completeness for transversal crossings; *segment*: filtered by extent, decided only away from the ends; *withline*: intersection point on both.",
"C10": "Soundness: both curve points agree within twice the threshold per axis. Completeness: pairs of curves *made* to cross at chosen parameters and angles and *free* pairs with the crossings found by a reference subdivision + Newton, each transversal crossing (away from the ends) must be reported near; *self* uses the exact algebraic self-crossing of a cubic (solved from its power basis) with loop families (late loops, loops near one end, any shape); *none*: curves with no self-crossing and far from one, and tame curves, report nothing. Thresholds vary from the default to fractions of the extent. Completeness is required only where reduce() tiles both curves.",
"C11": "Exact degree elevation with Fractions, chains of up to 4 raises, orders 1-6.",
"C12": "*offset*/*flat*/*any*: one curve per reduce() piece, ends at distance d along the exact end normals, end tangents parallel (for quadratics only at the start: the single inner control point is put there), pieces join, *straight*: translation. *offset*/*scale* also require the curve to stay near the distance in between with measured margins: the library's method is an approximation whose error was measured on random gentle pieces (8%/3% quadratic/cubic with legs within 2:1, 22%/7% within 5:1), the margins are 15%/40%/80%. Curves within 2e-4 of their chord count as straight (library constant 1e-4) and are translated. *scale* by numbers and by functions given as lambda, bound method and functools.partial.",
"C13": "Identity checked with independent de Casteljau, the ratio against the exact formula; C conditioned by the angle between line AB and chord.",
"C14": "Rectangles as pairs of exact intervals: *pair* (relations, union, intersection on coordinates that often coincide), *one* (queries), *contours*, *chain* (algebra: associativity, neutral empty rectangle).",
"C15": "Exact rational matrix products and homogeneous division; *compose* chains up to 5 matrices including perspective; *apply* point-by-point with nesting, inputs deep-compared.",
"C16": "Named maps written from geometry (exact for multiples of 90 degrees; trig in extended precision): rotation sense, about-variants, mirrors as involutions, *linear* (translate/scale/shear/centre fix point), *perspective* in rational arithmetic away from the horizon, *helpers* for points/segments/contours.",
"C17": "Exact rational predicates on integers and halves (lattice constructions with shared points, long flat lines and near misses), with margins for generic floats; complex and tuple points.",
"C18": "Residual on both sides with numpy condition numbers as the domain rule (cond < 1e7); matrices built from row permutations, scaled rows, zero/small leading entries; exactly singular integer matrices of stated kinds must give None; argument deep-compared.",
"C19": "Interpolation and optimality via the normal equations (residual orthogonal to the basis; perturbing the control points never helps) with condition limits; exact binomials (asking far rows first), exact basis matrices, matrix operations against exact arithmetic.",
"C20": "A reference model of the pen in exact arithmetic (implied midpoints, closing lines, zero-length drop), sequences of open/closed/empty paths with runs of up to 8 off-curve points.",
"C21": "Glyph sets generated as DAGs up to 5 deep, expanded exactly; pens drawn in any order; results of earlier pens must not change; mixed direct drawing and components. Offsets that cancel and all axis-preserving matrices are generated with their own share.",
"C22": "A reader of the SVG path grammar written from the specification (`pbt/svg.py`; number grammar, implicit commands, relative/absolute, H/V/S/T) interprets `d()`; the drawn segments must equal the contour's exactly. *grid* makes repeated and axis-parallel segments frequent, *free* all flavours, *extreme* exponents and tiny values.",
"C23": "Reference distances from an independent lookup table and the identity dist(p,q) with q on the contour (distance to the exact curve by dense search + refinement).",
"C24": "Stateful: item assignments, deletions and queries against a freshly built contour of the current segments; *outline*: bounds, unzip/pathFromSegments helpers. Deleting the last curve (empty contours are not supported) is outside the domain.",
"C25": "Stateful histories of drawing calls and attribute pushes/pops on the stand-in engine: new content parsed as XML + SVG grammar must equal the geometry, paint attributes and circles/arrows must be as requested, attributes must be restored, earlier content must not change. *nested* goes deep into attribute stacks.",
"C26": "The CSS table typed in independently (`pbt/css.py`), all keywords in four spellings in each case; other words; hue progression against exact HSL (rounding either way at ties only).",
"C27": "Direction from the control points' y order by its definition, over *ladders* of small integers (all order patterns, ties) and free values; a curve called up or down is verified monotone.",
"C28": "Exact or extended-precision evaluation of each primitive: roots of quadratics with discriminants decided by Fractions, lines by exact intersection, Gauss-Legendre abscissae and weights against numpy and by integrating polynomials.",
"C29": "A generated pen program (the path strategies of C20, long ones and ones with many contours included), optionally drawn as a component under a generated matrix, then up to three transforms (named ones and general affine ones; composed or one by one), is sent through the stages with the *raw* result of each handed to the next. The oracle is the exact rational image of the model of C20/C21 with a rounding bound from the magnitudes of the terms. Path strings and plotted paths are read by the independent SVG reader and must be bit-for-bit the transformed contours; curves and path strings are drawn into a second pen; the inverse (from matrixInvert) is applied with a tolerance from the condition number. Everything handed out earlier is compared with copies at the end.",
"C30": "Metamorphic: *moved* compares the answers of a curve and of a copy moved by a similarity (quarter turns exact, any angle, mirrored, factors 1/2 to 4, shifts up to a million), *reversed* those of a curve and of its reverse at t = k/1024 and 1 - t (both exact), *contours* lookup tables, ends and bounds of contours and outlines. Tolerances are a few ulps of the largest coordinate of either copy, normals by the conditioning of C03. Roots, intersections, reduce and offset curves are left to their own properties: where they depend on thresholds, two copies may rightly differ.",
"C31": "Differential: *mixed* runs two to four scripts (curve queries, two curves in turn, contours and outlines under editing, pens with components, plotters with attribute stacks, transforms, rectangles, line utilities, fitting and matrices, colour names) step by step in a generated interleaving, in the one process all cases share, over families of data that resemble one another (equal, nudged by 10^-8 to 9, same ends, same sums, permuted, mirrored, turned, shifted, doubled); every answer is compared to that of the script run alone in a fresh copy of the library (pbt/pristine.py loads the modules anew, 1 ms per copy). Lists returned by pure functions are overwritten by the harness in half of the cases; in the others they must not have changed at the end. randomRGBColor/randomHSLColor are left to C26.",
"C32": "Metamorphic: *kinds* runs the scripts of C31 with their segments, contours and lists of contours written as lists and as tuples, their numbers as they are drawn, as floats, and as ints where whole; the answers must agree (1e-9), texts after their numbers have been read. Negative zeros are replaced first (ints have none), and angle() is left out, which may answer 0 or pi for a degenerate angle depending on the sign of a zero.",
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import sys; sys.path.insert(0,'/verif')
from pbt import run
out=head
for p in props:
    cl=run.load(p['id'])
    out+="### %s %s\n\n%s\n\nCases: %s. Exploration only: bounded by the counts and generator ranges, no exhaustiveness.\n\n"%(p['id'],p['title'],sec[p['id']],", ".join("%s %d / %d"%(c.name,c.quick,c.thorough) for c in cl))
out=out.replace("Cases: ","Cases (quick / thorough): ")
tail = open('/verif/tools/design_tail.md').read()
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[-2]
    rows.append("| %s | %s | %s | %s |"%(i,m['property'],m['needs'].replace('|','/'),m.get('caught','yes')))
out+=tail+"\n## Planted bugs (seeded/)\n\nEach was written from the property's text, verified with its demonstration on the clean and changed tree, and keeps the existing tests passing. All are caught by the quick check of their property unless stated.\n\n| id | property | needs | caught |\n|---|---|---|---|\n"+"\n".join(rows)+"\n"
open('/verif/DESIGN.md','w').write(out)
