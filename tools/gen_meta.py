#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BZ, BU, PU, TR = ("PathLib/Bezier.py", "PathLib/BezierUtilities.py", "PathLib/PathUtilities.py", "PathLib/Transform.py")
NOTESTS = "No existing test imports Bezier; "

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None),
                  technique=technique, note=note))


prop("C01", "Curve evaluation equals the Bernstein polynomial",
     "For a Bezier of any order from 1 to 20 and any t in [0,1], get(t) equals the Bernstein polynomial of its control points up to rounding, with get(0) and get(1) exactly the first and last control point. midpoint is get(0.5), getLUT(n) is exactly n points at n equally spaced parameters from 0 to 1, hull(t) lists the control points followed by every de Casteljau level in order, and start/end/startX/startY/endX/endY/order/controlPoints report the control points given. Curves whose coordinates are Decimals evaluate at Decimal parameters to the same values.",
     ["inputs"], "all curves of order 1-20 with finite coordinates, all t in [0,1], all lookup-table sizes >= 2",
     NOTESTS + "the value must be right at every t and for every order, which samples of fixed curves cannot establish.",
     [BZ, BU], [("Bezier._compute shortcuts and closed forms / de Casteljau", BZ + ":_compute"), ("hull by repeated lerp", BZ + ":hull"), ("getLUT", BZ + ":getLUT")],
     ["Bezier.get", "Bezier.getLUT", "Bezier.hull", "Bezier.midpoint"],
     "property-based testing against an exact rational Bernstein evaluator",
     "Generated curves and parameters, exact Fraction oracle with a rounding tolerance; exploration only, no exhaustiveness.")

prop("C02", "Splitting a curve yields exactly the sub-curves it names",
     "For quadratic and cubic curves, split(t) returns (left, right, hull) where left traces the curve on [0,t] and right on [t,1], and split(t1,t2) with 0<=t1<t2<=1 returns one curve that traces the original on [t1,t2], all reparameterised linearly and of the same order. The two parts keep the original's end points and share the split point exactly, repeated splitting composes, and the source curve is unchanged.",
     ["inputs", "histories"], "all quadratic/cubic curves, all split parameters, all chains of successive splits",
     NOTESTS + "equality of the traced curve must hold for every interval and every nesting of splits.",
     [BZ, BU], [("split via hull, shortcuts for 0 and 1, remapped t2", BZ + ":split"), ("map", BU + ":map")],
     ["Bezier.split"],
     "property-based testing against exact blossoming (sub-curve control points)",
     "Sub-curve control points are compared with exact rational blossom values, including chains of splits.")

prop("C03", "Derivatives, normals and offset points are geometrically right",
     "dcPoints lists the control points of the first, second, ... derivative of the curve. normal(t) is the unit vector obtained by rotating the direction of travel at t counter-clockwise by 90 degrees (where the derivative vanishes at an end point, the limiting direction of travel), and offset(t, d) returns [point, normal, point + d*normal] for every distance d including zero.",
     ["inputs"], "all curves of order 1-5, all t in [0,1] where the direction of travel is defined, all distances d",
     NOTESTS + "the relation must hold at all parameters and for all orders, including lines and curves with retracted handles.",
     [BZ], [("dcPoints hodographs", BZ + ":dcPoints"), ("_derivative", BZ + ":_derivative"), ("normal", BZ + ":normal"), ("offset with distance", BZ + ":offset")],
     ["Bezier.dcPoints", "Bezier.normal", "Bezier.offset"],
     "property-based testing against exact derivative polynomials",
     "Exact rational derivatives as oracle; ill-conditioned directions are excluded by a stated conditioning rule.")

prop("C04", "Bounding boxes are tight and extrema are complete",
     "For every line, quadratic and cubic, bbox and boundsRectangle enclose every point of the curve and each of their four sides is touched by the curve. extrema gives, per dimension, only parameters in [0,1] where the first derivative (for cubics first or second derivative) of that coordinate vanishes, misses none of them, and its third entry is their sorted, duplicate-free union; overlaps(other) says whether the two boxes intersect, and skeletonBounds holds all control points, with extra room on the right only.",
     ["inputs"], "all curves of order 1-3, including degree-elevated, flat, cusped and nearly degenerate ones, anywhere in the plane",
     NOTESTS + "wrong or missed extrema show only for particular coefficient relations.",
     [BZ, BU, PU], [("extrema from derivative roots", BZ + ":extrema"), ("_getminmax", BZ + ":_getminmax"), ("droots", BU + ":droots"), ("BoundsRectangle", PU + ":BoundsRectangle")],
     ["Bezier.bbox", "Bezier.boundsRectangle", "Bezier.extrema", "Bezier.overlaps"],
     "property-based testing against high-precision polynomial extremes",
     "Oracle computes coordinate extremes exactly in high precision; tightness and enclosure both checked.")

prop("C05", "Aligning and oriented bounding boxes are rigid and tight",
     "align(segment) moves the curve rigidly (no scaling, no reflection) so that the segment's first point becomes the origin and its last point lies on the non-negative x axis; without an argument the curve's own chord is used. tightbbox is a closed four-segment rectangle with sides parallel and perpendicular to the chord that encloses the curve and is touched by it on all four sides.",
     ["inputs"], "all curves of order 1-3 and all alignment segments, in every direction and position",
     NOTESTS + "rotation sense and tightness must hold for every direction of the chord.",
     [BZ, TR, PU], [("_align", BZ + ":_align"), ("tightbbox", BZ + ":tightbbox"), ("moveAndRotate / rotateAndMove", TR + ":moveAndRotate")],
     ["Bezier.align", "Bezier.tightbbox"],
     "property-based testing against complex-arithmetic rigid motion and high-precision extremes",
     "Independent rigid-motion oracle with tolerance relative to coordinate size.")

prop("C06", "Curve queries do not depend on what was asked before",
     "Whatever sequence of queries has been made on a Bezier (bbox, extrema, reduce, length, lookup tables of different sizes, intersections, splits, offsets, ...) and on other curves in between, each query answers as it would on a freshly built curve with the same control points. Queries never alter the control points passed in, results handed out earlier, or the Decimal context.",
     ["histories"], "all sequences of queries interleaved over several curves",
     NOTESTS + "the property quantifies over call histories; caches are filled and reused only in sequences.",
     [BZ, BU], [("lazy caches _extrema, _bbox, _lut, _length, _dcPoints, _boundsRectangle", BZ), ("Decimal precision raised and restored", BZ + ":length")],
     ["every public query of Bezier"],
     "stateful property-based testing: query histories against the answers of a fresh copy of the library",
     "Generated histories of queries over several curves; differential against a fresh object in a freshly loaded copy of the library per query, plus snapshots.")

prop("C07", "Arc length is accurate",
     "length is the arc length of the curve: exact up to rounding for lines, at least as accurate as 24-point Gauss-Legendre quadrature for every other order, hence within 1% of the control polygon length always. It is a non-negative Decimal, never shorter than the chord nor longer than the control polygon beyond that error, the same for the reversed curve, and correct for control points given as Decimals, whatever the current Decimal context (precision, rounding), which is left unchanged, also when a signal trapped there ends the computation.",
     ["inputs"], "all lines, quadratics and cubics, with int, float or Decimal coordinates",
     NOTESTS + "a wrong abscissa, weight or derivative shows as an error only measurable against an independent integral.",
     [BZ, BU], [("Gauss-Legendre sum", BZ + ":length"), ("tValues, cValues", BU + ":tValues"), ("_arcfun/_derivative", BZ + ":_arcfun")],
     ["Bezier.length"],
     "property-based testing against independent composite quadrature, metamorphic relations",
     "Independent composite Gauss quadrature is the reference; tolerance is the 24-point rule's own error.")

prop("C08", "reduce() tiles a curve with simple pieces",
     "For quadratic and cubic curves reduce() never fails with an exception and returns either an empty list (no reduction possible) or consecutive curves that together trace the original from start to end exactly once, in order, each one the sub-curve on its own parameter interval, cut at every extremum. Each piece is simple (end normals less than 60 degrees apart up to one step of the search, control points of cubics on one side of the chord), and the list is not empty for curves without inflection that turn by less than 60 degrees in every parameter step of 0.02.",
     ["inputs"], "all quadratic/cubic curves with a non-zero extent, including straight, retracted-handle and inflected ones",
     NOTESTS + "tiling and termination must hold for every curve; the step search and rounding only misbehave on some.",
     [BZ], [("two-pass split at extrema then by step search", BZ + ":reduce"), ("simple", BZ + ":simple")],
     ["Bezier.reduce", "Bezier.simple"],
     "property-based testing with tiling/sub-curve validity predicate",
     "Validity predicate over pieces; piece intervals are recovered independently from the geometry.")

prop("C09", "Line intersections are sound and complete",
     "For quadratics and cubics, every parameter returned by roots(line) lies in [0,1] up to 1e-6 and puts the curve on the infinite line, and every transversal crossing of that line is returned; roots() does the same for the x axis. lineIntersects(line) returns exactly those that lie within the line segment's extent. intersectWithLine returns a point on both the curve and the line's infinite extension, or None only when they do not meet; for a straight curve, the intersection of the two infinite lines.",
     ["inputs"], "all quadratic/cubic curves and all lines, in all relative positions",
     NOTESTS + "root finding fails only for special coefficient relations (nearly quadratic, nearly linear, double roots).",
     [BZ, BU], [("roots: quadratic and Cardano", BZ + ":roots"), ("lineIntersects", BZ + ":lineIntersects"), ("intersectWithLine", BZ + ":intersectWithLine")],
     ["Bezier.roots", "Bezier.lineIntersects", "Bezier.intersectWithLine"],
     "property-based testing: residual soundness plus exact sign-change completeness oracle",
     "Completeness is judged against exact root isolation for well-separated crossings only; tangencies are checked for soundness.")

prop("C10", "Curve-curve and self intersections are found and located",
     "intersects(other) returns parameter pairs (t1,t2) such that the two curve points are within twice the threshold of each other per axis, and reports at least one pair near every transversal crossing of two quadratic/cubic curves that reduce() can tile. Pieces that split() made are curves of their own to intersects; curveIntersects, given lists of such pieces, locates crossings on the curves they were split from. intersects(None)/selfIntersects do the same for a curve crossing itself, and report nothing for curves without self-crossings that are far from touching themselves.",
     ["inputs"], "all pairs of regular quadratic/cubic curves, all thresholds; looping cubics",
     NOTESTS + "requires the provenance of every sub-piece to be tracked through arbitrary recursive subdivision.",
     [BZ], [("pairiteration recursive halving", BZ + ":pairiteration"), ("curveIntersects pairing", BZ + ":curveIntersects"), ("t-range bookkeeping in split/reduce", BZ + ":split")],
     ["Bezier.intersects", "Bezier.selfIntersects"],
     "property-based testing: distance soundness, constructed crossings and dense-polyline completeness oracle",
     "Crossings are constructed (curves placed through a common point) or found by an independent segment-level search.")

prop("C11", "Raising the order keeps the shape",
     "raiseOrder() returns a curve of order exactly one higher that traces the same points at the same parameters with the same end points, for any order; raising repeatedly keeps doing so, and the source is unchanged.",
     ["inputs"], "all curves of order 1-6, all t, repeated raises",
     NOTESTS + "equality must hold as polynomials, i.e. for all t.",
     [BZ], [("raiseOrder", BZ + ":raiseOrder")], ["Bezier.raiseOrder"],
     "property-based testing against exact degree elevation",
     "Control points compared with exact degree elevation.")

prop("C12", "Offset curves run parallel at the requested distance",
     "offset(d) of a straight curve is that curve translated by d along its normal; for other quadratics and cubics it is one curve per piece of reduce(), whose ends lie exactly at distance d along the normal at the piece's ends and whose end tangents (for quadratics, the tangent at the start) stay parallel to the piece's. scale(d) does so for one simple curve, scale(f) with a distance function (of which quadratics become cubics) moves the ends by f(0) and f(1) and the curve in between by the distances f takes at thirds, and for gently and evenly curving pieces every point of the offset curve stays within 15% of |d| of the true offset.",
     ["inputs"], "all simple quadratic/cubic curves and all distances of either sign that are small against the radius of curvature",
     NOTESTS + "tangent preservation and distance must hold on every piece of every curve, in both orientations.",
     [BZ, BU], [("scale: move end points along normals, control points onto the offset tangents", BZ + ":scale"), ("offset", BZ + ":offset"), ("lli4", BU + ":lli4")],
     ["Bezier.offset", "Bezier.scale"],
     "property-based testing: end-point, tangent and distance relations",
     "Distance tolerance is stated relative to |d| for pieces with bounded turning.")

prop("C13", "getABC satisfies the projection identity",
     "For quadratics and cubics, getABC(t) returns (A, B, C, ratio, hull): B is the curve point at t, C lies on the chord at the position depending only on t, A, B and C are collinear with |B-C| = ratio*|A-B|, and hull is hull(t). C is reported (not None) whenever the line through A and B is not parallel to the chord.",
     ["inputs"], "all quadratic/cubic curves with A, B and the chord in general position, all t in (0,1)",
     NOTESTS + "the identity must hold for every t and every curve.",
     [BZ, BU], [("getABC", BZ + ":getABC"), ("quadraticRatio, cubicRatio", BU + ":cubicRatio"), ("lli4", BU + ":lli4")],
     ["Bezier.getABC"],
     "property-based testing against the exact ABC projection",
     "C and ratio from the closed form in exact arithmetic.")

prop("C14", "Bounds rectangles form a sound rectangle algebra",
     "A BoundsRectangle of points is the smallest axis-parallel rectangle holding them, wherever they lie; fromContour and fromCoutours equal the rectangle of all their points, and the empty rectangle is neutral for union and encloses nothing. union is the smallest rectangle holding both, intersection is exactly the common part (None if disjoint), encloses/enclosesPoint/crossesX/crossesY agree with point membership, and relationTo returns encloses, enclosed, intersects or separate accordingly; width, height, area, diagonal, contour, centerPoint, points, xFromLeft and yFromBottom describe that rectangle.",
     ["inputs"], "all sets of points (any magnitude), all pairs of rectangles including touching, nested, degenerate and empty ones",
     "Existing tests use BoundsRectangle only indirectly through two or three fixed lines; the algebra quantifies over all rectangles.",
     [PU], [("BoundsRectangle constructor, union, intersection, relationTo", PU + ":BoundsRectangle")],
     ["BoundsRectangle"],
     "property-based testing against an interval-algebra model",
     "Exact comparisons against an independent interval model.")

prop("C15", "Transforms compose and apply point by point",
     "Transform(m1,...,mk) maps every point as applying Transform(m1), then Transform(m2), ... in that order does, with the homogeneous coordinate divided out, and its transform is the matrix product. applyToSegment, applyToContour and applyToContours map every point with applyToPoint and preserve nesting and order; no argument is ever modified.",
     ["inputs"], "all chains of 3x3 matrices (affine and perspective), all points and nested contours",
     "The one existing test composes a single fixed rotation.",
     [TR], [("row-vector multiplication and concatenation", TR + ":concatenateMatrices"), ("applyToPoint normalisation", TR + ":applyToPoint"), ("applyTo*", TR + ":applyToContours")],
     ["Transform", "Transform.applyToPoint", "Transform.applyToContours"],
     "property-based testing against exact rational homogeneous arithmetic",
     "Exact Fraction matrix oracle with rounding tolerance.")

prop("C16", "Named transforms perform the geometric map they name",
     "translate, scale, shear, mirror, mirrorAround, rotation, rotationAbout, moveAndRotate, rotateAndMove, perspective and perspectiveFrom, and the rotate...About helpers, perform the named map for all parameters: rotation is counter-clockwise by default and clockwise on request, exact for multiples of 90 degrees, about-variants fix their centre, mirrors are involutions that flip about the named axis, and each clockwise rotation undoes the counter-clockwise one.",
     ["inputs"], "all angles (negative, beyond 360, multiples of 90), centres, factors, axis flags and points",
     "The existing test checks one 90 degree rotation and one translation pair.",
     [TR, PU], [("matrix constructors", TR + ":_rotationMatrix"), ("rotationAbout, mirrorAround, perspectiveFrom", TR + ":rotationAbout"), ("rotate*About", PU + ":rotatePointAbout")],
     ["Transform.*", "PathUtilities.rotate*About"],
     "property-based testing against closed-form geometry",
     "Closed-form maps computed independently with complex/real arithmetic.")

prop("C17", "Line utilities agree with exact plane geometry",
     "length, slope (inf if vertical), slopeAngle, rawSlopeAngle, midpoint, getDeltas, endPoints and the vertical/horizontal/diagonal tests describe the chord of a segment given as tuples or complex numbers, of any order where defined. intersectionPoint returns the common point of two lines when both segments contain it and None when they are parallel or do not meet; pointOnLine is true exactly for points of the closed segment, its end points included; flatten, minMax and toMicros keep their documented meaning.",
     ["inputs"], "all segments and points; exact decisions on integer/half-integer coordinates, proper crossings and clear misses on arbitrary floats",
     "Existing tests check five fixed lines; decisions must be right for every relative position.",
     [PU, BU], [("intersectionPoint via lli and bounds", PU + ":intersectionPoint"), ("pointOnLine", PU + ":pointOnLine"), ("slope etc.", PU + ":slope")],
     ["PathUtilities functions"],
     "property-based testing against exact rational plane geometry",
     "Exact rational predicates on representable coordinates; margins on floats.")

prop("C18", "Matrix inversion returns the inverse or None",
     "For every well-conditioned square matrix of any size matrixInvert returns a matrix whose product with the argument on either side is the identity up to rounding, whatever the order of rows and however small or zero the leading entries. It returns None for non-square matrices and for singular ones whose dependency is exact (a zero row or column, equal or doubled rows of small integers), and never modifies its argument.",
     ["inputs"], "all well-conditioned matrices up to 8x8 including permuted/zero-pivot/badly scaled ones; singular and non-square ones",
     "One fixed 3x3 example with a unit pivot is tested; pivoting and singularity quantify over all matrices.",
     ["PathLib/MatrixInversion.py"], [("Gauss-Jordan elimination with row swaps", "PathLib/MatrixInversion.py:matrixInvert")],
     ["matrixInvert"],
     "property-based testing against exact rational inversion",
     "Exact Fraction inverse and condition number drive the tolerance.")

prop("C19", "Curve fitting interpolates and is least-squares optimal",
     "fit(points) returns control points of a curve of order n-1 that passes through every point at its time value; time values run from 0 to 1, increase with cumulative chord length (polygonal) or uniformly, and bestFit with fewer control points than points is the least-squares optimum. basisMatrix(n) converts Bernstein control points into polynomial coefficients for every n, binomial(n,k) is the binomial coefficient for every n in any order of calls, and multiply, transpose, row, col, formTMatrix and getPointValuesColumn are the matrix operations they name.",
     ["inputs", "histories"], "all point sequences with well-conditioned systems, all matrices, all call orders of binomial",
     "Existing tests check multiply and transpose on one example each; fitting itself is untested.",
     ["PathLib/CurveFitting.py", "PathLib/MatrixInversion.py"], [("bestFit normal equations", "PathLib/CurveFitting.py:bestFit"), ("basisMatrix", "PathLib/CurveFitting.py:basisMatrix"), ("binomial growing table", "PathLib/CurveFitting.py:binomial")],
     ["fit", "bestFit", "computeTimeValues", "basisMatrix", "binomial"],
     "property-based testing: interpolation, exact identities and a numpy least-squares reference",
     "Tolerances follow the condition number of the normal equations; ill-conditioned cases are counted and skipped.")

prop("C20", "The segment pen records closed, connected outlines faithfully",
     "For every pen call sequence of moveTo, lineTo, curveTo, qCurveTo and closePath, contours holds one contour per non-empty closed path, in order, whose segments start where the previous one ended, return to the start (a closing line is added only if needed), and reproduce the drawn geometry. Zero-length lines are dropped, runs of quadratic off-curve points get their implied midpoints for any run length, and empty paths, and paths dropped by a moveTo before being closed, leave no contour; closing again adds nothing.",
     ["histories"], "all well-formed pen call sequences over any number of contours",
     "No test touches SegmentPen; the property quantifies over call histories.",
     ["PathLib/SegmentPen.py"], [("moveTo/lineTo/curveTo/qCurveTo/closePath state", "PathLib/SegmentPen.py")],
     ["SegmentPen.contours"],
     "model-based property testing of pen call histories",
     "Reference pen model over generated call sequences, compared exactly.")

prop("C21", "Composite glyphs expand to transformed component outlines",
     "addComponent(name, (xx,xy,yx,yy,dx,dy)) appends the named glyph's contours with every point mapped to (xx*x+yx*y+dx, xy*x+yy*y+dy), after the contours already there and in order, for arbitrarily nested components and mixed with direct drawing. Drawing a composite never changes what another glyph draws.",
     ["histories", "inputs"], "all acyclic glyph sets with nested components and arbitrary affine transformations",
     "No test touches SegmentPen; order and orientation of nested transforms need compositions to show.",
     ["PathLib/SegmentPen.py", TR], [("addComponent", "PathLib/SegmentPen.py:addComponent"), ("Transform", TR)],
     ["SegmentPen.addComponent"],
     "property-based testing over generated glyph trees against a recursive model",
     "Recursive exact-arithmetic model of component expansion.")

prop("C22", "SVG path strings draw exactly the contour",
     "d() of a contour of connected lines, quadratics and cubics is a valid SVG path string which, read back by the SVG path grammar, draws exactly the contour's segments in order with identical coordinates, apart from zero-length lines which may be omitted. Horizontal/vertical shorthands and repeated-command compaction never change what is drawn.",
     ["inputs"], "all connected contours of order 1-3 segments with int or float coordinates of any magnitude",
     NOTESTS + "the pen position and last-command state make errors depend on the sequence of segments.",
     [BZ], [("BContour.d command compaction", BZ + ":BContour.d")], ["BContour.d"],
     "property-based round-trip testing with an independent SVG path parser",
     "Round trip through an independent parser of the SVG path grammar, exact coordinates.")

prop("C23", "Closest-point search is consistent and at least as good as sampling",
     "findClosestPoint(p, steps) on a contour returns (distance, q) where q lies on the contour, distance is the distance from p to q, and distance is never larger than that to the nearest of the contour's sampled lookup-table points, for any number of curves and any steps >= 2. The search goes on between the lookup-table points: where the distance has a single minimum on the stretch of contour between the neighbours of the (unique) nearest table point, the result exceeds that minimum by at most the distance the contour covers in 0.2/(steps-1) + 0.006 of a curve's parameter range. BContour.getLUT(steps) consists of every curve's own table in order with each shared joint listed once.",
     ["inputs"], "all contours of 1-5 connected curves, query points near, far, on and beyond joints, steps from 2 to several hundred",
     NOTESTS + "index arithmetic across curves and refinement only fail for particular positions and step counts.",
     [BZ], [("findClosestPoint index mapping", BZ + ":findClosestPoint"), ("_refineBinary", BZ + ":_refineBinary"), ("BContour.getLUT", BZ + ":BContour.getLUT")],
     ["BContour.findClosestPoint", "BContour.getLUT"],
     "property-based testing against brute-force closest point",
     "Brute-force nearest-point oracle and membership test.")

prop("C24", "Contours and outlines stay consistent under editing",
     "After any sequence of item assignments, deletions and queries, a BContour behaves exactly like one freshly built from its current segments: start, end, iteration, indexing, bounds, lookup tables, path string and closest point; reading, replacing or deleting an index past its ends raises IndexError, and tables, rectangles and curves handed out before stay as they were. A contour's boundsRectangle is the tight union of its curves' bounds, an outline's that of its contours (also after those have been edited), and pathFromSegments, segmentFromPoints, unzipPoints, bContours and contours give back what they were given.",
     ["histories"], "all edit/query histories on contours of any length; all outlines",
     NOTESTS + "stale caches show only after particular edit/query histories.",
     [BZ, PU], [("BContour __setitem__/__delitem__ and caches", BZ + ":BContour"), ("BOutline bounds union", BZ + ":BOutline")],
     ["BContour", "BOutline"],
     "stateful model-based property testing of edit/query histories",
     "Each query after each edit is compared with a freshly built contour.")

prop("C25", "Plotted paths draw exactly the given geometry",
     "drawContours, drawPaths, drawCurve, drawSkeleton, drawHull, drawPointsAsSegments, drawPointsAsCircles and drawArrow append SVG elements whose path data, read by the SVG grammar, draw exactly the given geometry (zero-length lines may be omitted), filled or stroked, in plain and in compacting (poly) mode, for any number of contours per call and calls per plotter; drawContours closes its contours when asked, drawPaths draws open paths. Skeletons and hulls label each control point with its coordinates, drawText puts its text at the given point. Every drawing call that is given a colour or fill restores the plotter's previous fill and stroke attributes, and push/pop of attributes nest.",
     ["histories", "inputs"], "all sequences of drawing calls with all option combinations",
     "ContourPlotter cannot even be imported here for lack of FontDocTools; nothing tests it.",
     ["PathLib/ContourPlotter.py"], [("drawContours/drawPaths command emission and poly compaction", "PathLib/ContourPlotter.py:drawContours"), ("push/pop attribute stacks", "PathLib/ContourPlotter.py:pushStrokeAttributes")],
     ["content of the plotted SVG path elements"],
     "property-based round-trip testing of drawing histories with an SVG path parser, over a stand-in drawing engine",
     "FontDocTools is absent; a minimal stand-in records what ContourPlotter emits. Trusted: the stand-in's attribute setters.")

prop("C26", "Colour lookup and generation follow the CSS table",
     "Color.fromName accepts every CSS/SVG colour keyword in any letter case and gives its defined RGB value, returns None for strings that are not purely letters and raises ValueError for other words. randomHSLColor advances the hue by 73 degrees modulo 360 from the current hue on every call and returns the colour of that hue at 50% saturation and lightness; randomRGBColor always yields components in 0..255, and each of those values comes up.",
     ["inputs", "histories"], "all strings; all start hues and call counts",
     "Color cannot be imported here for lack of FontDocTools; nothing tests it.",
     ["PathLib/Color.py"], [("keyword table", "PathLib/Color.py:_keywords"), ("hue stepping", "PathLib/Color.py:randomHSLColor")],
     ["Color.fromName", "Color.randomHSLColor", "Color.randomRGBColor"],
     "property-based testing against an independent CSS table and HSL conversion, over a stand-in base class",
     "FontDocTools is absent; a stand-in base class stores the components.")

prop("C27", "Direction classification matches the control polygon",
     "direction is up when the y coordinates of the control points never decrease from start to end and down when they never increase (up wins for quadratics and cubics that are level throughout), flat for horizontal lines, and mixed otherwise, for lines, quadratics and cubics. A curve called up or down is indeed monotone in y.",
     ["inputs"], "all lines, quadratics and cubics including ties between consecutive y values",
     NOTESTS + "ties and order-specific branches multiply the cases.",
     [BZ], [("_computeDirection", BZ + ":_computeDirection")], ["Bezier.direction"],
     "property-based testing against a monotonicity oracle",
     "Exact comparisons.")

prop("C28", "Numeric primitives compute what they name",
     "droots returns the parameters where the line or quadratic with the given Bernstein coefficients vanishes (all real ones, none otherwise), lli/lli4/lli8 the point common to two infinite lines or None if parallel, and lerp, map, crt, angle, approximately, between, sqrt, removeDuplicates, quadraticRatio and cubicRatio the function they name for all arguments in range. Results stay accurate when the leading coefficient is zero or tiny. The Legendre-Gauss table tValues/cValues integrates every polynomial of degree up to 47 over [-1,1].",
     ["inputs"], "all coefficient lists, lines, intervals and values of moderate size",
     "No existing test calls them directly except line intersection on a few examples; accuracy must hold for all coefficient relations.",
     [BU], [("droots", BU + ":droots"), ("lli8", BU + ":lli8"), ("map, lerp, angle, ratios", BU + ":map")],
     ["BezierUtilities functions"],
     "property-based testing against exact rational/high-precision references",
     "Fraction and high-precision references.")

prop("C29", "Outlines survive the way from the pen to the drawing",
     "The stages of the library fit together: the contours a SegmentPen records, directly or as a component, can be handed on as they are to Transform, flatten, BoundsRectangle, BOutline and ContourPlotter, one transform after the other or composed into one, and the outline that comes out - its curves, start and end points, bounds, path strings and plotted paths - is the exact image of what was drawn. Drawing that outline's curves, or what its path strings draw, into another pen records the same contours again; applying the inverted matrix gives the original contours back; and no stage alters what an earlier one handed out.",
     ["inputs", "histories"], "all sequences of pen calls, component transformations and further affine transforms",
     NOTESTS + "the stages are tested apart, if at all; that the result of each is valid input of the next, with any mixture of segment types, repeated points, implied points and transforms, is a statement about all combinations.",
     ["PathLib/SegmentPen.py", TR, PU, BZ, "PathLib/ContourPlotter.py", "PathLib/MatrixInversion.py"],
     [("recording", "PathLib/SegmentPen.py:contours"), ("transforming", TR + ":applyToContours"), ("outline", BZ + ":BOutline"), ("path string", BZ + ":d"), ("bounds", PU + ":fromCoutours"), ("plotting", "PathLib/ContourPlotter.py:drawContours"), ("inverse", "PathLib/MatrixInversion.py:matrixInvert")],
     ["SegmentPen.contours", "Transform.applyToContours", "BOutline", "BContour.d", "ContourPlotter.drawContours", "ContourPlotter.drawPaths", "matrixInvert"],
     "property-based testing: generated pen programs sent through every stage, against an exact rational model of the image; round trips through path strings, a second pen and the inverse",
     "Exact rational model of the drawn geometry; independent SVG path reader.")

prop("C30", "Curve geometry does not depend on position, orientation or direction of travel",
     "Moving a curve of order 1 to 6 by a translation, rotation, reflection or uniform scaling moves what get, midpoint, getLUT, hull, dcPoints, raiseOrder, split, getABC (A and B), normal and offset points answer in the same way, scales its length by the same factor and leaves the ratio of getABC as it is; under quarter turns, reflections in the axes, translations and scalings its boundsRectangle moves along, under other rotations the moved old box encloses the new one. Travelling the other way (control points reversed) gives the same points, bounds and length at mirrored parameters, opposite odd derivatives and normals, and sub-curves exchanged and reversed. The same holds for the start, end, lookup table and bounds of contours and outlines.",
     ["inputs"], "all curves of order 1-6 and contours of them, all similarities that keep coordinates moderate, all parameters",
     NOTESTS + "a threshold, a special case for an axis or an asymmetry between the two ends of a curve shows only in comparisons between differently placed copies of arbitrary curves.",
     [BZ, BU], [("evaluation", BZ + ":get"), ("sub-curves", BZ + ":split"), ("normal", BZ + ":normal"), ("length", BZ + ":length"), ("bounds", BZ + ":boundsRectangle"), ("lookup tables of contours", BZ + ":BContour.getLUT")],
     ["Bezier queries", "BContour.getLUT", "BContour.boundsRectangle", "BOutline.boundsRectangle"],
     "property-based testing: metamorphic relations between a curve, its moved copies and its reverse",
     "Metamorphic; no reference implementation needed.")

prop("C31", "Calls do not influence one another",
     "Whatever has been done before or is being done in between with other objects - curves, contours, outlines, pens with components, plotters, rectangles, transforms, line utilities, matrices, curve fitting and colour names, also on values equal to or nearly equal to the present ones, and also when lists that functions returned were changed by their receiver - every object and function gives the same answers, step by step, as it does by itself in a freshly started interpreter, and answers given by curves and functions earlier do not change afterwards. Only the random colours have a memory.",
     ["inputs", "histories"], "all interleavings of up to four scripts of queries and edits of related data, over the public interface of every module",
     NOTESTS + "a memo with an incomplete key, a shared default or class attribute or a returned table that is also kept only shows when related calls meet in one process, and a comparison within that process would see the same wrong value twice.",
     [BZ, BU, PU, TR, "PathLib/SegmentPen.py", "PathLib/ContourPlotter.py", "PathLib/CurveFitting.py", "PathLib/MatrixInversion.py", "PathLib/Color.py"], [("per-curve caches", BZ + ":boundsRectangle"), ("coefficient table", "PathLib/CurveFitting.py:binomial"), ("basis matrices", "PathLib/CurveFitting.py:basisMatrix"), ("matrix products", TR + ":concatenateMatrices"), ("component pens", "PathLib/SegmentPen.py:addComponent"), ("attribute stacks", "PathLib/ContourPlotter.py:pushFillAttributes")],
     ["all public functions and classes"],
     "stateful property-based testing: interleaved scripts against each script alone in a fresh copy of the library",
     "Differential against a freshly loaded copy of the same modules; only dependence on history can be seen this way, wrong answers as such are the business of the other properties.")

prop("C32", "Any kind of sequence and number will do",
     "Wherever the library takes a segment, a contour or a list of contours, a tuple serves as well as a list, as the declared Segment and Contour types promise, and whole coordinates, distances, angles and parameters may be given as int or float: curves, contours, outlines, the pen, the plotter, transforms, rectangles, line utilities and curve fitting then give equal answers, and path strings and drawings differ at most in the way numbers are written.",
     ["inputs"], "all data of the scripts of C31, written with lists, with tuples, with ints where possible and with floats only",
     NOTESTS + "tests use one way of writing their data; a concatenation, an integer division or a type test shows only with another.",
     [BZ, BU, PU, TR, "PathLib/PathTypes.py", "PathLib/SegmentPen.py", "PathLib/ContourPlotter.py", "PathLib/CurveFitting.py"], [("declared types", "PathLib/PathTypes.py:Segment"), ("contours", BZ + ":BContour"), ("transforms", TR + ":applyToContours"), ("flattening", PU + ":flatten"), ("implied points", "PathLib/SegmentPen.py:qCurveTo")],
     ["all public functions and classes"],
     "property-based testing: metamorphic relation between differently written copies of the same data",
     "Metamorphic; path strings are compared number by number. Points themselves are tuples, as declared.")

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    done = [p for p in P if os.path.exists(os.path.join(HERE, "pbt", "props", p["id"].lower() + ".py"))]
    todo = [dict(property=p["id"], reason="check not built yet") for p in P if p not in done]
    man = dict(version=1, setup_cmd="bash setup.sh",
               checks=[dict(property=p["id"],
                            quick_cmd=f"bash check.sh {p['id']} quick",
                            thorough_cmd=f"bash check.sh {p['id']} thorough",
                            evidence_file=f"evidence/{p['id']}.json",
                            technique=p["technique"], level="exploration", level_note=p["note"]) for p in done],
               not_applicable=NOT_APPLICABLE + todo,
               notes="No hooks are used in /repo; every check imports /repo's PathLib as it is. known_findings.json lists genuine defects (fixed or recorded).")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
