#!/usr/bin/env python3
"""The properties and claims, in one place: writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, F, T, CAD, IO, PL = ("igakit/nurbs.py", "igakit/igalib.f90", "igakit/transform.py", "igakit/cad.py",
                        "igakit/io.py", "igakit/plot.py")


def P(id, title, statement, over, text, why, files, mech, observe, note):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=why, files=files, mech=mech, observe=observe, note=note)


SAMPLED = "The tests evaluate a handful of hand-picked objects and mostly check shapes or self-consistency; "
PROPS = [
 P("C01", "Evaluation returns the exact rational spline value at every parameter",
   "Calling a NURBS object (curve, surface or volume) at any parameters inside its domain returns the value of the rational tensor-product spline it denotes, at knots, at both ends of the domain and between them, for clamped and unclamped knot vectors alike, in an array whose shape is the grid of the given parameters (scalars drop their axis, omitted parameters mean the Greville abscissae) followed by the components. The object's own fields, or fields passed by the caller in any memory layout, are interpolated with the same rational basis and come back with one trailing axis for vector fields and none for scalar fields. Parameters outside the domain and fields of the wrong shape are refused.",
   ["inputs"], "all degrees, knot vectors, nets, weights, dimensions 1-3, parameter grids and field arrays",
   SAMPLED + "they never compare values at repeated knots or at unclamped ends with an independent definition.",
   [N, F], [("__call__/evaluate", N), ("Evaluate1/2/3, FindSpan, BasisFuns", F)], ["NURBS.__call__", "NURBS.evaluate"],
   "exact blossom evaluation in TLA+ against the observed doubles, 1e-9 relative"),
 P("C02", "Derivatives are the exact parametric derivatives of the rational spline",
   "The gradient, Hessian and every derivative of order one to four returned for any object at any parameters in its domain equal the true partial derivatives of the projected geometry or field (quotient rule included), taken from the right at interior breaks and from the left at the upper end, with one trailing axis of length dim per order, symmetric in those axes, and zero where the order exceeds the degree. The mapped gradient multiplied by the Jacobian of the geometry gives the parametric gradient. Orders or options that are not supported are refused with an exception.",
   ["inputs"], "all objects, orders 1..4, parameter grids, own and given fields, mapped or not",
   SAMPLED + "derivatives of rational objects above first order are never compared with a definition.",
   [N, F], [("gradient/hessian/derivative", N), ("TensorProd, Rationalize, GeometryMap", F)], ["NURBS.gradient", "NURBS.hessian", "NURBS.derivative"],
   "exact quotient recursion over blossom derivatives; the mapped gradient through the chain rule"),
 P("C03", "Basis-function kernels agree with the definition of the B-spline basis",
   "For every degree, knot vector and parameter the span finder returns the nonempty span holding the parameter, the basis-function routines return the values and all requested derivatives of exactly the degree+1 functions alive there (nonnegative, summing to one; derivatives summing to zero and vanishing above the degree), and the Greville abscissae and knot multiplicities are exact. The quadrature tables list, for each nonempty span in order, its first basis index, half length, points inside the span and the basis derivatives at them, and integrate every polynomial of the order the rule promises; the collocation tables do the same at caller-given points.",
   ["inputs"], "all degrees, knot vectors (clamped or not, repeated knots), parameters, derivative orders and rule sizes",
   "The tests call these kernels on one or two knot vectors and check array shapes.",
   [F, "igakit/igalib.pyf"], [("bsp and iga modules", F)], ["igalib.bsp.*", "igalib.iga.*"],
   "kernels called directly; compared with the blossom and Cox-de Boor definitions"),
 P("C04", "Knot insertion and refinement never change the object",
   "Inserting a knot any admissible number of times, or refining by any list of knots in any order, adds exactly those knots to the knot vector of that axis and leaves the geometry, the weights and every field the same function of the parameters, at interior knots, at the ends of the domain and for unclamped knot vectors. Requests outside the domain, beyond the maximal multiplicity or with a negative count are refused and leave the object as it was.",
   ["inputs"], "all objects, axes, knots, multiplicities, orders of the requested list",
   SAMPLED + "insertion is tested at one interior knot of clamped curves, compared on a coarse grid.",
   [N, F], [("insert/refine", N), ("KnotInsertion, RefineKnotVector", F)], ["NURBS.insert", "NURBS.refine"],
   "identity nets make the observed operator a matrix compared with the exact one"),
 P("C05", "Degree elevation never changes the object",
   "Raising the degree of any axis by any count leaves geometry, weights and fields the same function of the parameters, raises the degree by exactly that count and raises the multiplicity of every distinct knot by exactly that count, so that continuity at every break is preserved. Objects with an unclamped axis are elevated on their domain. Negative counts are refused.",
   ["inputs"], "all objects, axes, counts, knot multiplicities, clamped or not",
   SAMPLED + "elevation is tested on a few clamped objects.",
   [N, F], [("elevate", N), ("DegreeElevate", F)], ["NURBS.elevate"],
   "exact elevated net by blossoming, compared entry by entry"),
 P("C06", "Knot removal stays within the allowed deviation and removes what it can",
   "Removing knots takes away only copies of the requested knot, at most as many as requested or present, never at the ends of the domain, and moves the object by no more than the allowed deviation per removal. A copy whose removal does not change the function at all (for example one that was just inserted) is removed, including on rational objects and for any field scale.",
   ["inputs", "histories"], "all objects, axes, knots, counts, deviations; after any insertions",
   SAMPLED + "removal is tested once after one insertion.",
   [N, F], [("remove", N), ("RemoveKnot", F)], ["NURBS.remove"],
   "the observed object is written back into the old space exactly and compared"),
 P("C07", "Clamping and unclamping never change the object on its domain",
   "Clamping or unclamping either side or both sides of any axis, to any admissible continuity, leaves geometry, weights and fields the same function on an unchanged parametric domain; afterwards the chosen ends repeat the end knot degree+1 times (clamped) or are continued periodically with the requested continuity (unclamped), and the other end is untouched. Clamping after unclamping restores the clamped form, and inadmissible sides or continuities are refused.",
   ["inputs", "histories"], "all objects, axes, sides, continuities; any order of the two operations",
   SAMPLED + "only round trips on a few curves and surfaces are tested.",
   [N, F], [("clamp/unclamp", N), ("ClampKnot/UnclampKnot", F)], ["NURBS.clamp", "NURBS.unclamp"],
   "exact nets by blossoming"),
 P("C08", "Slices, extractions and boundaries are the restriction of the object",
   "A slice between any two parameters is a new object, clamped at both cuts, that is the same function on the smaller domain; extracting at a parameter, or taking a boundary, gives a new object of one dimension less that is the same function with that parameter fixed, keeping degrees, knots and fields of the other axes. The source object is left as it was, and empty, reversed or out-of-domain requests are refused.",
   ["inputs"], "all objects, axes, cut parameters (breaks, repeated knots, ends, between), clamped or not",
   SAMPLED + "cuts are tested at a few parameters of clamped objects.",
   [N, F], [("slice/extract/boundary", N), ("Extract", F)], ["NURBS.slice", "NURBS.extract", "NURBS.boundary"],
   "exact nets by blossoming; frame condition on the source object"),
 P("C09", "Reordering and reparametrising an object keeps its points",
   "Transposing or swapping axes permutes degrees, knots, net and fields together; reversing any set of axes runs the same points backwards over the same domain; remapping an axis to a new interval is the affine change of that parameter, with both requested ends hit exactly. Knot multiplicities are preserved, axes may be counted from the end, and invalid axes or intervals are refused.",
   ["inputs", "histories"], "all objects, permutations (negative axes included), axis lists, intervals",
   SAMPLED + "they use one permutation and one interval.",
   [N], [("transpose/swap/reverse/remap", N)], ["NURBS.transpose", "NURBS.swap", "NURBS.reverse", "NURBS.remap"],
   "pure reindexing in TLA+, exact"),
 P("C10", "Affine maps move every point by exactly that map",
   "Translating, scaling, rotating or transforming an object by any affine matrix maps each of its points by that affine map and leaves parameters, weights and fields unchanged; vector and per-axis arguments mean the same map, and rotations about any axis are right handed by the given angle. Transforms compose in the order they are chained, inversion undoes them, and in-place and copying variants act on the right object.",
   ["inputs", "histories"], "all matrices, vectors, axes, angles; chains of transforms; all objects",
   SAMPLED + "affine maps are tested on a few matrices.",
   [N, T], [("transform class", T), ("translate/scale/rotate", N)], ["NURBS.translate", "NURBS.scale", "NURBS.rotate", "NURBS.transform", "transform.*"],
   "exact matrices; sines and cosines to 1e-25 in TLA+"),
 P("C11", "No operation touches an object or array it was not asked to change",
   "Whatever is done to one object, every other object stays exactly as it was: copies are fully independent, a clone shares its data with its original until an operation gives either of them new data, new objects produced by an operation never change their source and are not changed through it by later operations, and arrays passed in by the caller are never modified. A call that raises leaves every object exactly as it was before the call.",
   ["histories", "inputs"], "all histories of operations, copies, clones and refusals over several objects sharing ancestry",
   "Aliasing shows only for particular sequences of operations on related objects; the tests check single calls.",
   [N, CAD, T], [("copy/clone and in-place rebinding", N)], ["every operation"],
   "bit-for-bit frame condition over the whole heap after every recorded call, with write probes"),
 P("C12", "Construction and attributes present one consistent object",
   "An object built from knots and a control net in any accepted form (two to four space components, or none at all for the identity map of the parameter box, weights given apart or homogeneous, fields scalar or vector, lists or arrays of any layout) has the degrees implied by knots and shape, the points, weights and fields given, and zero for missing coordinates; its attributes always satisfy points = homogeneous/weight. Inconsistent knots, shapes, weights or fields are refused.",
   ["inputs"], "all combinations of knots, control arrays, weights and fields, valid and not",
   "The tests construct a few valid objects and few invalid ones.",
   [N], [("__init__ and attributes", N)], ["NURBS(...)", "attributes"],
   "constructor specified as a function of its arguments; every attribute compared"),
 P("C13", "Breaks, spans and abscissae list exactly what the knots say",
   "The breaks are the distinct knots of the domain with their multiplicities, the spans are the indices of the nonempty knot spans, and the Greville abscissae are the knot averages. The Lagrange and Lobatto points put degree+1 points in every span, shared at the breaks, in increasing order, equally spaced respectively at the Legendre-Lobatto nodes.",
   ["inputs"], "all degrees and knot vectors, clamped or not, repeated knots",
   "The tests compare a few uniform knot vectors.",
   [N, F], [("breaks/spans/greville/lagrange/lobatto", N)], ["NURBS.breaks", "NURBS.spans", "NURBS.greville", "..."],
   "exact sequences; Lobatto nodes checked as roots of the Legendre derivative"),
 P("C14", "Making objects compatible gives one common space and changes none of them",
   "Making any number of curves, surfaces or volumes compatible returns copies that all have, along each axis, the same degree (the largest of them) and the same clamped knot vector (the union with the largest needed multiplicities) on the union of the parameter ranges; each copy is the same set of points in the same order as its source, remapped affinely only where ranges differ. The sources are left as they were.",
   ["inputs"], "all tuples of objects with mixed degrees, knots, ranges, clamping",
   "The tests use one or two pairs of simple curves.",
   [CAD], [("compat", CAD)], ["cad.compat"],
   "exact common space and nets"),
 P("C15", "Primitive shapes are exactly the shapes they name",
   "Lines, bilinear surfaces and trilinear volumes interpolate exactly their corner points; a grid is the identity map of the box with the requested spans, degree and continuity; every circle or arc has all of its points at the given radius from the given center, starts and ends at the given angles and sweeps between them in the right direction at every parameter, for any angle pair that is a nonzero sweep of at most one turn either way.",
   ["inputs"], "all points, radii, centers, angles (either direction, up to a turn), grid sizes, degrees, continuities and ranges",
   "The tests sample a few radii and angles with allclose on few points.",
   [CAD], [("line/circle/linear/bilinear/trilinear/grid", CAD)], ["cad.line", "cad.circle", "cad.bilinear", "cad.trilinear", "cad.grid"],
   "exact nets for the multilinear shapes; X^2+Y^2=r^2 W^2 as an identity of control nets for arcs"),
 P("C16", "Extruded, ruled, swept and Coons shapes satisfy their boundary conditions",
   "Extruding displaces the object along the given vector, ruling joins two objects by straight segments at equal parameters, sweeping sums section and trajectory, and a Coons surface has the four given curves as its boundaries at every parameter, for rational objects of any compatible or incompatible degree and knots. The inputs are left as they were, and inputs that cannot be combined (wrong dimensions, curves whose end points or end weights do not meet) are refused.",
   ["inputs"], "all sections, trajectories, curve quadruples, displacement vectors and axes",
   "The tests combine a few simple curves.",
   [CAD], [("extrude/ruled/sweep/coons", CAD)], ["cad.extrude", "cad.ruled", "cad.sweep", "cad.coons"],
   "exact nets compared with the specification's construction"),
 P("C17", "Revolving turns every point about the axis by the angle of its parameter",
   "Revolving an object about any point and axis by any angle or angle pair gives an object whose iso-lines at the start and end are the input rotated by those angles, all of whose points keep the distance from the axis and the height along it of the point they come from, and whose weights reduce to the input's at the breaks. The input is left as it was.",
   ["inputs"], "all profiles (rational or not), axis points and directions, angles",
   "The tests revolve a few profiles about a few axes and check no geometry between the breaks.",
   [CAD], [("revolve", CAD)], ["cad.revolve"],
   "distance and height identities at the sampled grid, exact end rotations"),
 P("C18", "Joining two objects traces one and then the other",
   "Joining two objects along an axis whose meeting faces coincide (in points, weights and fields) gives one object that is the first and then the second, each the same points in the same order, over the first's parameter range followed by a range of the second's length; objects of different dimension or a bad axis are refused, and the inputs are left as they were.",
   ["inputs"], "all pairs of objects with mixed degrees, knots, weights that share a face, all axes",
   "The tests join one or two curves.",
   [CAD], [("join", CAD)], ["cad.join"],
   "exact restriction of the result to each part"),
 P("C19", "Model refinement and knot generation give exactly the requested space",
   "Refining a model to a degree, continuity or factor raises degrees and splits spans exactly as requested, with the requested continuity at the new breaks, without changing the object or its input. Generated knot vectors have the requested spans, degree, continuity and range, clamped or wrapped periodically.",
   ["inputs"], "all models, factors, degrees, continuities; all spans, degrees, continuities, ranges, wrap",
   "The tests refine one or two models.",
   [CAD, F], [("refine", CAD), ("KnotVector", "igakit/igalib.pyf")], ["cad.refine", "iga.KnotVector"],
   "exact spaces and nets"),
 P("C20", "Objects and vectors survive a PetIGA file round trip exactly",
   "Writing any object, with or without geometry and fields, to a PetIGA file and reading it back gives the same degrees, knots, points, weights and fields to the last bit that the file's precision keeps, and the bytes on disk follow the documented big-endian layout. Vectors written are read back identically, and sparse matrices are read as the entries the file lists, in either index width and precision.",
   ["inputs"], "all objects, field counts, precisions, index widths; vectors and matrices of any size",
   "The tests write and read a few objects of one precision.",
   [IO], [("PetIGA", IO)], ["PetIGA.write", "PetIGA.read", "PetIGA.write_vec", "PetIGA.read_vec", "PetIGA.read_mat"],
   "the bytes of every file are decoded in TLA+"),
 P("C21", "A damaged PetIGA file is refused, never half read",
   "Reading a PetIGA file that was cut off at any byte, or whose header is not the expected one, raises an exception and never returns an object, vector or matrix, and reading never changes the file.",
   ["crash_points", "inputs"], "every truncation point of every written file; every wrong class id",
   "The tests never read a damaged file.",
   [IO], [("PetIGA readers", IO)], ["PetIGA.read", "PetIGA.read_vec", "PetIGA.read_mat"],
   "every byte-length prefix enumerated"),
 P("C22", "VTK files describe exactly the sampled object",
   "A written VTK file is a valid structured or rectilinear grid whose dimensions, points and point data are, in the file's ordering with the first axis fastest, the object and the requested scalar and vector fields evaluated at the requested sampling of each axis.",
   ["inputs"], "all objects of dimension 1-3, samplers, scalars/vectors selections, geometry or not",
   "The tests only write files, and never look at the content.",
   [IO], [("VTK", IO)], ["VTK.write"],
   "file bytes parsed in the driver, values compared exactly in TLA+"),
 P("C23", "Plotting draws points of the object and nothing else",
   "Every curve, surface, control grid, knot line and point set handed to a plotting back end consists of points of the object (or of its control net or of its knot lines) at the requested resolution and in order, for curves, surfaces and volumes, with the colour, marks and options asked for, on the back end its plotter was last told to use, and plotting leaves the object as it was.",
   ["inputs", "configurations"], "all objects, plot kinds, resolutions and back ends",
   "The tests run the plot functions without looking at what is drawn.",
   [PL, "igakit/plot_mpl.py", "igakit/plot_nul.py"], [("Plotter", PL)], ["plot.plt.*"],
   "calls to a recording back end are compared with the specified point sets"),
 P("C25", "Any history of operations behaves as the history of its mathematical effects",
   "After any sequence of modelling operations, queries, copies and refused calls over several related objects, every object is exactly what applying the individual operations' effects one after the other gives: the same function where the operations preserve it, and a well-formed object (sorted knots, valid multiplicities, matching shape, finite net) after every step.",
   ["histories"], "all sequences of calls on several objects",
   "The tests apply one operation at a time to fresh objects.",
   [N, F, T], [("NURBS", N)], ["NURBS.*"],
   "whole sessions validated step by step against the specification"),
]
CLAIMED = [l.split("#")[0].strip() for l in open(os.path.join(VERIF, "tools", "claimed.txt")) if l.split("#")[0].strip()]


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"],
                why_tests_cant=p["why_tests_cant"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    base = ("TLA+ specification; TLC explores its models exhaustively within their constants and validates every recorded "
            "call of the real code against it. ")
    checks = [dict(property=p["id"], quick_cmd="VERIF_TIER=quick ./check.sh " + p["id"],
                   thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
                   technique="TLA+/TLC: explicit specification, model behaviours replayed on the code, trace validation",
                   level="model_checking",
                   level_note=base + p["note"] + ". Trusted: TLC, the rational-arithmetic override (self-checked), the recording driver. "
                   "Sessions are enumerated or sampled, so inputs outside them are not covered.")
              for p in PROPS if p["id"] in CLAIMED]
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
             not_applicable=[dict(property=p["id"], reason="check still under construction")
                             for p in PROPS if p["id"] not in CLAIMED],
             notes="No hooks in /repo: everything is observed through the public API and igakit.igalib.")
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    assert all(len(p["title"]) <= 80 for p in PROPS), [p["title"] for p in PROPS if len(p["title"]) > 80]


main()
