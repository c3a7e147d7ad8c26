#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand when a
property is added or reworded; no check runs this)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, text, why, files, mech, observe, over=("inputs",), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))

H, F, B, A, D, I, L, C = ("src/h3_index.rs", "src/face_ijk.rs", "src/base_cells.rs", "src/algos.rs", "src/directed_edge.rs", "src/iterators.rs", "src/lat_lng.rs", "src/coord_ijk.rs")

prop("C01", "A point is indexed to the valid cell that contains it",
 "For every latitude and longitude and every resolution from 0 to 15, indexing the point yields a valid cell of exactly that resolution, and the point lies inside that cell (up to rounding error at a cell boundary). A resolution outside of 0 to 15 and a coordinate that is not finite are refused with the resolution error and the coordinate error, respectively.",
 "all pairs of finite coordinates (any longitude and latitude, not only the usual ranges) x 16 resolutions; all other resolutions and all non-finite coordinates",
 "the tests index a handful of points; the places that go wrong are thin: the seams between the 20 faces, the 12 vertices, cell sides and corners at fine resolutions, the poles and the antimeridian",
 [H, F, C, B, L], [("latLngToCell, _faceIjkToH3", H), ("_geoToHex2d, _geoToClosestFace", F), ("_hex2dToCoordIJK, _upAp7, _upAp7r", C), ("faceIjkBaseCells", B)],
 ["latLngToCell"],
 technique="property-based testing: structured point generators against a geometric reference model (containment oracle)",
 note="random search over points concentrated at the delicate places; trusts the reference model's geometry (icosahedron orientation and base cell homes are the specification's constants) and allows 2e-11 rad of rounding at boundaries (more at face centres)")
prop("C02", "The centre reported for a cell is the cell's centre",
 "For every valid cell, the coordinates reported for it are those of its centre on the icosahedral grid, in the usual ranges of latitude and longitude. In particular they lie on the right face and are not displaced near pentagons or across the edges of the icosahedron.",
 "all valid cells of all 16 resolutions (about 6.6e14)",
 "the tests compare some centres; cells that overhang one or two edges of the icosahedron, or lie in the folded sectors around pentagons, each take their own path",
 [H, F, C, B], [("cellToLatLng, _h3ToFaceIjk", H), ("_adjustOverageClassII, _faceIjkToGeo, _hex2dToGeo", F), ("_downAp7, _downAp7r", C)],
 ["cellToLatLng"],
 technique="property-based testing: exhaustive coarse resolutions and random cells against an exact reference model",
 note="exhaustive for resolutions 0 to 6, random beyond; tolerance 1e-11 rad, wider next to the poles; trusts the reference model")
prop("C03", "A cell's centre is indexed to that cell",
 "Indexing the reported centre of any valid cell, at the cell's own resolution, gives exactly that cell back.",
 "all valid cells of all 16 resolutions",
 "a round trip must hold for each of 6.6e14 cells; the tests try a few",
 [H, F, C, B, L], [("cellToLatLng, latLngToCell", H), ("_geoToHex2d, _hex2dToGeo", F)],
 ["cellToLatLng", "latLngToCell"],
 technique="property-based testing: round trip over exhaustive coarse resolutions and random cells",
 note="exhaustive for resolutions 0 to 6, random beyond; needs no reference model")
prop("C04", "Exactly the well formed 64-bit values are valid cells",
 "A 64-bit value is accepted as a cell exactly when its high bit and reserved bits are zero, its mode is the cell mode, its base cell exists, every digit down to its resolution is 0 to 6 and every digit beyond is 7, and, in a pentagon base cell, its first digit that is not zero is not the deleted one.",
 "all 2^64 values",
 "the tests try a few malformed values; a validator is wrong on whole classes of values that nobody wrote down",
 [H, B], [("isValidCell, _h3LeadingNonZeroDigit", H), ("_isBaseCellPentagon", B)],
 ["isValidCell"],
 technique="property-based testing: structured and uniform 64-bit values against the bit-level definition",
 note="exhaustive over headers and over one- and two-bit flips of 288 cells, random otherwise")
prop("C05", "Children are exactly the descendants, once each, in ascending order",
 "Listing or iterating the children of a cell at any finer (or its own) resolution yields every descendant cell exactly once, in ascending order, and then ends; below a pentagon the deleted branch is left out at every level and nothing else is. A resolution that is coarser than the cell or does not exist yields nothing.",
 "all valid cells x all requested resolutions",
 "the tests list children of a few cells one or two levels down; carries over several levels and the deleted branch below pentagons depend on cell and depth",
 [I, H], [("IterCellsChildren", I), ("cellToChildren", H)],
 ["cellToChildren", "IterCellsChildren::from_parent"],
 technique="property-based testing: element by element comparison with a reference enumeration",
 note="complete lists up to 20000 children (some up to 117649), prefixes of 20000 beyond")
prop("C06", "The number of children is exact at every depth",
 "For every valid cell and every resolution from its own to 15, the reported number of children is the number of descendants: 7^n for a hexagon n levels down, 1+5(7^n-1)/6 for a pentagon, so that all base cells together account for all 2+120*7^r cells of resolution r. A cell is said to have children at a resolution exactly for these resolutions; any other is refused with the resolution error.",
 "all valid cells x all 32-bit resolutions, up to 15 levels apart",
 "the tests go a few levels down, where small integers suffice",
 [H], [("cellToChildrenSize", H)],
 ["cellToChildrenSize"],
 technique="property-based testing: exhaustive cell classes and resolution pairs, random cells, against an exact recurrence and additivity",
 note="exhaustive over base cells and resolution pairs for centre-line cells; random cells beyond; built with overflow checks")
prop("C07", "A child position names the child at that place of the ordered list",
 "For every parent, finer (or equal) resolution and position, the cell at that position is the one in that place of the ascending list of children, also across the deleted branches below pentagons. A position is valid exactly from 0 up to the number of children; outside of that, for a coarser resolution and for a resolution that does not exist, the domain, mismatch and resolution errors are returned.",
 "all parents x all resolutions x all 64-bit positions",
 "the tests check a few parents and depths; the position arithmetic differs at every seam between subtrees, and the widths only get large many levels down",
 [H], [("childPosToCell, validateChildPos", H)],
 ["childPosToCell", "validateChildPos"],
 technique="property-based testing: positions biased to subtree seams against a reference enumeration by counting",
 note="exhaustive for one to four levels below selected parents of all resolutions; random up to 15 levels")
prop("C08", "A step in a direction reaches the neighbour that lies there",
 "From every cell a step in each of the six directions arrives at the distinct cell that is geometrically adjacent in that direction (as turned by the rotations passed in), in other base cells and around pentagons, too; a step to the centre stays, an invalid direction is refused, and the direction a pentagon lacks never leads to anything but an error or one of its neighbours. Adjacency is symmetric, and the direction reported between two cells is the one that leads from one to the other, or invalid if they are not neighbours.",
 "all valid cells x directions x carried rotations",
 "the tests look at a few neighbourhoods; the step consults two digit tables at every level and two tables of 122 base cells, and has special cases for each way to cross a pentagon",
 [A, B, C], [("h3NeighborRotations, directionForNeighbor, NEW_DIGIT_II/III, NEW_ADJUSTMENT_II/III", A), ("baseCellNeighbors, baseCellNeighbor60CCWRots", B)],
 ["h3NeighborRotations", "directionForNeighbor"],
 technique="property-based testing: exhaustive coarse resolutions and random cells against exact geometry on the unfolded icosahedron",
 note="exhaustive for resolutions 0 to 5, random beyond; trusts the reference model, which is derived from the specification's constants only")
prop("C09", "A disk is exactly the cells within distance k, with true distances",
 "For every valid cell and radius, the disk contains each cell at grid distance 0 to k exactly once, each with its true grid distance, and nothing else, whether or not pentagons are inside, on the rim or at the centre.",
 "all valid origins x radii",
 "the tests check radii 0 to 2 around a few cells; near pentagons a different, recursive algorithm runs whose distances depend on the order of visits",
 [A], [("gridDiskDistances, _gridDiskDistancesInternal", A)],
 ["gridDiskDistances"],
 technique="property-based testing: comparison with breadth first search over a reference model",
 note="all cells of resolutions 0 to 2 with k up to 4, random cells with k up to 9 (23 in the thorough tier)")
prop("C10", "The fast disk is exact and ordered, or reports a pentagon",
 "The fast disk fails with the pentagon error exactly when a pentagon lies within distance k of the origin. Otherwise it lists each cell within distance k exactly once with its true distance, in order of increasing distance.",
 "all valid origins x radii",
 "the tests try a few origins; whether the spiral notices a pentagon depends on where it lies on the spiral",
 [A], [("gridDiskDistancesUnsafe", A)],
 ["gridDiskDistancesUnsafe"],
 technique="property-based testing: comparison with breadth first search over a reference model",
 note="all cells of resolutions 0 to 2 with k up to 4, random cells with k up to 15")
prop("C11", "A ring is exactly the cells at distance k, in sequence, or refused",
 "When no pentagon lies within distance k of the origin, the ring of radius k is returned: every cell at exactly distance k once, each touching the next. When there is one, the ring is either refused with the pentagon error or still exact; it never contains a cell at another distance, a duplicate or a gap.",
 "all valid origins x radii",
 "the tests try a few origins; a ring around pentagons can close by coincidence, which happens from resolution 1 and radius 12 on",
 [A], [("gridRingUnsafe", A)],
 ["gridRingUnsafe"],
 technique="property-based testing: comparison with breadth first search over a reference model",
 note="all cells of resolutions 0 to 2 with k up to 5, of resolutions 0 and 1 up to 24, random cells with k up to 15, wide rings of resolutions 2 and 3")
prop("C12", "Edges join neighbours, and only neighbours, and come apart again",
 "For two cells, a directed edge is produced exactly when they are neighbours, otherwise the not-neighbours error; to a value that is no cell there is no edge. The edge carries the origin and the direction, is valid, is listed among the origin's edges, and yields exactly that origin and destination; the opposite edge exists and yields them swapped.",
 "all ordered pairs of valid cells; valid cells and values that are no cells",
 "the tests build edges around a few cells; crossing base cells and pentagons needs the right direction each time",
 [D, A], [("cellsToDirectedEdge, getDirectedEdgeOrigin, getDirectedEdgeDestination, directedEdgeToCells", D), ("directionForNeighbor", A)],
 ["cellsToDirectedEdge", "directedEdgeToCells", "getDirectedEdgeOrigin", "getDirectedEdgeDestination", "originToDirectedEdges"],
 technique="property-based testing: round trip and reference-model adjacency over exhaustive neighbour pairs and random pairs",
 note="all pairs of base cells, all neighbour pairs of resolutions 0 to 4, random pairs beyond")
prop("C13", "Exactly the well formed 64-bit values are edges, and each cell has its six",
 "A 64-bit value is accepted as a directed edge exactly when its mode is the edge mode, its direction is 1 to 6, the cell it starts from is valid, and the direction is not the one a pentagon lacks. The list of a cell's edges holds one valid edge for each direction in order, leading to each neighbour once, with an empty place for the direction a pentagon lacks; a value that is not in edge mode has no origin and no destination but the invalid-edge error.",
 "all 2^64 values; all valid cells",
 "the tests try a few malformed edges",
 [D, H], [("isValidDirectedEdge, originToDirectedEdges", D), ("isValidCell", H)],
 ["isValidDirectedEdge", "originToDirectedEdges", "directedEdgeToCells"],
 technique="property-based testing: structured and uniform 64-bit values against the bit-level definition; edge lists against a reference model",
 note="exhaustive over headers and the cells of resolutions 0 to 4, random otherwise")
prop("C14", "Reading and writing one field of an index leaves all others alone",
 "Setting the high bit, mode, reserved bits, resolution, base cell or any digit of any 64-bit index to any value of the field's width changes exactly that field, and every field reads back what is stored. A newly made index has cell mode, the given resolution and base cell, the given digit down to the resolution and the unused digit beyond; zeroing a range of digits zeroes exactly these. The published masks and offsets describe the same layout.",
 "all 2^64 values x 20 fields x field values",
 "the tests set a few fields of a few values",
 [H], [("H3_GET_*, H3_SET_*, setH3Index, getResolution", H)],
 ["H3_GET_* / H3_SET_*", "setH3Index", "getResolution"],
 technique="property-based testing: exhaustive fields and values on patterns, random indexes, against the bit layout",
 note="field values that fit the field only")
prop("C15", "Different spellings of the same point give the same cell",
 "Coordinates that denote the same point on the sphere are indexed to the same cell: with whole turns added to the longitude or latitude, continued over a pole, and at a pole with any longitude (points within rounding error of a cell boundary aside).",
 "all points x resolutions x equivalent coordinates",
 "the tests use one spelling of each point",
 [H, F, L], [("latLngToCell", H), ("_geoToHex2d", F), ("_geoAzimuthRads", L)],
 ["latLngToCell"],
 technique="property-based testing: metamorphic relation between equivalent coordinates",
 note="random points as in C01; up to 3 turns either way; points within 3e-12 rad of a boundary are skipped")
prop("C16", "No value makes a function panic, overflow or hang",
 "Whatever 64-bit values are passed as cells and edges, and whatever resolutions, positions, directions and coordinates, every function returns: it gives a result or an error, and never panics, overflows in arithmetic, indexes out of bounds, recurses without end or loops forever.",
 "all 64-bit values for each function, all resolutions, positions and coordinates, small radii",
 "the tests pass almost only valid cells",
 [H, A, D, I, F], [("guards for invalid base cells and digits", A), ("H3_GET_INDEX_DIGIT", H), ("_adjustOverageClassII", F)],
 ["every public function that takes an index"],
 technique="fuzzing: structured and uniform values with overflow, bounds, crash and hang detection",
 note="k up to 5, sequences of single calls; the radius, the carried rotations (0 to 7) and iterators (60 steps) are bounded")
prop("C17", "The spherical helper functions agree with vector geometry",
 "The point at an azimuth and a distance, the azimuth between two points, the unit vector of a point, distances, the comparison of points within a threshold, the conversion from degrees and the normalisation of angles agree with vector geometry: normalised angles are in their bounds and congruent to the angle given, a destination is at the given distance in the given direction, poles and cardinal directions included.",
 "all points, azimuths, distances from 0 to pi and angles of any size",
 "the tests check a few values; due north and south, the poles and both sides of the antimeridian have branches of their own",
 [L, "src/vec3d.rs", "src/vec2d.rs"], [("_geoAzDistanceRads, _geoAzimuthRads, constrainLat, constrainLng, _posAngleRads", L), ("_geoToVec3d", "src/vec3d.rs")],
 ["lat_lng, vec2d and vec3d functions"],
 technique="property-based testing: differential against vector geometry",
 note="tolerances of 1e-11 rad, wider next to the poles; start points within 1.5 rad of the equator")
prop("C18", "The hierarchy of cells agrees with their geometry",
 "The first descendant of a cell at any finer resolution is the one in its middle: it has the cell's own centre, and is the cell found there at that resolution; the centre of each child lies in the parent, and a cell's centre lies in the cell's parent.",
 "all valid cells x resolutions",
 "the tests do not relate indexes of different resolutions to each other through coordinates",
 [H, F, C, I], [("_faceIjkToH3, _h3ToFaceIjk", H), ("_upAp7, _upAp7r, _downAp7, _downAp7r", C)],
 ["cellToLatLng", "latLngToCell", "cellToChildren"],
 technique="property-based testing: metamorphic relations between resolutions",
 note="all cells of resolutions 0 to 4, random beyond; needs no reference model")
prop("C19", "122 base cells, twelve pentagons at each resolution, right classes",
 "There are 122 base cells, listed in ascending order, and at every resolution exactly twelve cells are pentagons, namely the centre cells of the twelve pentagon base cells; every other cell is a hexagon. The resolution read from a cell is its own, and odd resolutions, only, are of class III.",
 "all valid cells of all 16 resolutions",
 "the tests classify a few cells",
 [B, H], [("baseCellData, getRes0Cells, res0CellCount", B), ("isPentagon, getResolution, isResolutionClassIII", H)],
 ["getRes0Cells", "res0CellCount", "isPentagon", "getResolution", "isResolutionClassIII"],
 technique="property-based testing: exhaustive coarse resolutions and one-digit neighbourhoods, random cells",
 note="counted completely for resolutions 0 to 5; random beyond")
prop("C20", "The carried rotations keep the heading of a walk",
 "When the rotations returned by one step are passed to the next, directions keep their meaning: repeating a direction goes straight on, and a direction n sixths of a turn further goes n sixths of a turn to the left, across base cells, faces and the seams around pentagons, so that a walk visits the cells that its turns dictate (until it enters a pentagon). The rotations returned are always less than a whole turn (0 to 5), however long the walk.",
 "all starting cells x sequences of directions",
 "the tests never look at the rotations",
 [A, B], [("h3NeighborRotations", A), ("baseCellNeighbor60CCWRots", B)],
 ["h3NeighborRotations"], over=("histories", "inputs"),
 technique="model-based testing: random walks against a reference walker that turns relative to where it came from",
 note="all pairs of moves from all cells of resolutions 0 to 3; random walks of up to 21 moves")
prop("C21", "The bound on the size of a disk is exact and never overflows",
 "For every radius the bound on the size of a disk is 3k(k+1)+1, or the number of cells of resolution 15 if that is less. No disk has more cells, and a disk that has no pentagon inside has exactly as many.",
 "all 2^32 radii",
 "the tests compute it for small radii only",
 [A], [("maxGridDiskSize", A)],
 ["maxGridDiskSize", "gridDiskDistances"],
 technique="property-based testing: exhaustive small radii, random radii, against wide arithmetic; disks against the bound",
 note="exhaustive to 20 million (beyond the cap), random above")
prop("C22", "Rotating an index turns the cell about its base cell's centre",
 "Rotating a cell's index by a sixth of a turn turns every digit by a sixth, clockwise is the inverse of counter-clockwise, and six rotations are the identity. About a pentagon the missing sector is skipped, results are valid cells, and five rotations are the identity.",
 "all valid cells",
 "the tests never rotate an index by itself",
 [H, C], [("_h3Rotate60ccw, _h3Rotate60cw, _h3RotatePent60ccw, _h3RotatePent60cw, _h3LeadingNonZeroDigit", H), ("_rotate60ccw, _rotate60cw", C)],
 ["_h3Rotate60ccw", "_h3Rotate60cw", "_h3RotatePent60ccw", "_h3RotatePent60cw"],
 technique="property-based testing: algebraic laws and digit-wise reference",
 note="all cells of resolutions 0 to 5, random beyond")
prop("C23", "A cell and its address on a face of the icosahedron name each other",
 "The address of any valid cell (face and lattice coordinates) is the place of the cell's centre on that face, and is read back, at the cell's resolution, as exactly that cell. Conversely any lattice position on a face, including its edges and corners, is read as the cell that lies there, a position beyond an edge as the cell there on the unfolded neighbouring face, and a position whose base cell is out of the lookup's range as no cell (0). The position worked out on the base cell's home face, without carrying it over an edge, is read as the same cell, too, and is the address itself unless an overage is reported as possible.",
 "all valid cells of all 16 resolutions; all lattice positions in the plane of each of the 20 faces",
 "the tests convert a few addresses; each of the 540 entries of the lookup, each seam and each pentagon's missing sector is a case of its own",
 [H, F, C, B], [("_h3ToFaceIjk, _faceIjkToH3", H), ("_adjustOverageClassII", F), ("faceIjkBaseCells", B)],
 ["_h3ToFaceIjk", "_faceIjkToH3"],
 technique="property-based testing: round trip and exact reference model over exhaustive coarse resolutions, random cells and random lattice positions",
 note="exhaustive for resolutions 0 to 6 (cells) and for positions up to 40 steps at resolutions 0 to 3, random beyond; around a vertex beyond the face only validity is checked")
prop("C24", "The lookups of base cells by place describe the icosahedron",
 "For every face and every lookup coordinate from (0, 0, 0) to (2, 2, 2), the base cell reported is the one that lies there on the (unfolded) icosahedron, and, if it is a hexagon, the rotation reported is the angle between the face's axes and the base cell's own. Exactly the twelve pentagon base cells, and the two polar ones among them, are reported as such, no other number is, and the faces reported as offset clockwise against a pentagon are those that have it on their J axis.",
 "20 faces x 27 coordinates; 12 pentagons x 20 faces; all 32-bit numbers",
 "the tests look at none of the 540 entries; a wrong one is reached from few cells, or only by callers who look beyond the face",
 [B], [("faceIjkBaseCells, baseCellData", B), ("_faceIjkToBaseCell, _faceIjkToBaseCellCCWrot60", B)],
 ["_faceIjkToBaseCell", "_faceIjkToBaseCellCCWrot60", "_isBaseCellPentagon", "_isBaseCellPolarPentagon", "_baseCellIsCwOffset"],
 technique="property-based testing: exhaustive enumeration against the geometrically derived reference model, random numbers",
 note="the lookups are checked exhaustively; how a pentagon is turned is decided by C23 through the cells around it")
prop("C25", "Results depend on the arguments only, not on calls made before",
 "The same call gives the same result, whatever other calls were made before or are being made at the same time, in whatever order and on whatever thread; iterators that are used in turns do not influence one another.",
 "all histories of calls, over several threads",
 "each test makes its calls once, in one order, on one thread",
 [H, A, D, I, F, L], [("all public functions (no global state)", H), ("IterCellsChildren", I)],
 ["latLngToCell", "cellToLatLng", "gridDiskDistances", "h3NeighborRotations", "IterCellsChildren"], over=("inputs", "histories", "schedules"),
 technique="property-based testing: random histories of calls with closely related arguments, compared across repetitions, orders, threads and a fresh process",
 note="random histories; thread schedules are not controlled. In all other checks one case in eight is close to the case before it, so that results remembered from it show, too")
with open(f"{here}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=[], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="./setup.sh", checks=[
    dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}",
         evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
    not_applicable=[],
    notes="No hooks: every check uses the crate's public interface. KNOWN_FINDINGS.txt lists the defects found (all repaired).")
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
