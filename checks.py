"""What each property's check runs: drivers (harness/src/bin), the trace
specification that validates their traces, design models, input generators."""
POLYS = [dict(module="PolyGen", quick="PolyGen33.cfg"),
         dict(module="PolyGen", quick="PolyGen44q.cfg", thorough="PolyGen44.cfg"),
         dict(module="PolyGen", thorough="PolyGen43.cfg")]


def chk(n, **kw):
    d = dict(traces=[("c%02d" % n, "C%02d" % n)], models=[])
    d.update(kw)
    return d


CONVEX = dict(module="ConvexLocate", quick="ConvexLocateQ.cfg", thorough="ConvexLocateT.cfg",
              what="binary search in a convex polygon, step by step, for every strictly convex polygon on a grid and every "
                   "query: right answer, wedge invariant, logarithmic number of predicates")


FIXED = dict(module="FixedWidth", quick="FixedWidthQ.cfg", thorough="FixedWidthT.cfg",
             what="scaled-down machine words, every operand: wrapped differences with signs kept apart and double-width "
                  "products give the exact turn, direction tests and distance comparison, no product overflows")


SEG = dict(module="SegImpl", quick="SegImplQ.cfg", thorough="SegImplT.cfg",
           what="every pair of segments with every choice of included ends over a grid: the orientation case analysis of "
                "intersection and containment equals the intersection of the two point sets")
RAY = dict(module="RayImpl", quick="RayImplQ.cfg", thorough="RayImplT.cfg",
           what="every direction, ray and segment over a grid: three turns decide the crossing of the infinitesimally "
                "lifted ray; every simple polygon and query: counting crossings locates the point")
HULL = [dict(module="HullImpl", quick="HullGrahamQ.cfg", thorough="HullGrahamT.cfg",
             what="the scan as a machine over every list of points of a grid: its result is the convex hull, its two "
                  "cursors never pass each other, it ends"),
        dict(module="HullImpl", quick="HullGiftQ.cfg", thorough="HullGiftT.cfg",
             what="gift wrapping as a machine over every list of points of a grid: its result is the convex hull")]
MELK = dict(module="MelkmanImpl", quick="MelkmanQ.cfg", thorough="MelkmanT.cfg",
            what="the deque as a machine over every simple polygon of a grid: after each vertex it is the hull of the "
                 "chain so far")
EARS = dict(module="EarStore", quick="EarStoreQ.cfg", thorough="EarStoreT.cfg",
            what="every simple polygon of a grid, every order of draws: the store keeps every ear and never runs dry, "
                 "what is left stays simple, the ring walk and the curve walk decide alike, runs end in a triangulation")


ANG = dict(module="AngularImpl", quick="AngularImplQ.cfg", thorough="AngularImplT.cfg",
           what="every start direction and pair of vectors of a grid: the case analysis computes the angular order, which "
                "is a total preorder with rays as classes and the cyclic order of directions cut at the start")
MONO = [dict(module="MonotoneImpl", quick="MonoDecideQ.cfg", thorough="MonoDecideT.cfg",
             what="every simple polygon of a grid and direction: the two walks between the extreme vertices decide monotonicity"),
        dict(module="MonotoneImpl", quick="MonoBuildQ.cfg", thorough="MonoBuildT.cfg",
             what="every set of points and direction: pushing the sorted points to the ends of a queue builds a simple "
                  "counter-clockwise monotone polygon, or a chain that is not simple when all are colinear")]
STAR = dict(module="StarImpl", quick="StarImplQ.cfg", thorough="StarImplT.cfg",
            what="every small set of points and centre, ties in any order: the angular chain is simple, star-shaped and "
                 "wholly visible from a centre inside the hull")
CGEN = dict(module="ConvexGen", quick="ConvexGenQ.cfg", thorough="ConvexGenT.cfg",
            what="every outcome of the random source at small sizes: partial sums fit the type, the corners are the strictly "
                 "convex hull rooted in its lowest vertex, width and height are the maximum, some outcome is not flat")


RING = dict(module="RingImpl", quick="RingQ.cfg", thorough="RingT.cfg",
            what="position and vertex arrays under reversal and moving, one swap a step, every ring and pair of positions: "
                 "they stay inverse, the operations are the two moves of untangling and the change of direction")
ITER = dict(module="IterImpl", quick="IterImplQ.cfg", thorough="IterImplT.cfg",
            what="two positions and a flag refine a double-ended queue, every ring size, start, kind of end, interleaving")
AREA = dict(module="AreaImpl", quick="AreaQ.cfg", thorough="AreaT.cfg",
            what="every simple polygon of a grid, moved and renumbered: edge sums give area (Pick's theorem against point "
                 "location), centroid of any fan, additivity under cutting ears, least box")


CHECKS = {
    "C01": chk(1, models=[FIXED]),
    "C02": chk(2, models=[FIXED]),
    "C03": chk(3, models=[ANG]),
    "C04": chk(4, models=[SEG]),
    "C05": chk(5, models=[RAY]),
    "C06": chk(6, gen=POLYS,
               models=[dict(module="ValidateImpl", quick="ValidateQ.cfg", thorough="ValidateT.cfg",
                            what="construction and validation step by step over every list of grid points: accepted exactly "
                                 "when the closed chain is simple, errors are true, the result is oriented")]),
    "C07": chk(7, gen=POLYS, models=[CONVEX, RAY]),
    "C08": chk(8, models=HULL),
    "C09": chk(9, gen=POLYS, models=[MELK]),
    "C10": chk(10, gen=POLYS,
               models=[EARS, dict(module="BigPolyModel", quick="BigPolyQ.cfg", thorough="BigPolyT.cfg",
                            what="every closed chain over a small grid: the turn-based definitions of simple polygon and ear "
                                 "used for big coordinates agree with the point-set ones")]),
    "C11": chk(11, models=[dict(module="TwoOptModel", quick="TwoOptQ.cfg", thorough="TwoOptT.cfg",
                                what="every tour over a 3x3 grid, every choice of intersection and hoist: a shortening "
                                     "move exists, the incremental set is exact, runs terminate in a simple polygon"), RING]),
    "C12": chk(12, gen=[dict(module="IsectGen", quick="IsectGen4.cfg", thorough="IsectGen5.cfg")],
               models=[dict(module="IsectImpl", quick="IsectImplQ.cfg", thorough="IsectImplT.cfg",
                            what="linked lists through a sparse vector with a free list refine the abstract multiset")]),
    "C13": chk(13, models=[RING, ITER], gen=[dict(module="IterGen", quick="IterGen5.cfg", thorough="IterGen6.cfg")]),
    "C14": chk(14, gen=POLYS, models=MONO),
    "C15": chk(15, models=[STAR]),
    "C16": chk(16, gen=POLYS,
               models=[dict(module="VisImpl", quick="VisQ.cfg", thorough="VisT.cfg",
                            what="shooting two leaning rays through the nearest vertex of every direction, for every simple "
                                 "polygon of a grid and every point inside or outside its hull: the hits kept are the "
                                 "boundary of the visible region, outside some ray misses")]),
    "C17": chk(17, models=[AREA], gen=POLYS + [dict(module="AffineGen", quick="AffineGen3.cfg", thorough="AffineGen4.cfg")]),
    "C18": chk(18, models=[CGEN]),
    "C19": chk(19, models=[dict(module="ZOrderImpl", quick="ZOrderQ.cfg", thorough="ZOrderT.cfg",
                                what="on scaled-down words: spreading by shifts and masks interleaves, gathering inverts "
                                     "it, codes are monotone, shifted keys fit and keep the order for every box")]),
    "C20": chk(20, models=[dict(module="SosModel", quick="SosQ.cfg", thorough="SosT.cfg",
                                what="tie breaking is the turn on the moment curve, the implementation's parity formula "
                                     "computes it, and it is a counter-clockwise system in Knuth's sense")]),
    "C21": chk(21, gen=POLYS, models=[EARS]),
    "C22": chk(22, models=[CONVEX]),
    "C23": chk(23, gen=[dict(module="HistGen", quick="HistGen3.cfg", thorough="HistGen4.cfg")],
               models=[dict(module="SessionModel", quick="SessionQ.cfg", thorough="SessionT.cfg",
                            what="every history of the abstract operations over a grid: each operation is possible where it "
                                 "must be and keeps the boundary simple and counter-clockwise")]),
}
