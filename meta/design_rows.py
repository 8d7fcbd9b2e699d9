# id: (specification, what TLC enumerates and checks, what is recorded and judged, cost)
ROWS = {
    "C01": ("TimeModel (two axes, two caller arrays; New, SetTz, SetDisp, SetData, Poke, PokeCopy)", "TimeGen: every history of up to 2 (deep: 3) operations; invariants LiveAscending, TzRoundTrip, InstantsKept; action property Isolation (an operation changes only what it names)", "TimeTrace: complete state of both axes and arrays after each call", "15 s, 90 s"),
    "C02": ("TimeModel", "as C01, with half-hour offsets, unknown offsets, repeated displacements; Gaps kept", "TimeTrace", "15 s, 90 s"),
    "C03": ("TimeModel (Index, Alpha, bounds)", "TimeLookupGen: every ascending axis of up to 5 times of a 7-tick clock, every query tick; AlphaInUnit, AlphaReconstructs", "TimeTrace: index, weight, bounds test, validation", "8 s, 40 s"),
    "C04": ("TimeFile (units x reference x offset x arguments -> axis or error)", "TimeFileGen: the product of them", "TimeFileTrace: axis and label of each file; choice of the time variable", "12 s, 60 s"),
    "C05": ("FieldModel (bilinear in x,y times piecewise linear in t), Rat", "FieldGen: grids x axes x query times x options", "VarTrace: every value of every row", "9 s, 60 s"),
    "C06": ("VarCache (versions, bounded memo, key, caller's scribble), FieldModel", "VarCache: invariant Transparent (got = want) within capacity and operations; every transition emitted", "VarTrace: each answer against the current state", "15 s, 150 s"),
    "C07": ("RectModel", "RectGen: axes rising/falling, uneven, lattice of points; weights sum to 1, exact at nodes", "RectTrace", "8 s, 60 s"),
    "C08": ("MeshModel (orientation, containment, barycentric weights)", "MeshGen: every triangulation of a 3x3 lattice with holes/parts; MeshMixed: with some squares left whole", "MeshTrace", "20 s, 150 s"),
    "C09": ("SGridModel (cells, masks, logical coordinates, coast rules)", "SGridGen: shapes x 8 orientations x distortions x mask kinds", "SGridTrace", "13 s, 61 s"),
    "C10": ("DepthModel (levels, layers, boundary conditions)", "DepthGen (L): level sets; monotone, within neighbours, rising = falling", "DepthTrace, state carried along", "12 s, 120 s"),
    "C11": ("DepthModel (ROMS 1/2, FVCOM columns)", "DepthGen (S): stretchings x bathymetries x surfaces; 0 at surface, h+zeta at bed, ordered", "DepthTrace", "12 s, 150 s"),
    "C12": ("MeshModel (Edges, Boundaries, Neighbours, FaceEdges)", "TopoGen: every mesh of up to 3 (4) triangles, 2 (3) quads on 6 nodes, 3 faces of both kinds on 5 (6); NumberGen: every numbering", "MeshTrace", "15 s, 300 s"),
    "C13": ("UGridFile (encode/decode of connectivities)", "UGridFileGen: every layout x base x start_index x flag x shorter faces that can be told apart; Decode(Encode(m)) = m", "UGridFileTrace", "15 s, 150 s"),
    "C14": ("VerdatModel, VerdatOrder (a machine joining segments)", "VerdatOrder: every set of segments forming loops and lines, in every order and direction; rims of every mesh of TopoGen and TopoGenMixed", "VerdatTrace", "15 s, 200 s"),
    "C15": ("DatasetModel (datasets in memory, files)", "DatasetGen: histories of up to 6 (7) operations; FilesStay, SlotsStay, SaveKeeps, ReadsBack", "DatasetTrace: every dataset after every operation", "25 s, 200 s"),
    "C16": ("GridFile (decision table, documented names)", "GridFileGen: argument x dictionary x attribute x topology x names; Asked, Order, Other, Named", "GridFileTrace", "15 s, 120 s"),
    "C17": ("Masks (meaning of a value; cells), LandHist (trees with and without masks, memo)", "MasksGen: every set of up to three flags, options, every mask of nine nodes; Order, Unknown, Options, Monotone. LandHist: histories of up to 4 (6) operations; Transparent, Fresh", "MasksTrace", "12 s, 90 s"),
    "C18": ("Points (layouts and the rows they mean)", "PointsGen: every layout of up to six points; Back, Again, Wrong", "PointsTrace", "12 s, 51 s"),
    "C19": ("FieldModel, one field per component", "FieldGen", "VarTrace", "10 s, 70 s"),
    "C20": ("DepthFile (documented names, which system, places of terms)", "DepthFileGen: every pattern of whole/partial systems in two files; Means, Optional, Hides, Unordered", "DepthFileTrace", "20 s, 150 s"),
    "C21": ("MeshCache (versions and caches), MeshModel", "MeshCache: Current (got = want), every transition of 4 (6) operations; also given meshes with faces of both kinds", "MeshTrace", "25 s, 130 s"),
    "C22": ("SGridModel (paddings)", "SGridGen; every pair of paddings and shape difference", "SGridTrace", "9 s, 60 s"),
    "C23": ("SGridFile (declared axes, paddings, discovery)", "SGridFileGen: paddings x orders x styles; PerCell, Apart, Between", "SGridFileTrace", "30 s, 300 s"),
    "C24": ("Load (axis of several files, fields, verticals), TimeFile, DepthModel", "LoadGen: grids x locations x splits of the times x verticals x ways of naming files; Seamless, Recorded, Steady, Flat, Same, Guarded", "LoadTrace", "28 s, 90 s"),
    "C25": ("Vec (tables, turns, bearings, outlines)", "VecGen: turns, every small polygon, bearings, tables, paddings; Keeps, Undone, Two, Free, Mirror, Level", "VecTrace", "9 s, 90 s"),
    "C26": ("Plot (map longitudes, box, viewer as a state machine), MeshModel", "PlotGen: every history of three (four) events; Last, Counted, Fair, Seam, Box, Found", "PlotTrace", "23 s, 170 s"),
    "C27": ("UVar (Fits, Places, Take, Stack)", "UVarGen: every history of five (six) questions and changes of two variables and their group that keep answers; Current", "UVarTrace: every answer against the data each variable has now", "8 s, 60 s"),
}
