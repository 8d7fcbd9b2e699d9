NOTE = (
    "Exhaustive within the constants of the TLC configurations for the specification; for the code, every behaviour "
    "TLC emits (or a seeded sample of it) and seeded random ones are replayed and judged. Trusts: the projection in "
    "the driver, numpy/netCDF4, and that floats within 1e-9 of a small rational stand for it."
)
NOT_APPLICABLE = []
PROPS = [
    dict(
        id="C01",
        title="A time axis holds exactly the times given, independently of its caller",
        statement=(
            "A time axis built from any sequence, array or other time axis holds exactly the given times in order "
            "(moved only by the origin, offset change and displacement asked for), and construction fails with a "
            "time-series error unless the times are strictly ascending. Neither building, changing nor querying an axis "
            "ever changes an array of the caller or another axis, and no later change of a caller's array or of a "
            "returned copy changes the axis. Two axes compare equal exactly when times and offset are equal."
        ),
        over=["inputs", "histories"],
        qtext="every sequence of times, every combination of construction arguments, and every history of operations on "
        "several axes and on the arrays they were built from",
        why="the tests build a handful of axes one at a time and never look at the caller's array after a shift, nor at "
        "one axis while another one built from it changes",
        files=["gridded/time.py"],
        mech=[("copying data setter", "gridded/time.py Time.data"), ("ascending check", "gridded/time.py Time.__init__")],
        obs=["Time.data, len, iteration, min_time, max_time, get_time_array, ==, and the caller's arrays"],
        note=NOTE,
    ),
    dict(
        id="C02",
        title="Offset changes keep the instants; displacement and origin shift once",
        statement=(
            "Replacing a known time zone offset by another one re-expresses the same instants in the new offset, in any "
            "sequence of changes and back again; an offset that was unknown, or becomes unknown, only relabels. A "
            "displacement moves every time by exactly that amount and can be applied only once (a second one is refused "
            "and changes nothing); an origin moves the first time there; asking for a new offset without a known one is "
            "refused. All intervals between times are always kept."
        ),
        over=["histories", "inputs"],
        qtext="every sequence of offset, displacement, origin and data changes with any offsets, including half-hour ones",
        why="tests apply one change to one axis; the compositions (set offset, displace, set offset back, copy, ...) are unbounded",
        files=["gridded/time.py"],
        mech=[
            ("offset setter undoes the previous offset", "gridded/time.py Time.tz_offset"),
            ("displacement settable once", "gridded/time.py Time.displacement"),
        ],
        obs=["Time.data, Time.tz_offset, Time.displacement after every operation"],
        note=NOTE,
    ),
    dict(
        id="C03",
        title="Time lookups give the bracketing interval and the exact weight, or refuse",
        statement=(
            "For any axis and query time inside its range, the index found is that of the first time not before the "
            "query and the weight is the exact fraction of the interval elapsed, so the bracketing times weighted that "
            "way give back the query time. Outside the range lookups raise the out-of-range error unless extrapolation "
            "is asked for or the axis has a single time, in which case the nearest end is used (weight 0 before, 1 after); "
            "the bounds test and validation agree with that range, ends included."
        ),
        over=["inputs"],
        qtext="every ascending axis and every query time before, on, between and after its times, with and without extrapolation",
        why="tests probe a few times on one fixed axis; boundaries (exactly on a time, one second beside it, single-time axes) are sampled at best",
        files=["gridded/time.py"],
        mech=[("index_of / interp_alpha", "gridded/time.py Time.index_of, Time.interp_alpha, Time.valid_time")],
        obs=["Time.index_of, Time.interp_alpha, Time.time_in_bounds, Time.valid_time"],
        note=NOTE,
    ),
    dict(
        id="C04",
        title="Time axes read from files keep the instants the file records",
        statement=(
            "A time axis read from a netCDF file represents exactly the instants recorded there for every CF unit of the standard calendar, "
            "reference time and offset written in the units, labelled with that offset (UTC when the file gives none, "
            "none when declared naive, the given one when overridden for a file that has none). New offset, origin, "
            "displacement and ordering rules apply as for any axis. The axis of a data variable is the one its time "
            "attribute or leading time dimension names, and a variable without one is constant in time."
        ),
        over=["inputs", "configurations"],
        qtext="every CF units string (unit, reference, offset notation), every stored sequence, every combination of arguments, "
        "in memory and on disk",
        why="tests read a few fixed files and check labels rather than instants; offsets in units with each argument combination are not covered",
        files=["gridded/time.py"],
        mech=[
            ("parse_time_offset, num2date", "gridded/time.py Time.from_netCDF"),
            ("locate_time_var_from_var", "gridded/time.py"),
        ],
        obs=["Time.from_netCDF(...).data, tz_offset, tz_offset_name"],
        note=NOTE,
    ),
    dict(
        id="C05",
        title="A variable's value in time is the exact linear blend of its time slices",
        statement=(
            "For any grid type and data location, Variable.at at one of the variable's times gives exactly that slice, "
            "whatever data other slices lack, between two times the exact linear blend of the two bracketing slices, and with extrapolation before the "
            "first or after the last time the first or last slice; without extrapolation such times are refused. A "
            "variable without a time axis, or with a single time, is constant. The answer has one row per point in the "
            "order given, for every accepted form of points; a point off the grid affects only its own row (0 on "
            "rectangular and triangular grids; masked, or the fill value when unmasking, on staggered grids)."
        ),
        over=["inputs", "configurations"],
        qtext="every time axis, query time (before, on, between, after), option, grid type, data location, form and number of points",
        why="tests query a few files at a few times; the ends, exact hits, single-time axes and option combinations are sampled at best",
        files=["gridded/variable.py", "gridded/time.py", "gridded/utilities.py", "gridded/grids.py"],
        mech=[
            ("Variable.at and its time interpolation", "gridded/variable.py Variable.at, Variable._time_interp"),
            ("weights", "gridded/time.py Time.index_of, Time.interp_alpha"),
        ],
        obs=["Variable.at"],
        note=NOTE,
    ),
    dict(
        id="C06",
        title="Cached answers never show: every query answers for the current variable",
        statement=(
            "In any history of queries, changes and writes into returned arrays, Variable.at and VectorVariable.at "
            "answer exactly as a freshly built variable in the same state would: never with results for other points "
            "(values, order, number or shape), another time or other options, never with results from before the data, "
            "the time axis, the grid, its nodes or the fill value was replaced or the axis shifted, and never with a result the "
            "caller has since overwritten. Queries leave the caller's points and the variable's data as they were."
        ),
        over=["histories", "inputs"],
        qtext="every history of queries (more distinct ones than the memo holds included), changes and writes into results",
        why="staleness needs a specific sequence (query, change, same query again; or two queries that collide); tests query once or twice per object",
        files=["gridded/variable.py", "gridded/pyugrid/ugrid.py", "gridded/pysgrid/sgrid.py"],
        mech=[
            ("memo key and state", "gridded/variable.py Variable._get_hash, Variable._get_memoed, Variable._memo_result"),
            ("vector memo", "gridded/variable.py VectorVariable"),
        ],
        obs=["Variable.at, VectorVariable.at after every change"],
        note=NOTE,
    ),
    dict(
        id="C19",
        title="A vector variable is exactly its components, column by column",
        statement=(
            "VectorVariable.at gives one row per point and one column per component, in component order, each exactly "
            "what that component gives for the same points, time and options, and refuses a time exactly when a "
            "component does. Components are reachable by index and by their name. Setting the vector's time axis (to an axis or any "
            "sequence of times) sets it for every component; replacing the data of one component changes that column only."
        ),
        over=["inputs", "histories"],
        qtext="every number of components, grid type, time axis, query time, option, point set and history of changes",
        why="tests compare a couple of values of one two-component variable",
        files=["gridded/variable.py"],
        mech=[("VectorVariable.at, VectorVariable.time", "gridded/variable.py VectorVariable")],
        obs=["VectorVariable.at, Variable.at of the components"],
        note=NOTE,
    ),
    dict(
        id="C07",
        title="Rectangular grids locate points exactly and interpolate bilinearly",
        statement=(
            "On a rectangular grid (axes of any spacing, ascending or descending) a point inside is given the cell whose "
            "node lines enclose it and a point outside (-1, -1). Node data are interpolated bilinearly from the four "
            "enclosing nodes: exact at the nodes, continuous across cells, within the range of the corners, 0 outside. Data "
            "stored lon-first or lat-first are told apart by dimension names or, unnamed, by their lengths; data that do "
            "not fit or are ambiguous are refused; masked data count as 0. Cell centers are the midpoints of neighbouring nodes."
        ),
        over=["inputs", "configurations"],
        qtext="every pair of axes, orientation of the data, leading time dimension, point (on nodes, lines, inside, outside) and form of the points",
        why="tests use one or two evenly spaced grids and a few interior points",
        files=["gridded/grids.py"],
        mech=[
            ("locate_faces", "gridded/grids.py Grid_R.locate_faces"),
            ("interpolation and orientation", "gridded/grids.py Grid_R.interpolate_var_to_points, Grid_R.lonlat_to_yx"),
        ],
        obs=["Grid_R.locate_faces, interpolate_var_to_points, nodes, centers, infer_location; Variable.at"],
        note=NOTE,
    ),
    dict(
        id="C08",
        title="Unstructured meshes locate points exactly and interpolate linearly",
        statement=(
            "On any mesh of triangles, quadrilaterals or both, wound either way and with holes or separate parts, a point is "
            "given a face that contains it, and -1 exactly when no face does (a point on the outer rim may be either). On "
            "meshes of triangles node data are interpolated with the exact barycentric weights (they sum to one, exact at nodes and "
            "continuous across sides), face data give the value of the face; points off the mesh get 0, whatever data are missing. Tree search, simple "
            "search and index_of agree, and the nearest node is the nearest one."
        ),
        over=["inputs", "configurations"],
        qtext="every mesh, numbering, winding and scale, and every point: on nodes, on sides, inside, outside",
        why="tests locate a few points on one or two meshes, mostly with counter-clockwise triangles",
        files=["gridded/pyugrid/ugrid.py", "gridded/pyugrid/util.py"],
        mech=[
            ("locate_faces, locate_nodes, point_in_tri", "gridded/pyugrid/ugrid.py, gridded/pyugrid/util.py"),
            ("interpolation_alphas, interpolate_var_to_points", "gridded/pyugrid/ugrid.py"),
        ],
        obs=["UGrid.locate_faces, index_of, locate_nodes, interpolation_alphas, interpolate_var_to_points; Variable.at"],
        note=NOTE,
    ),
    dict(
        id="C12",
        title="Derived topology of a mesh is complete, consistent and correctly numbered",
        statement=(
            "For any mesh of triangles, quadrilaterals or both (the entries a face lacks masked, in what is built as well), in which "
            "no side has more than two faces: the edges built are "
            "exactly the sides of the faces, each once; the boundaries exactly those with one face; the neighbour of face i "
            "at position j is the face across its j-th side or -1; the edge of face i at position j is its j-th side, for "
            "edges built or given in any order and direction; face, edge and boundary coordinates are the means of their "
            "nodes. Zero-based faces are kept, one-based ones renumbered (the caller's array untouched), others refused."
        ),
        over=["inputs"],
        qtext="every such mesh, winding, numbering base and order of faces, nodes and edges",
        why="tests build these for two or three fixed meshes",
        files=["gridded/pyugrid/ugrid.py"],
        mech=[
            ("build_edges, build_boundaries, build_face_face_connectivity, build_face_edge_connectivity, build_*_coordinates", "gridded/pyugrid/ugrid.py"),
            ("faces setter", "gridded/pyugrid/ugrid.py UGrid.faces"),
        ],
        obs=["UGrid.edges, boundaries, face_face_connectivity, face_edge_connectivity, *_coordinates, get_lines, faces"],
        note=NOTE,
    ),
    dict(
        id="C21",
        title="A mesh answers for its current nodes and faces after any edits",
        statement=(
            "In any history of searches, interpolations, weight computations and topology builds interleaved with "
            "replacing or deleting the nodes or faces of a mesh and with writes into returned arrays, every answer is the "
            "one a freshly built mesh with the current nodes and faces gives; a search after the faces were deleted is "
            "refused, neighbours and edges of faces still stored are of the current faces, and without nodes nothing is left. Queries and edits never change an array the caller handed over."
        ),
        over=["histories"],
        qtext="every history of queries and edits, with more point sets than the caches hold",
        why="staleness needs query, edit, same query again; tests do not edit meshes they have searched",
        files=["gridded/pyugrid/ugrid.py"],
        mech=[("caches and their invalidation", "gridded/pyugrid/ugrid.py nodes/faces setters, _clear_caches, _get_memoed")],
        obs=["UGrid queries after every edit"],
        note=NOTE,
    ),
    dict(
        id="C09",
        title="Staggered-grid lookup and interpolation are exact on any orientation and mask",
        statement=(
            "On a staggered grid of convex cells, however turned, mirrored, sheared or distorted, locate_faces gives a point "
            "the (row, column) of the unmasked cell that holds it (masked or -1 if there is none; masked cells come from the "
            "trimmed center mask, or else from any masked node of the cell). interpolate_var_to_points gives node data "
            "bilinearly in the cell's own coordinates, center data as the cell's value, edge1/edge2 data linearly between the "
            "cell's two opposite sides; values on a coast (a side between a masked and an unmasked cell) or masked count as "
            "zero by default, or mask the result, or are mirrored, as configured. Points off the grid are masked, or the fill "
            "value if unmasked. locate_nearest gives the closest location. Repeated and memoized queries, and those given "
            "the indices or offsets of the points, answer the same and no array of the caller changes."
        ),
        over=["inputs", "configurations", "histories"],
        qtext="every grid of convex cells, mask, padding, location of the data, point (inside, on sides and corners, outside), "
        "masked-value behaviour, and order of memoized queries",
        why="tests use one upright grid or look at shapes only; the orientation, near-parallelogram cells, mask and padding "
        "combinations are unbounded",
        files=["gridded/pysgrid/sgrid.py", "gridded/utilities.py"],
        mech=[
            ("cell tree with masked cells removed", "gridded/pysgrid/sgrid.py SGrid.build_celltree"),
            ("logical position in a cell", "gridded/pysgrid/sgrid.py SGrid.x_to_l"),
            ("interpolation", "gridded/pysgrid/sgrid.py SGrid.interpolate_var_to_points, compute_interpolant"),
        ],
        obs=["locate_faces, index_of, locate_nearest, interpolate_var_to_points, compute_interpolant, Variable.at"],
        note=NOTE,
    ),
    dict(
        id="C22",
        title="Padding and location of staggered data follow the SGRID rules",
        statement=(
            "The padding of a location is the one given, else for centers the one implied by their number (one fewer than the "
            "nodes: none, as many: low, one more: both, per dimension), for edge1 the centers' row padding and for edge2 their "
            "column padding, else none. Trimming keeps exactly the unpadded rows and columns; the value of a cell, node or side "
            "is read at its index plus one in a dimension padded low or both. The location inferred from a shape is node, "
            "center, edge1 or edge2 by its difference to the node shape (only where such coordinates exist), else none."
        ),
        over=["inputs", "configurations"],
        qtext="every combination of padding types per dimension and location, given or inferred, and every data shape",
        why="the tests use the padding of two or three model outputs; most combinations are never exercised",
        files=["gridded/pysgrid/sgrid.py"],
        mech=[
            ("padding properties", "gridded/pysgrid/sgrid.py SGrid.face_padding, edge1_padding, edge2_padding"),
            ("padding use", "gridded/pysgrid/sgrid.py SGrid.get_padding_slices, apply_padding_to_idxs, infer_location"),
        ],
        obs=["get_padding_by_location, get_padding_slices, apply_padding_to_idxs, infer_location, interpolate_var_to_points"],
        note=NOTE,
    ),
    dict(
        id="C10",
        title="Vertical interpolation is exact per point and obeys the boundary conditions",
        statement=(
            "For a variable with depth levels (rising or falling), at() gives a point inside the column the value linear "
            "between the two levels around its depth when the data has one value per level, and the value of the layer that "
            "holds it when it has one per layer; data missing at one level do not reach the value exactly at another. Above the top and below the bottom level it gives the nearest level or layer "
            "('extrapolate') or masks ('mask'; fill value if unmasked); the condition of the call wins over the variable's "
            "(default: extrapolate at the surface, mask at the bottom) and that over the depth object's. Exactly on the outermost "
            "level under 'mask' either answer is allowed. A surface-only depth always gives the surface index; points without a "
            "depth are at depth 0. Every point is treated by itself, for data ordered time- or depth-major, on any grid type and "
            "location, scalar or vector, however often and after whatever change of data, levels or conditions it is asked; "
            "interpolation_alphas gives index+alpha equal to that position."
        ),
        over=["inputs", "configurations", "histories"],
        qtext="every set of levels, depth, mixture of points above, inside and below the column, boundary conditions, data layout "
        "and order of queries and changes",
        why="tests query one variable at a few depths; wrong pairing of points and weights shows only with several points in "
        "different layers, extrapolation only with the matching condition and direction of the levels",
        files=["gridded/depth.py", "gridded/variable.py"],
        mech=[
            ("bracketing and boundary conditions", "gridded/depth.py L_Depth.interpolation_alphas"),
            ("vertical blend per group of points", "gridded/variable.py Variable._depth_interp"),
        ],
        obs=["Variable.at, VectorVariable.at, interpolation_alphas, num_levels, num_layers, surface_index, bottom_index"],
        note=NOTE,
    ),
    dict(
        id="C11",
        title="Terrain-following depths span the water column at every point and time",
        statement=(
            "For ROMS (both transforms, any critical depth and stretching) and FVCOM (sigma per node), get_depth_profile gives "
            "at every point and time the depth of each level (or layer) below the free surface, from 0 at the surface to "
            "bathymetry plus free surface at the bed, with bathymetry, sigma and the (time-interpolated) free surface taken at "
            "that point; get_s_coordinate gives the same below the mean surface. Variables on them interpolate vertically in "
            "each point's own column, as on fixed levels, for level and layer data, surface-first or bottom-first, with the "
            "boundary conditions asked for; points off the grid are masked (or zero on a triangular mesh)."
        ),
        over=["inputs", "configurations", "histories"],
        qtext="every bathymetry, free surface, stretching, transform, point, depth and time, in any order of queries",
        why="tests use uniform layers without stretching (critical depth 0) and mostly a flat column, where the wrong formula, "
        "the wrong point's column or the wrong time give the same numbers",
        files=["gridded/depth.py", "gridded/variable.py"],
        mech=[
            ("level depths", "gridded/depth.py ROMS_Depth.get_s_coordinate, FVCOM_Depth.get_s_coordinate"),
            ("bracketing per column", "gridded/depth.py S_Depth.interpolation_alphas, _apply_boundary_conditions"),
            ("vertical blend", "gridded/variable.py Variable._depth_interp"),
        ],
        obs=["get_depth_profile, get_s_coordinate, interpolation_alphas, Variable.at, num_levels, num_layers, surface_index"],
        note=NOTE,
    ),
    dict(
        id="C13",
        title="Meshes read from UGRID files, or saved and read back, are exactly the mesh",
        statement=(
            "Reading a UGRID file gives exactly the mesh it describes: nodes as (longitude, latitude) whichever order and by "
            "whatever CF name or unit the coordinates are told apart, and every connectivity (faces of 3 or 4 nodes, or both in one mesh: missing entries stay masked; edges, "
            "boundaries, face-face, face-edge) with 0-based numbers, for any start_index (without one, 1 if the largest number "
            "is that of nodes), any flag value, and either storage order (the declared face/edge dimension decides; else three, "
            "or two, rows are turned). With no mesh, several and none named, an unknown name, or unusable node coordinates it "
            "raises ValueError. Files with conventional or given variable names, in any case, give the same mesh. A mesh saved "
            "and read back (any number of times, over an existing file, in either format: the file is netCDF3 or netCDF4 as asked) is "
            "unchanged: nodes, connectivities, face, edge and boundary coordinates and name, bit for bit; another format is refused."
        ),
        over=["inputs", "configurations"],
        qtext="every mesh and every way of storing its arrays in a file that can be told apart; every set of meshes in a file",
        why="tests read a few fixed files in the common layout; the combinations of shape, order, base, flags and declared "
        "dimensions are where transposed or shifted connectivity goes unnoticed",
        files=["gridded/pyugrid/read_netcdf.py", "gridded/pyugrid/ugrid.py", "gridded/grids.py"],
        mech=[
            ("decoding of connectivity", "gridded/pyugrid/read_netcdf.py load_grid_from_nc_dataset"),
            ("writing", "gridded/pyugrid/ugrid.py UGrid.save"),
            ("conventional names", "gridded/grids.py Grid_U._find_required_grid_attrs"),
        ],
        obs=["nodes, faces, edges, boundaries, connectivities, coordinates and mesh_name of the loaded grid; the exception"],
        note=NOTE,
    ),
    dict(
        id="C15",
        title="Datasets saved to a file and loaded again are the same dataset",
        statement=(
            "Loading a file a Dataset on an unstructured grid was saved to gives the same grid, the same variables under the "
            "same keys with the same values, masks, data type, location, units and attributes, and the same global attributes, "
            "as the Dataset had when that file was last saved (as netCDF3 or netCDF4); a loaded variable's name is its long_name if it has one. This "
            "includes variables read from other files that are packed or have fill values. Saving and loading change no "
            "dataset in memory, and changing one dataset changes neither a file nor another dataset. "
            "get_variables_by_attribute finds exactly the variables with that attribute value."
        ),
        over=["histories", "inputs"],
        qtext="every history of building, changing, saving and loading several datasets and files, every data type, location "
        "and attribute",
        why="tests save one small dataset and look at the grid; what is lost (names, units, packed values, attributes) shows "
        "only when everything is compared after a load, and again after a second save",
        files=["gridded/gridded.py", "gridded/pyugrid/ugrid.py", "gridded/variable.py"],
        mech=[
            ("saving", "gridded/gridded.py Dataset.save, gridded/pyugrid/ugrid.py UGrid._save_variables"),
            ("loading", "gridded/gridded.py Dataset._variables_from_netCDF"),
        ],
        obs=["grid, variables (name, data, dtype, location, units, attributes) and attributes of every Dataset after each operation"],
        note=NOTE,
    ),
    dict(
        id="C14",
        title="Verdat files keep every point, depth, unit and boundary",
        statement=(
            "order_boundary_segments puts segments given in any order and direction together to closed and open boundaries: "
            "each loop and each line once, in order, nothing lost or added. save_verdat writes every node once with its depth "
            "and the depth's unit (FEET, METERS or none), numbered from 1; the closed boundaries come first, each in order and "
            "contiguous, with the number of boundaries and the number of points at the end of each; the other nodes follow in "
            "their order (boundaries are derived from the faces when none are given; a dataset without depths gets depth 1). "
            "load_verdat gives exactly the points, depths, units and closed boundaries of the file and refuses a malformed file "
            "with ValueError. Saving changes nothing in memory, and saving what was loaded gives the same points, depths and "
            "boundaries."
        ),
        over=["inputs"],
        qtext="every set of boundary segments (each node on at most two), every set of nodes and depths, every layout of a file",
        why="tests save one mesh with one loop; order, direction, several loops, open lines and interior nodes are what decide "
        "whether the points of a boundary are renumbered consistently",
        files=["gridded/io/verdat.py"],
        mech=[
            ("ordering", "gridded/io/verdat.py order_boundary_segments"),
            ("writing", "gridded/io/verdat.py save_verdat"),
            ("reading", "gridded/io/verdat.py load_verdat"),
        ],
        obs=["the file's text; nodes, boundaries, depths and units of the loaded Dataset; the exception"],
        note=NOTE,
    ),
    dict(
        id="C23",
        title="Staggered (SGRID) files are read as declared and survive saving",
        statement=(
            "SGrid.load_grid gives the node, center and edge coordinates that the topology variable names, or that are found "
            "through dimensions, names or located variables; the declared padding of each axis of the arrays, in whatever order "
            "the dimensions are listed; for each location the first mask on its dimensions; the angle; and for each variable "
            "its dimensions, location (declared, or inferred from its dimensions), axes and vector component, with the slices "
            "and the axis by which avg_to_cell_center gives one mean per cell. A file with no topology, several, or none of two "
            "dimensions, or a padding text without paddings raises ValueError. save_as_netcdf and load_grid give the same grid "
            "again: coordinates (packed ones too), masks with their attributes, paddings, dimensions and variables. Indexing a "
            "variable gives the file's values whatever was indexed, or done to results, before. rotate_vectors and vector_sum "
            "are exact and keep masks."
        ),
        over=["inputs", "configurations", "histories"],
        qtext="every size and padding of faces and edges, order and style of declaring dimensions, way of finding coordinates, "
        "set of masks and variables; every history of indexing",
        why="tests read three fixed files in which paddings agree and all optional attributes are present; a padding on the "
        "wrong axis or a mask of the wrong points shows only when sizes, paddings and orders vary together",
        files=["gridded/pysgrid/sgrid.py", "gridded/pysgrid/read_netcdf.py", "gridded/pysgrid/variables.py", "gridded/pysgrid/utils.py"],
        mech=[
            ("reading", "gridded/pysgrid/sgrid.py SGrid.load_grid, SGridAttributes"),
            ("finding coordinates", "gridded/pysgrid/read_netcdf.py NetCDFDataset"),
            ("variables", "gridded/pysgrid/variables.py SGridVariable, gridded/pysgrid/utils.py"),
            ("writing", "gridded/pysgrid/sgrid.py save_as_netcdf"),
        ],
        obs=["coordinates, masks, paddings, dimensions and variables of the loaded grid; slices, axes and averages; the exception"],
        note=NOTE,
    ),
    dict(
        id="C16",
        title="The right kind of grid, with the right arrays, is made of any file",
        statement=(
            "Grid.from_netCDF (and from_netCDF of a grid class, also one's own) makes the kind of grid that the caller asks for "
            "by class or by name in any case (an unknown name raises ValueError); else the one the grid_topology dictionary "
            "means (faces or a UGRID name: triangular; a rectangular name: Grid_R; else staggered); else the file's grid_type "
            "attribute; else its topology variable (node_coordinates without node_dimensions: UGRID, else SGRID); else what "
            "the conventional names show: nodes with faces, one-dimensional nodes, other nodes. Its arrays are those the "
            "topology variable or dictionary names, or the first pair of node, center and edge coordinates in the documented "
            "order of names, in any case, with their masks, and faces in either order and numbering; grid_topology names them. "
            "A file without what the kind needs raises ValueError. dataset, grid_file and data_file take precedence over "
            "filename. Dataset.from_netCDF of such a file holds exactly the variables with a valid location attribute or whose "
            "size is that of nodes, centers, edges or faces, with name, location, grid and values, whatever the order or names "
            "of their dimensions, and interpolates them."
        ),
        over=["inputs", "configurations"],
        qtext="every combination of argument, dictionary, attribute, topology variable and names; every set of conventional "
        "names, spelling, order of dimensions and decoy",
        why="tests open a dozen sample files, each of which says its type in one way only; which source wins, and which of "
        "several candidate variables becomes which array, shows only when they are combined",
        files=["gridded/grids.py", "gridded/gridded.py", "gridded/utilities.py"],
        mech=[
            ("deciding the type", "gridded/grids.py Grid._get_grid_type, Grid._find_topology_var"),
            ("finding the arrays", "gridded/grids.py GridBase/Grid_U/Grid_S/Grid_R._find_required_grid_attrs"),
            ("arguments", "gridded/utilities.py parse_filename_dataset_args, get_dataset"),
            ("variables", "gridded/gridded.py Dataset._variables_from_netCDF, infer_location of the grids"),
        ],
        obs=["class and arrays of the grid, its grid_topology, the exception; variables of the Dataset and their values"],
        note=NOTE,
    ),
    dict(
        id="C20",
        title="The depth system and the variables of a file are found by their names",
        statement=(
            "Depth.from_netCDF (and Variable.from_netCDF for a variable with a vertical dimension) makes the depth system whose "
            "terms the file has - levels, ROMS or FVCOM -, surface-only (with the given surface_index, one level) when none is "
            "complete, ValueError when more than one is. A term is the variable of its first documented name, else the one with "
            "its documented long or standard name, in the data file before the grid file; sharing a standard name does not "
            "matter; a missing free surface is constant zero. The terms hold the values of the file, the shallowest level set to "
            "zero, bathymetry and free surface taken to the nodes (mean of the four cells around) or kept as they are there, each "
            "on its own; times are those of the free surface; surface_index, bottom_index, num_levels and num_layers follow the "
            "levels in either order. ROMS_Depth/FVCOM_Depth.from_netCDF take terms given as values or names of variables, also "
            "partially. A subclass of Variable or VectorVariable with default_names and cf_names loads the first default name "
            "that the file has, else the first cf name that is a standard or long name in it, else raises ValueError; filename "
            "has the lowest priority of the sources."
        ),
        over=["inputs", "configurations"],
        qtext="every combination of whole and partial level, ROMS and FVCOM systems named in either way, in one or two files; "
        "every set of variables, default names and cf names",
        why="tests detect three depth systems in clean files; partial systems, names shared by several variables, terms split "
        "over files and orders of levels show only when combined",
        files=["gridded/depth.py", "gridded/utilities.py", "gridded/variable.py"],
        mech=[
            ("detection", "gridded/depth.py Depth.from_netCDF, _can_create_from_netCDF"),
            ("search by name", "gridded/utilities.py search_netcdf_vars, search_dataset_for_variables_by_varname/_by_longname, merge_var_search_dicts"),
            ("terms", "gridded/depth.py L_Depth.from_netCDF, S_Depth.from_netCDF"),
            ("variables by name", "gridded/variable.py Variable._gen_varname, VectorVariable._gen_varnames, from_netCDF"),
        ],
        obs=["class, terms, bathymetry, free surface, times and level properties of the depth object; names, values, grid and times of the variables; the exception"],
        note=NOTE,
    ),
    dict(
        id="C17",
        title="Land in masks of any convention is masked, water is not, cell by cell",
        statement=(
            "convert_mask_to_numpy_mask gives a boolean array of the shape of its variable: with flag_values and flag_meanings "
            "(in any order, type and case, as text or lists), a value is False exactly when its meaning contains water, lake or "
            "river; with option_0, 1 is False; in both cases every other and every missing value is True; a variable or array "
            "without such attributes is masked where not zero. A staggered grid with such a mask of its centers, padded or not, "
            "locates a point in a cell exactly when its center is not masked; with a mask of its nodes only, when none of its "
            "four corners is; the center mask takes precedence; use_mask=False ignores both, whatever was asked before or is memoized, and a call that does not say goes by the last build_celltree; a grid that is all land locates "
            "nothing. Values at points are there in cells of water only."
        ),
        over=["inputs", "histories"],
        qtext="every set of flags, order, type and wording; every mask of nodes and centers, padded or not",
        why="tests convert three masks; each further wording, order, type, missing value or combination of masks is another way "
        "for land to become water",
        files=["gridded/utilities.py", "gridded/pysgrid/sgrid.py"],
        mech=[
            ("conversion", "gridded/utilities.py convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask"),
            ("cells", "gridded/pysgrid/sgrid.py SGrid.build_celltree, locate_faces"),
        ],
        obs=["the boolean mask; the cells in which the middle of every cell is found and the values there"],
        note=NOTE,
    ),
    dict(
        id="C18",
        title="Points may come in any layout and number, each answered on its own",
        statement=(
            "Variable.at and VectorVariable.at give one row of values per point, in order, for points given as rows of lists, "
            "tuples or arrays of any numeric type or memory layout, as columns when there are one or more than three points, as "
            "one flat point of two or three coordinates, with further dimensions of length one, or as lons and lats; none "
            "included. Two or three by two or three numbers are rows. A third coordinate is ignored without a vertical "
            "dimension. One-dimensional input of another length, and input with more than three of both, raises. The value at a "
            "point depends neither on the layout, nor on the other points, nor on earlier queries, and the caller's arrays stay "
            "as they are. locate_faces and interpolate_var_to_points of every kind of grid answer for many points what they "
            "answer for each alone."
        ),
        over=["inputs", "histories"],
        qtext="every layout, container and number of points, in any order of queries on the same objects",
        why="tests pass arrays of rows; a wrong guess of the layout, or an answer remembered for other points, gives plausible "
        "numbers at the wrong places",
        files=["gridded/utilities.py", "gridded/variable.py", "gridded/pysgrid/sgrid.py", "gridded/pyugrid/ugrid.py", "gridded/grids.py"],
        mech=[
            ("layouts", "gridded/utilities.py _reorganize_spatial_data"),
            ("queries", "gridded/variable.py Variable.at, VectorVariable.at"),
            ("grids", "locate_faces and interpolate_var_to_points of UGrid, SGrid and Grid_R"),
        ],
        obs=["shape and values of the result, the caller's points afterwards, the exception"],
        note=NOTE,
    ),
    dict(
        id="C24",
        title="A variable read from one or several files answers as the files record",
        statement=(
            "Variable.from_netCDF, VectorVariable.from_netCDF and Dataset.from_netCDF give a variable whose value at a recorded "
            "time and level is the recorded field, which is linear in time and in depth in between (layers: constant), constant "
            "in time if the data have no time dimension (with or without levels; a single level without time is not claimed), "
            "and refused outside of all times unless extrapolated. How the files are given - path, Path, list, open dataset, "
            "data_file and grid_file, given Grid; filename only where nothing more specific is given - how the times are split "
            "over files, each with its own units and reference time, type, packing and load_all change neither the values nor "
            "the times. Units, location and attributes are those of the netCDF variable (one unit per component if they "
            "differ), name, units, location, times, origin, displacement, offset, depth, boundary conditions and "
            "names of the grid (grid_topology) are the caller's where given, and the variable is found by the first of its default "
            "names in the file, else by the first standard or long name. The free surface of terrain-following levels moves with the times of the data."
        ),
        over=["inputs", "histories"],
        qtext="every grid, location, vertical, split of the times over files, units and reference times, way of naming or opening "
        "the files, and history of queries",
        why="tests read a few sample files; every further combination of files, dimensions and arguments takes another path, and "
        "a wrong one gives plausible values of another time or level",
        files=["gridded/variable.py", "gridded/gridded.py", "gridded/time.py", "gridded/depth.py", "gridded/utilities.py"],
        mech=[
            ("reading", "gridded/variable.py Variable.from_netCDF, VectorVariable.from_netCDF"),
            ("several files", "gridded/time.py Time.from_netCDF; gridded/utilities.py get_dataset, parse_filename_dataset_args"),
            ("order of the dimensions", "gridded/variable.py Variable.dimension_ordering, at"),
            ("datasets", "gridded/gridded.py Dataset._variables_from_netCDF"),
        ],
        obs=["values of at, units, location, attributes, name and times of the variable read, the exception"],
        note=NOTE,
    ),
    dict(
        id="C25",
        title="Vectors on the sides of cells are averaged, turned and summed exactly",
        statement=(
            "avg_to_cell_center gives the mean of the two neighbours along the axis asked for, masked where either is; "
            "rotate_vectors turns each vector counterclockwise by its angle, vector_sum gives its length, pair_arrays pairs "
            "element by element; results have the shape of the arguments, which stay as they are. For a staggered file with "
            "any padding, center_slicing and center_axis of u, v and the angle of the grid lead to the current at the centers of the cells, "
            "every cell, time by time. calculate_bearing is the initial bearing of the great circle in degrees from north, "
            "calculate_angle_from_true_east the angle from east with the last one repeated. points_in_polys tells for each "
            "point whether it is inside of its own polygon, of any number of corners, turning either way, convex or not "
            "(points on an outline are not judged)."
        ),
        over=["inputs", "configurations"],
        qtext="every table, vector, angle, pair of places, polygon and point, every pair of paddings of a file",
        why="tests use one padding, one polygon layout and arrays without masks; a slice or an axis off by one gives plausible "
        "currents at the wrong cells",
        files=["gridded/pysgrid/processing_2d.py", "gridded/pysgrid/utils.py", "gridded/pysgrid/variables.py"],
        mech=[
            ("averages, turns and sums", "gridded/pysgrid/processing_2d.py"),
            ("bearings, pairs and polygons", "gridded/pysgrid/utils.py"),
            ("places in a staggered file", "gridded/pysgrid/utils.py determine_variable_slicing, infer_avg_axes"),
        ],
        obs=["values, masks and shape of the results, the caller's arrays afterwards, the exception"],
        note=NOTE,
    ),
    dict(
        id="C26",
        title="Drawings show the grid, and what is picked on them is the cell clicked",
        statement=(
            "plot_ugrid draws exactly the edges of a triangle mesh and its boundaries, dots at the nodes and numbers at nodes and "
            "faces (stored or mean coordinates) where asked for; plot_sgrid exactly the rows and columns of nodes, with dots at "
            "nodes, centers and edges where asked for; the limits hold the whole grid. GridGeoGenerator gives the triangles of an "
            "FVCOM file from zero, each edge once, the box around the mesh with its margin, all with longitudes between -180 and 180 "
            "(meshes across the seam are judged for queries only), and for a place on the map, however the file writes longitudes, "
            "the face that holds it with its nodes and their places, or None off the mesh. In the viewer each left click in a cell "
            "adds one row to the CSV log beside the file - the cell, the mean of its corners, their numbers and places - and the one "
            "highlight and its node labels are those of the last cell; other buttons, clicks in the margin or off the mesh change "
            "nothing; opening it again, or fvcom_inspector, starts an empty log."
        ),
        over=["inputs", "histories"],
        qtext="every triangle mesh, curvilinear grid and choice of what is drawn, every longitude of the mesh, margin, place, and history of clicks",
        why="no test draws a mesh and looks at the lines, or clicks twice; a wrong shift of longitude, a shared edge or a stale "
        "highlight shows only on other meshes and after other clicks",
        files=["gridded/plotting/mpl_plotting.py"],
        mech=[
            ("drawing grids", "gridded/plotting/mpl_plotting.py plot_ugrid, plot_sgrid"),
            ("geometry of FVCOM files", "gridded/plotting/mpl_plotting.py GridGeoGenerator"),
            ("picking cells", "gridded/plotting/mpl_plotting.py PureMatplotlibFVCOMViewer"),
        ],
        obs=["the lines, dots, numbers and outlines on the axes, the answers of queries, the CSV log after every click"],
        note=NOTE,
    ),
    dict(
        id="C27",
        title="Indexing a variable of the older interfaces gives its current data",
        statement=(
            "In any history of indexing UVar variables and a UMVar group of them (by number, slice, list or array of numbers, mask), "
            "replacing, deleting or writing to their data in place and writing into returned copies: u[item] is what item names in "
            "the data u has now, whether they are in memory, have holes or are in a file; g[item] has a row for each place and a "
            "column for each variable, in the order they joined, missing where the variable's data are missing; shape, length, "
            "smallest and largest value (missing data left out) are those of the data, for SGridVariable too. A UVar with an unknown "
            "location, a group of one or of unlike shapes, and adding a name twice or another shape raise ValueError and change "
            "nothing. The attributes are those given and those of the variable in the file, which win; the caller's dict is left alone."
        ),
        over=["inputs", "histories"],
        qtext="every data, every item, every history of questions and changes",
        why="tests index once; answers kept from before a change, or under the text of an array of which numpy shows only the "
        "ends, show only in longer histories and with long arrays",
        files=["gridded/pyugrid/uvar.py", "gridded/pysgrid/variables.py"],
        mech=[
            ("variables", "gridded/pyugrid/uvar.py UVar"),
            ("groups of variables", "gridded/pyugrid/uvar.py UMVar"),
            ("variables of staggered files", "gridded/pysgrid/variables.py SGridVariable"),
        ],
        obs=["values, missing places, dimensions of every answer, attributes and names, the caller's dicts, the exception"],
        note=NOTE,
    ),
]
