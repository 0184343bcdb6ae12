#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
             observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

G = "src/geom/"
p("C01", "Cell and point conversions follow one grid convention on every axis",
  "A cell's point is its centre, offset + cell * resolution on each axis, and a point's cell is the cell whose centre is nearest to it on each axis (exactly on a border either neighbour may be returned). The scalar, the point-wise, the per-axis-resolution and the grid map's own conversions all give the same answer for the same axis, with the grid map measuring from the minimum corner of its bounds, and no axis influences another.",
  ["inputs"], "every cell, point, offset and resolution (2D and 3D), within the range where a cell index is exactly representable",
  "the tests convert a few hand-picked cells with one offset; a swapped axis, a floor instead of a round or a variant that forgets the offset survives them for other inputs",
  [G+"converter.rs", "src/map/grid_map.rs", "src/map/occupancy_grid_map.rs"],
  [("point_coord_from_cell_coord / cell_coord_from_point_coord", G+"converter.rs:8-18"), ("point_from_cell(_n) / cell_from_point(_n)", G+"converter.rs:24-100"), ("GridMap::point_from_cell / cell_from_point", "src/map/grid_map.rs:166-174")],
  ["return values of the conversion functions"])
p("C02", "Converting a cell to its point and back returns the same cell",
  "For every cell, taking the point of that cell and then the cell of that point (same offset, same resolution) returns the original cell on every axis. A point always lies within half a cell, up to rounding, of the point of its own cell.",
  ["inputs"], "every cell index up to 2^18 in magnitude, every offset up to 2^18 cells, every positive normal resolution; 2D and 3D",
  "the tests round-trip a handful of cells; floating-point rounding depends on the exact index, offset and resolution, an input space no test can enumerate",
  [G+"converter.rs"], [("cell centres are used instead of corners, so rounding errors stay away from cell borders", G+"converter.rs:3-36")],
  ["composition of the two conversions"])
p("C03", "The enclosing bounds of two boxes is their smallest common box",
  "The box enclosing two boxes contains both of them, and on every axis each of its faces is a face of one of the two, so nothing smaller would do. Only when the first box is the empty box (both corners at the origin) is it ignored, and the result is then exactly the second box.",
  ["inputs"], "every pair of boxes with finite (non-NaN) coordinates, 2D and 3D",
  "tests use a few boxes; which axis and which face is larger gives many orderings per dimension and any wrong comparison shows only for some of them",
  [G+"bounds.rs"], [("Bounds::enclosing", G+"bounds.rs:110-131"), ("Bounds::empty", G+"bounds.rs:41-43")], ["returned Bounds"])
p("C04", "The overlap of two boxes is exactly their intersection, or empty",
  "The overlap of two boxes is the largest box contained in both: on every axis it runs from the larger minimum to the smaller maximum. If the boxes are disjoint or merely touch (to within float tolerance) on any axis, the result is the empty box on all axes.",
  ["inputs"], "every pair of well-formed boxes with finite coordinates, 2D and 3D",
  "the tests sample a few relative positions; per-axis orderings and the early exit on a later axis are not covered",
  [G+"bounds.rs"], [("Bounds::overlapping", G+"bounds.rs:133-147")], ["returned Bounds"])
p("C05", "Rounding a box to the grid resolution keeps it inside and grid aligned",
  "Rounding a box to a resolution gives a box whose faces lie on multiples of the resolution (to within float tolerance), that contains the original box (to within float tolerance), and that is less than one cell larger on each side. When expansion is requested, exactly those maximum faces that already lay on a multiple are moved out by one cell; a minimum face on a multiple never moves.",
  ["inputs"], "every well-formed box and positive resolution with coordinates up to 2^18 cells, both values of the expand flag, 2D and 3D",
  "tests check fixed boxes with resolution 0.1 or 1; rounding direction per sign and per face and the tolerance branch depend on every value",
  [G+"bounds.rs"], [("Bounds::discretized", G+"bounds.rs:87-107")], ["returned Bounds"])
p("C06", "Rounding cell bounds to tiles gives the smallest enclosing tile-aligned box",
  "Rounding cell bounds to a tile size yields, on every axis, the largest multiple of the tile size that is not above the minimum and the smallest multiple that is not below the maximum, for negative, zero and positive cells alike. It never overflows for cells within a quarter of the integer range and any positive tile size in that range.",
  ["inputs"], "every cell bounds and every tile size >= 1, 2D and 3D",
  "the tests use one tile size and a few cells; sign, remainder and tile size combine without bound",
  [G+"cell_bounds.rs"], [("CellBounds::discretized", G+"cell_bounds.rs:59-85")], ["returned CellBounds"])
p("C07", "Building boxes from cells, sizes and corners is faithful and validated",
  "A box built from cell bounds, or from a size in cells plus an offset (also with a resolution per axis), has its corners at the points of exactly those corner cells; cell bounds built from a box hold the cells of the box's corners, with empty mapping to empty. Checked constructors accept exactly the corner pairs with min <= max on every axis (storing them unchanged) and reject every other pair by panicking; two boxes are equal exactly when all corner coordinates are, and approximately equal exactly when all corner coordinates are.",
  ["inputs"], "every pair of corners, size, offset and resolution, 2D and 3D",
  "tests build a few boxes; an unchecked axis, swapped corner or a lost offset only shows on other inputs",
  [G+"bounds.rs", G+"cell_bounds.rs"], [("Bounds::new / from_size_cells(_n) / from_cell_bounds(_n)", G+"bounds.rs:34-85"), ("CellBounds::new / from_bounds", G+"cell_bounds.rs:37-56")], ["returned boxes, panics"])
p("C08", "A point cloud keeps every point, in order, and its bounds are their hull",
  "A point cloud built from points reports exactly that many points and iterates exactly those points in the given order with every coordinate intact. Its bounds contain every point and the coordinate origin, and each face is the coordinate of one of the points or zero, so they are the tightest such box.",
  ["inputs"], "every list of points of any length (including empty), 2D and 3D; non-NaN coordinates for the bounds",
  "tests use clouds of two or three points; length is unbounded and a lost point, a swapped axis or a stale extremum depends on position in the list",
  [G+"point_cloud.rs"], [("from_points / points_iter / num_points / bounds", G+"point_cloud.rs:22-61")], ["points_iter, num_points, bounds"])
p("C09", "Transforming a point cloud applies the matrix to every point",
  "Transforming a 3D point cloud returns a cloud with the same number of points in the same order, where each point is the upper three rows of the 4x4 matrix applied to the corresponding point extended with 1. The original cloud is not modified, and points do not influence each other.",
  ["inputs"], "every cloud (any length) and every 4x4 matrix",
  "one test with a single transform; whether the translation is applied, rows dropped, or points mixed up depends on the matrix and the length",
  [G+"point_cloud.rs"], [("PointCloud3::transform", G+"point_cloud.rs:66-75")], ["returned PointCloud3"])
p("C10", "A grid map is a faithful store: writes are read back, nothing else changes",
  "A new grid map has one cell per resolution step of its bounds, all holding the default value; after writing a value to a cell of the map that cell reads back as the value and every other cell, the bounds, resolution and tile size are unchanged. A cell outside of the map, including one with negative indices, is never silently mapped to another cell: reading or writing it panics.",
  ["inputs", "histories"], "every map size, cell and value, 2D and 3D; by induction every sequence of reads and writes",
  "tests set and get a few cells of small maps; aliasing of distinct cells or of out-of-range cells needs all pairs of cells and all sizes",
  ["src/map/grid_map.rs", G+"cell.rs"], [("GridMapN::new / get / set / clone", "src/map/grid_map.rs:96-160,332-341"), ("CellToNdIndex::to_ndindex", G+"cell.rs:31-48"), ("ndarray_with_bounds", "src/map/grid_map.rs:344-361")], ["get, set, bounds, resolution"],
  [("GridMapN.data", "cell values, indexed relative to bounds.min", "src/map/grid_map.rs:80")])
p("C11", "Growing a map keeps every stored value at its place in the world",
  "After the map is expanded, every cell that existed before still holds its value at the same place in the world (its index shifts by the whole number of cells the minimum corner moved), and every newly created cell holds the given default value. The new bounds contain the old bounds and the requested bounds, the map has one cell per resolution step of its bounds, and if the map already reaches beyond the request (by at least one further cell at the maximum side) nothing changes.",
  ["inputs", "histories"], "every tile-aligned map state reachable by construction and earlier expansions, every requested box, resolution and tile size, 2D and 3D",
  "tests expand a small map in a few directions; growth direction per axis, sign, tile size and existing contents form an unbounded space, and a wrong offset corrupts a map silently",
  ["src/map/grid_map.rs", G+"bounds.rs", G+"cell_bounds.rs"], [("ExpandableGridMap::expand_bounds (2D and 3D)", "src/map/grid_map.rs:203-310")], ["get, bounds after expand_bounds"],
  [("GridMapN.bounds", "metric extent of the map; its minimum corner is the origin of cell indices", "src/map/grid_map.rs:82"), ("GridMapN.data", "cell values", "src/map/grid_map.rs:80")])
p("C12", "After growing a map, every point of the requested box lies in a map cell",
  "After expanding a map to a box, the cell of every point inside the box (both faces included) is a valid, readable and writable cell of the map, and the map's extent is a whole number of tiles aligned to multiples of the tile size.",
  ["inputs"], "every requested box, every point in it, every resolution and tile size, coordinates up to 2^18 cells, 2D and 3D",
  "tests use coordinates in the lower half of cells; whether the last cell is allocated depends on where a coordinate falls within a cell and a tile (the original code panicked for the upper half)",
  ["src/map/grid_map.rs", G+"bounds.rs", G+"cell_bounds.rs"], [("maximum faces are moved out by one cell before rounding to tiles", "src/map/grid_map.rs:213-225,269-281"), ("CellBounds::discretized", G+"cell_bounds.rs:59-85")], ["cell_from_point followed by get/set after expand_bounds"])
p("C13", "Casting a ray always ends and gives an unbroken chain of cells",
  "Casting a ray terminates for all endpoints and starts in the origin's cell; each further cell shares a face with the one before it, no cell repeats, and every cell lies between the origin cell and the end cell on every axis. Unless the range limit stops it, the reported end cell is exactly the cell of the end point, is not among the free cells, and is face-adjacent to the last one; origin and end in the same cell give no free cells and that end cell.",
  ["inputs"], "every origin, end, bounds corner, resolution and range limit for which the two cells are representable; 2D and 3D; unbounded number of steps",
  "tests cast a dozen short rays; the number of steps is unbounded and float error near ties decides the path (the original code could run past the end cell, forever when unlimited)",
  ["src/ray_caster.rs"], [("step towards the end cell only along axes that have not reached it", "src/ray_caster.rs:79,97-110"), ("loop exit on the end cell", "src/ray_caster.rs:112-126")], ["(free cells, end cell) of cast_ray"])
p("C14", "A cast ray visits exactly the cells along the line, within the range limit",
  "In exact arithmetic, every cell returned for a ray is touched by the straight segment from origin to end, and the next cell is always the one behind the nearest border. With a positive range limit, the ray is cut at the first cell (after the origin's, other than the end cell) whose centre is farther from the origin than the limit, no end is then reported, and no cell reported before was too far; without a positive limit it is never cut.",
  ["inputs"], "every origin, end, bounds corner, resolution and range limit; 2D and 3D; unbounded number of steps; geometry under idealised real arithmetic, the range cut on the code's own distance comparison",
  "tests check a dozen hand-computed rays; direction signs, per-axis step lengths and the border computation matter for every slope and offset",
  ["src/ray_caster.rs"], [("t_max / t_delta per axis", "src/ray_caster.rs:80-96"), ("selection of the axis with the nearest border", "src/ray_caster.rs:97-112"), ("range cut-off", "src/ray_caster.rs:115-123")], ["free cells of cast_ray"])
p("C15", "Casting a scan reports each ray's end as occupied and the rest as free",
  "For a whole scan, the occupied cells are exactly the end cells of the individual rays, and the free cells are exactly the cells passed by some ray that are not the end cell of any ray. The two sets are disjoint and do not depend on the order of the points.",
  ["inputs"], "every origin and point cloud of any size, bounds, resolution and range limit, 2D and 3D",
  "tests cast scans of a few points that hardly interact; a cell that is free for one ray and the end of another, in either order, is the case that matters and is unbounded",
  ["src/ray_caster.rs"], [("fold over rays, then removal of occupied from free", "src/ray_caster.rs:24-46")], ["(free, occupied) of cast_rays"])
p("C16", "Integrating a scan updates each touched cell once and nothing else",
  "Integrating a scan first grows the map to contain the sensor origin and all points, then changes each cell passed by a ray exactly once by the miss update and each end cell exactly once by the hit update, no matter how many rays touch it; cells that are ends get no miss update. Every other cell keeps its value, at its place in the world, and integration never panics, wherever the sensor and the points are.",
  ["inputs", "histories"], "every map state, sensor origin, point cloud, noise model; 2D and 3D; by induction every sequence of integrations",
  "one small scenario per dimension is tested; overlap between rays, cells outside of the cloud's bounds and existing contents need unbounded inputs (the original code panicked when the sensor was outside the cloud's bounds)",
  ["src/map/lidar_noise_model.rs", "src/map/grid_map.rs", "src/ray_caster.rs"], [("LidarNoiseModel::integrate_point_cloud", "src/map/lidar_noise_model.rs:116-160"), ("integrate_hit / integrate_miss", "src/map/lidar_noise_model.rs:65-97")], ["get on all cells after integration"],
  [("GridMapN.data", "log-odds per cell", "src/map/grid_map.rs:80")])
p("C17", "Cell log-odds move by the model's step and stay within its limits",
  "A hit changes a cell to the smaller of (value + hit log-odds) and the maximum, a miss to the larger of (value + miss log-odds) and the minimum; so with a hit log-odds >= 0 and a miss log-odds <= 0 a value within [min, max] stays there forever, hits never lower and misses never raise it. A cell counts as occupied exactly when its value is above the occupied threshold, unknown cells start at zero log-odds, and a model stores the log-odds of exactly the probabilities it is given, rejecting every probability outside [0, 1]; the default model is the model of the default constants.",
  ["inputs", "histories"], "every cell value, every model with non-NaN parameters, every sequence of updates",
  "tests use the default model and one or two updates; saturation and threshold comparison depend on values and on unbounded histories",
  ["src/map/lidar_noise_model.rs"], [("integrate_hit / integrate_miss clamps", "src/map/lidar_noise_model.rs:65-97"), ("LidarNoiseModel::new", "src/map/lidar_noise_model.rs:30-52"), ("occupied", "src/map/lidar_noise_model.rs:162-164")], ["get after an update; occupied"])
p("C18", "Probability and log-odds conversions and sign follow their definitions",
  "The log-odds of a probability p is ln(p / (1 - p)) and the probability of log-odds x is 1 - 1 / (1 + exp(x)); in exact arithmetic the two are inverse to each other for 0 < p < 1, both increase with their argument, and probability one half is log-odds zero. The sign of a number (and of a vector, per axis) is 1, -1 or 0 exactly as it is above, below or equal to zero.",
  ["inputs"], "every non-NaN float input; the inverse and monotonicity laws under idealised arithmetic",
  "tests check five values each; the laws quantify over all probabilities",
  ["src/math.rs", G+"vector.rs"], [("logodds_from_probability / probability_from_logodds / f32_signum", "src/math.rs:1-17"), ("vector::signum", G+"vector.rs:7-13")], ["return values"])
p("C19", "Reading a KITTI scan yields exactly the points of the file",
  "A scan of 16*n bytes yields a cloud of exactly n points where point k has as coordinates the native-endian floats at bytes 16k, 16k+4 and 16k+8 (the intensity at 16k+12 is dropped), in file order and bit for bit. Any other length is rejected with an InvalidData error, a failing input's error is returned, and no input makes the reader panic.",
  ["inputs", "fault_sequences"], "every byte string of any length, every input source including one that fails",
  "no test reads a scan; length is unbounded and dropped columns, order and error paths depend on it",
  ["src/kitti/point_cloud_reader.rs"], [("read", "src/kitti/point_cloud_reader.rs:6-37")], ["returned cloud or error"])
p("C20", "Reading a KITTI pose applies fields, origin and errors as specified",
  "Reading a pose takes latitude, longitude, altitude, roll, pitch and yaw from the first six space-separated fields, in that order; fewer fields or an unparsable one gives an InvalidData error, a failing input gives its error, and nothing panics. Without a GPS origin the position is zero and the record's own position is returned as origin; with one, that origin is returned unchanged and the position is x = longitude difference times the equatorial circumference times the cosine of the origin's latitude / 360, y = latitude difference times the polar circumference / 360, z = altitude difference.",
  ["inputs", "fault_sequences"], "every text, every GPS origin, every failing input source",
  "the tests do not cover the reader beyond a sample; field order, origin handling and each error path are per-input facts (the original code scaled the longitude by the cosine of the latitude difference)",
  ["src/kitti/oxt_reader.rs"], [("read", "src/kitti/oxt_reader.rs:42-79"), ("gps_to_meters", "src/kitti/oxt_reader.rs:22-40")], ["returned pose, origin or error"])
p("C21", "Reading a KITTI directory handles all files, in name order, or fails",
  "Reading a directory reads every entry exactly once in lexicographic path order and returns one result per entry in that order; for poses the first record's position becomes the GPS origin for all later records. If listing the directory or any file fails, the whole read returns an error instead of a shortened or reordered result, whether or not progress is printed.",
  ["inputs", "fault_sequences"], "every directory content and listing order, every position of a failing file",
  "no test reads a directory; listing order is up to the file system, and faults can occur at any entry",
  ["src/kitti/fs.rs", "src/kitti/oxt_reader.rs", "src/kitti/point_cloud_reader.rs"], [("seq_files_in_dir", "src/kitti/fs.rs:3-11"), ("read_from_dir", "src/kitti/oxt_reader.rs:88-118; src/kitti/point_cloud_reader.rs:43-63")], ["returned Vec or error"])
p("C22", "Change tracking lists exactly the cells each integration touched",
  "While change tracking is on, an integration appends exactly the cells it updated, each once, to the list of changed cells; while it is off the list stays as it was. Clearing empties the list, adding appends, reading does not alter it, and when the map grows the cells already in the list keep denoting the same places in the world.",
  ["inputs", "histories"], "every scan, map state and sequence of toggling, integrating, growing, adding and clearing",
  "one test looks at the list after one integration; growth between integrations and toggling are histories (the original code left stale indices behind when the minimum corner moved)",
  ["src/map/lidar_noise_model.rs", "src/map/grid_map.rs", "src/map/occupancy_grid_map.rs"], [("changed_cells collection", "src/map/lidar_noise_model.rs:138-160"), ("GridMapN change list", "src/map/grid_map.rs:177-200"), ("shift on growth", "src/map/grid_map.rs:250-253,308-311")], ["changed_cells()"],
  [("GridMapN.changed_cells", "cells changed since the list was cleared", "src/map/grid_map.rs:86")])
p("C23", "An occupancy map acts as its grid and its noise model, nothing more",
  "Every read, write, conversion, bounds, resolution and change-tracking operation on an occupancy map gives the result and effect of the same operation on the grid map inside it, integration and occupancy queries those of its noise model on that grid. A new occupancy map is an empty map with the given resolution and tile size and the model's default cell value, and cloning a grid map yields an equal, independent map.",
  ["inputs", "histories"], "every map state, argument and noise model, 2D and 3D",
  "tests only go through one integration path; a forgotten or crossed delegation is visible only for states the tests do not build",
  ["src/map/occupancy_grid_map.rs", "src/map/grid_map.rs"], [("GridMap for OccupancyGridMapN", "src/map/occupancy_grid_map.rs:71-134"), ("OccupancyGridMapN::new / integrate_point_cloud / occupied", "src/map/occupancy_grid_map.rs:41-68"), ("GridMapN: Clone", "src/map/grid_map.rs:318-341")], ["all public methods"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
