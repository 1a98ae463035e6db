"""Writes properties.jsonl (kept as a script so that the wording lives in one place)."""
import json
P = []
G = "karta/vector/geometry.py"
R = "karta/raster/grid.py"


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


prop("C01", "Vector operations bring all operands into one coordinate system",
     "Whenever an operation on vector geometries combines coordinates of two geometries (distance, azimuth, "
     "intersection, containment, nearest point, merging, adding, extending, assignment, index queries), the "
     "coordinates are first expressed in the same coordinate reference system, whatever systems the operands use. "
     "A geometry built from coordinates is labelled with the system those coordinates are expressed in.",
     ["inputs"], "all pairs of geometries of every class in all combinations of coordinate systems",
     "Tests exercise a few pairs of systems; most tests use equal systems for both operands, where a missing "
     "conversion is invisible.",
     [G, "karta/vector/utilities.py", "karta/vector/intersection.pyx", "karta/vector/contains.pyx"],
     [("conversion to the receiver's system", G), ("labelling of constructed geometries", G)])

prop("C02", "Coordinates requested in a coordinate system are returned in that system",
     "Every accessor that takes an optional coordinate system (vertex, vertices, coordinates, bounding box, extent "
     "of geometries; coordinates, extents, bounding boxes and centres of grids) returns coordinates expressed in "
     "exactly that system, and in the object's own system when none is given. Bounding boxes are ordered "
     "(xmin, ymin, xmax, ymax) and extents (xmin, xmax, ymin, ymax); boxes contain every "
     "vertex, those of multipart geometries all parts, also across the dateline.",
     ["inputs"], "all geometries and grids, all requested coordinate systems, including none and the object's own",
     "Each accessor has a same-system fast path; tests mostly hit that path or one fixed conversion.",
     [G, R], [("crs-taking accessors of geometries", G), ("crs-taking accessors of grids", R)])

prop("C03", "Raster operations convert geometry and coordinate arguments to the grid's CRS",
     "A grid operation that takes a geometry, or coordinates together with their coordinate system (sampling, "
     "profiles, masking by polygon, clipping or resizing to a region, gridding points), uses those coordinates only "
     "after converting them to the grid's own coordinate system. Geometries and coordinates that a grid operation "
     "returns are labelled with the system they are expressed in.",
     ["inputs"], "all grids and all argument geometries in all combinations of coordinate systems",
     "Tests almost always use a grid and a geometry in the same system.",
     [R, "karta/raster/misc.py", "karta/tile.py"],
     [("conversion of sample/profile/mask arguments", R)])

prop("C04", "Queries and derivations never modify their operands",
     "Apart from the documented in-place operations (assignment to an item, extending a line or table, setting the "
     "nodata value, in-place apply and mask, adding to a GPX document), no operation changes the coordinates, "
     "properties, data, sub-polygons, transform or values of the objects it is called on or is given.",
     ["inputs", "histories"], "all operations, all operands, all call histories",
     "A test observes one result of one call; damage to an operand shows only in a later use of it.",
     [G, R, "karta/vector/_geojson.py", "karta/vector/_shp.py", "karta/vector/_gpx.py", "karta/vector/table.py",
      "karta/raster/misc.py", "karta/raster/band.py"],
     [("copying before modification", G), ("in-place switches of grids", R)])

prop("C05", "Cached results always agree with the present state and arguments",
     "A cached bounding box, extent or length is returned only to a call with the same arguments on unchanged "
     "geometry: every operation that replaces the coordinates, the parts or the coordinate system of a geometry "
     "discards the cached results and rebuilds the spatial index derived from them.",
     ["histories"], "all sequences of queries and modifications on a geometry",
     "Staleness needs a particular query-modify-query sequence.",
     ["karta/vector/decorators.py", G],
     [("cache keyed by arguments", "karta/vector/decorators.py"), ("invalidation on modification", G)])

prop("C06", "Spatial-index box searches return exactly the items in the box",
     "For every set of items and every search box the R-tree returns all items whose bounding boxes lie in "
     "(respectively touch) the box, boundaries included, up to the result limit, and the quadtree returns "
     "exactly the points strictly inside the box: pruning never hides an item, no other item is reported, and the "
     "index answers the caller with the positions of the items it was built from. A multipart geometry's box and "
     "touch queries select the same parts with the index and without it, in whatever systems the two are.",
     ["inputs", "histories"], "all item sets (any insertion order, duplicates, zero-area boxes) and all boxes",
     "Node splits, quadrant choice and pruning depend on the item set; tests use one or two random sets.",
     ["karta/vector/rtree.h", "karta/vector/rtree.pyx", "karta/vector/quadtree.h", "karta/vector/quadtree.pyx", G],
     [("overlap and containment predicates", "karta/vector/rtree.h"),
      ("quadrant choice and search", "karta/vector/quadtree.h")])

prop("C07", "Spatial indexes neither leak, double-free nor overrun their memory",
     "Every block that the R-tree, quadtree, pool and list code allocates is released exactly once, nothing is used "
     "after release, and arrays are never written beyond their capacity, for every sequence of insertions, "
     "splits and searches, including those that end in an exception.",
     ["histories", "inputs"], "all insertion and search sequences, all exits of the native functions",
     "Leaks and overruns rarely change a test's outcome.",
     ["karta/vector/rtree.h", "karta/vector/rtree.pyx", "karta/vector/quadtree.h", "karta/vector/quadtree.pyx",
      "karta/vector/pool.h", "karta/vector/linkedlist.h"],
     [("allocation and release", "karta/vector/rtree.h"), ("growth of result pools", "karta/vector/pool.h")])

prop("C08", "Grid cell indices and coordinates are mutually inverse",
     "For every affine transform, including skewed and negative cell sizes, converting a cell centre's coordinates "
     "to fractional or integer indices gives back that cell, and the coordinates of cell centres, cell corners, "
     "extents and bounding boxes all follow from the same transform and the grid's dimensions. "
     "Rows count along y and columns along x everywhere.",
     ["inputs"], "all transforms (any sign, size, skew) and all grid shapes",
     "Mistakes that vanish for zero skew, square cells or square grids pass tests made of such grids.",
     [R, "karta/raster/coordgen.py", "karta/raster/crfuncs.pyx"],
     [("index formulas", R), ("coordinate generation", "karta/raster/coordgen.py"),
      ("compiled position formula", "karta/raster/crfuncs.pyx")])

prop("C09", "GeoTIFF writing and reading agree on georeference, layout, nodata and type",
     "A grid written to GeoTIFF and read back has the same transform (with the order and sign conventions of the "
     "file format), coordinate system, row order, nodata value, band order and data type: the writer's and the "
     "reader's conversions are inverse to each other.",
     ["inputs"], "all grids: any transform including skew, any band count, every supported data type",
     "Round trips are tested on a few unskewed grids of common types.",
     ["karta/raster/_gdal.py", "karta/raster/read.py", R],
     [("geotransform packing", "karta/raster/_gdal.py"), ("reader", "karta/raster/read.py"),
      ("type tables", "karta/raster/_gdal.py")])

prop("C10", "ASCII grids are read and written with one header and row convention",
     "The ASCII grid writer and reader agree on the header fields (dimensions, corner or centre reference, cell "
     "size, nodata), the reference corner becomes the grid origin with the right half-cell shift, and the first data "
     "line is the northernmost row; transforms the format cannot express are refused.",
     ["inputs"], "all grids and all header variants (corner or centre reference, with or without nodata)",
     "Tests read one file and write to one grid.",
     ["karta/raster/_aai.py", "karta/raster/read.py", R],
     [("header parsing", "karta/raster/_aai.py"), ("writer", R)])

prop("C11", "Grids derived from a grid keep its transform, CRS and nodata value",
     "Every operation that returns a new grid (copy, apply, clip, resize, resample, mask, merge, slope, aspect and "
     "other derived surfaces) gives it the coordinate system and nodata value of its source and the transform "
     "that places each returned cell where the source cells it came from lie. The subgrids that a grid is divided in have the "
     "requested size and overlap and together cover it.",
     ["inputs"], "all grids and all grid-returning operations",
     "Tests check values, and use default nodata and unskewed transforms.",
     [R, "karta/raster/misc.py"], [("construction of result grids", R), ("derived surfaces", "karta/raster/misc.py")])

prop("C12", "Blockwise band reads and writes address exactly the requested cells",
     "Reading or writing any row/column window (indices, slices, negative indices, steps) of a band, however the "
     "band is divided into blocks or files, touches exactly the requested cells, in order, each once.",
     ["inputs"], "all band sizes, block sizes, windows, strides and index signs",
     "The block arithmetic has boundary cases (partial blocks, windows within one block, steps) that tests sample.",
     ["karta/raster/band.py", "karta/raster/_gdal.py", R],
     [("block arithmetic", "karta/raster/band.py"), ("window normalisation", "karta/raster/band.py"),
      ("chunks of grids", R)])

prop("C13", "Holes of polygons survive every conversion",
     "Sub-polygons (holes) of a polygon are carried along by every operation that converts, copies, transforms, "
     "merges, indexes, reads or writes polygons, and every measure and test that is defined with holes (area, "
     "perimeter, containment, masks of grids) accounts for each of them; rings written to files are closed.",
     ["inputs"], "all polygons with any number of holes, all conversions and formats",
     "Most tests use polygons without holes.",
     [G, "karta/vector/_geojson.py", "karta/vector/_shp.py", "karta/vector/read.py"],
     [("construction from and to rings", G), ("ring order of file formats", "karta/vector/_shp.py")])

prop("C14", "Geometry types map consistently to and from every interchange format",
     "Each of the six geometry types maps to one type name or code of GeoJSON, the geo interface and shapefiles, in "
     "2-D and 3-D, and reading that name or code gives back the same type with coordinates and properties in the "
     "same places (a shapefile layer is 3-D if any of its geometries is; single parts of multipart lines and polygons "
     "are not told apart by the shapefile format); unknown types are refused.",
     ["inputs"], "all geometry types, ranks and formats",
     "The mapping is a table spread over several functions; tests cover some entries.",
     [G, "karta/vector/_geojson.py", "karta/vector/_shp.py", "karta/vector/read.py"],
     [("type tables", "karta/vector/_shp.py"), ("readers", "karta/vector/read.py")])

prop("C15", "GPX documents keep coordinates, properties and structure",
     "Waypoints, tracks and routes added to a GPX document are written with longitude and latitude in their own "
     "fields, with their properties as properties and extensions as extensions, segment by segment and point by "
     "point in order. Reading a document gives these records back, and the geometry readers return the points and "
     "lines of its waypoints and track segments in WGS84 longitude and latitude, with their properties and extensions.",
     ["inputs"], "all waypoints, tracks and routes with any properties and extensions",
     "One file is round-tripped by the tests.",
     ["karta/vector/_gpx.py", "karta/vector/read.py"],
     [("writers", "karta/vector/_gpx.py"), ("readers", "karta/vector/_gpx.py"), ("geometry readers", "karta/vector/read.py")])

prop("C16", "Equality and hashing of geometries and coordinate systems are consistent",
     "Objects that compare equal have equal hashes, equality is decided by coordinates, attributes and coordinate "
     "system alike, and no comparison of a geometry or coordinate system with an unrelated object fails.",
     ["inputs"], "all pairs of geometries, tables, grids or coordinate systems",
     "Consistency is about all pairs; tests compare a few.",
     [G, "karta/crs.py", "karta/vector/table.py", R],
     [("equality and hashing of geometries", G), ("equality of coordinate systems", "karta/crs.py")])

prop("C17", "Data rows stay aligned with the geometry parts they describe",
     "In every subset, slice, merge, join, sort order or file round trip of a multipart geometry, row i of the data "
     "table describes part i of the geometry, and each value stays under its own field name. A slice of a geometry "
     "or table denotes the items that range(*slice.indices(len)) enumerates.",
     ["inputs", "histories"], "all multipart geometries, index sets, field sets and merge orders",
     "Misalignment needs particular orders of fields or parts.",
     ["karta/vector/table.py", G, "karta/vector/_shp.py", "karta/vector/read.py"],
     [("row and field selection", "karta/vector/table.py"), ("subsets of multipart geometries", G)])

prop("C18", "Coordinate systems implement one interface with one set of conventions",
     "Every coordinate system answers project, transform, forward and inverse with the same argument order and result "
     "layout: forward gives (x, y, back azimuth), inverse gives (azimuth, back azimuth, distance). Azimuths are "
     "measured clockwise from north, in degrees unless radians are requested; on the ellipsoid azimuths and back "
     "azimuths lie within [-180, 180], in the plane back azimuths lie within [0, 360). A system's ellipsoid is the one "
     "its definition names, its geodesics run on that ellipsoid, the tables of ellipsoids and datums agree with PROJ's, "
     "every named datum resolves to a defined ellipsoid, and a system read from WKT keeps the datum of its definition.",
     ["inputs"], "all coordinate system classes and instances, all definition strings built from the tables",
     "The tables are large and the conventions hold for all directions.",
     ["karta/crs.py", "karta/geodesy.py"],
     [("ellipsoid tables", "karta/crs.py"), ("forward and inverse", "karta/crs.py")])

prop("C19", "Sampling uses the cells around the position and never reads outside the grid",
     "Nearest sampling returns the value of the cell containing the position and bilinear sampling the weighted "
     "mean of the four surrounding cells with weights that sum to one, for every band; positions outside the grid "
     "give the nodata value and no cell outside the array is read.",
     ["inputs"], "all grids, band counts, data types and positions including the edges",
     "Edges, single rows, several bands and integer types are rarely combined in tests.",
     [R, "karta/raster/crfuncs.pyx"], [("nearest and bilinear sampling", R), ("compiled bilinear kernels", "karta/raster/crfuncs.pyx")])

prop("C20", "Every name, attribute and call in the package resolves",
     "No path through the package refers to a name, module member, method or attribute that does not exist, or calls a "
     "function of the package with arguments it cannot accept, and every exported name exists.",
     ["inputs", "programs"], "all code paths, including error handling and rarely used options",
     "Python binds names at run time; paths that tests do not reach are never checked.",
     ["karta/__init__.py", "karta/vector/__init__.py", "karta/raster/__init__.py", G, R],
     [("exports", "karta/vector/__init__.py"), ("calls", G)])

prop("C21", "Every documented option has its effect",
     "No public operation ignores one of its parameters: each parameter can influence the result, the effects "
     "or the errors of the operation, and options are handed on unchanged to the operation that implements them.",
     ["inputs", "configurations"], "all public functions and methods and all their parameters",
     "Tests leave most options at their defaults.",
     [G, R, "karta/raster/read.py", "karta/vector/read.py", "karta/vector/_shp.py", "karta/vector/_geojson.py"],
     [("options of public operations", R)])

prop("C22", "Geographical coordinates get geodetic formulas and planar ones planar formulas",
     "Distances, lengths, azimuths, areas, bounding boxes, hulls, intersections and containment use a geodetic or "
     "spherical computation exactly when the geometry's coordinate system is geographical (or a geodetic result is "
     "asked for), and a planar computation otherwise.",
     ["inputs"], "all geometries in all kinds of coordinate systems",
     "A wrong dispatch gives plausible numbers near the origin where test geometries lie.",
     [G], [("dispatch on the kind of coordinate system", G)])

prop("C23", "Point-in-polygon counts each boundary crossing once",
     "The planar containment test counts an edge as crossed by half-open vertical intervals, so that a ray through a "
     "vertex crosses exactly one of two monotone edges and a horizontal edge none, uses every edge of the "
     "closed ring once, and tells the two directions of crossing apart with the side of the point.",
     ["inputs"], "all rings and points, including points level with vertices",
     "The degenerate positions form a measure-zero set that sampled tests miss.",
     ["karta/vector/contains.pyx"], [("crossing rule", "karta/vector/contains.pyx")])

prop("C24", "Nodata cells never enter results as values",
     "Statistics, extents of valid data, merging, resampling, normalisation and derived surfaces treat cells that "
     "hold the nodata value, including NaN, as missing: they are excluded from sums and extremes, never overwrite "
     "valid cells, and come out as nodata.",
     ["inputs"], "all grids with any nodata value (numbers or NaN) anywhere",
     "Test grids rarely contain nodata cells where an operation looks.",
     [R, "karta/raster/misc.py"], [("masks of valid cells", R)])

prop("C25", "Results derived from one geometry keep its properties and coordinate system",
     "An operation that returns part of a geometry or the same geometry in another position or shape (items, "
     "slices, segments, shifts, rotations, transforms, conversions between line and polygon, subsets) gives the "
     "result the coordinate system and the properties of its source, and parts of multipart geometries also their row "
     "of data.",
     ["inputs"], "all geometries and all deriving operations",
     "Tests inspect coordinates of results, seldom properties.",
     [G], [("construction of results", G)])

prop("C26", "Attribute tables of shapefiles keep every value in its row and column",
     "Writing geometries to a shapefile makes one column for each property that all of them have, under a name of its "
     "own and apart from the reserved id column, with a type that can hold the values of every geometry, and stores "
     "each geometry's value of that property in that column and row; properties without a suitable type are skipped "
     "with a warning. Reading gives every geometry the values of its own row under the columns' names, with missing "
     "values as None. The file is complete when the function returns.",
     ["inputs"], "all property names, types and numbers of geometries",
     "Tests write a few properties of one type each; names that clash and values that only appear in later rows are not "
     "sampled.",
     ["karta/vector/_shp.py"], [("attribute tables", "karta/vector/_shp.py")])

prop("C27", "The boundary of a polygon is its closed ring",
     "Every operation over the boundary of a polygon (segments, perimeter, area, centroid, winding, conversion to "
     "closed lines and rings, nearest positions, distances, intersection, containment and dateline tests, bounding "
     "boxes) uses the n edges of its ring, the edge from the last vertex to the first included, each exactly once, "
     "for every number of vertices; over a line it uses the n-1 segments. Planar area, centroid and winding are "
     "those of the polygon through these edges, less its holes. Intersection tests examine every pair of edges, "
     "convex hulls each vertex of line or ring once.",
     ["inputs"], "all rings of any number and position of vertices",
     "The closing edge matters only for positions and lines near it; test polygons are met elsewhere.",
     [G, "karta/vector/intersection.pyx", "karta/vector/vectorgeo.pyx", "karta/vector/contains.pyx", "karta/vector/dateline.pyx"],
     [("ring boundaries", G), ("edge loops of the kernels", "karta/vector/intersection.pyx")])

prop("C28", "Derived surfaces are derivatives of the grid in coordinate units",
     "Gradient, slope, aspect, divergence, normed vectors and hillshade are computed from derivatives of the cell values "
     "with respect to the coordinates: for a surface that is quadratic in x and y the interior cells get exactly its "
     "partial derivatives (in the signs of the axes, whatever the signs of the cell sizes), the angle, length, sum "
     "or illumination defined from them, and results keep the grid's shape and transform.",
     ["inputs"], "all surfaces and cell sizes of either sign",
     "Tests use unit cells and one orientation, where differences per cell and per coordinate agree.",
     ["karta/raster/misc.py"], [("finite differences", "karta/raster/misc.py")])

prop("C29", "Affine transforms, shifts and rotations move every vertex by the matrix",
     "apply_transform places every vertex of every geometry class where the matrix puts it, for matrices of either shape "
     "and vertices of rank two or three: a two-dimensional matrix leaves z as it is, a vertex of rank two lies at z = 0 and "
     "stays of rank two; holes of polygons and parts of multiparts undergo the same transform; shift adds its vector to x and "
     "y and keeps z; rotate turns by the given degrees, counter-clockwise, about its origin.",
     ["inputs"], "all matrices, vectors, angles, origins and vertices of rank two and three",
     "Tests apply a few matrices to geometries of rank two without holes.",
     ["karta/vector/geometry.py"], [("apply_transform", "karta/vector/geometry.py")])

prop("C30", "Web-map tiles address the cells of the spherical Mercator square",
     "The north-west corner and the bounding box of the tile at zoom z, column x and row y are those of the tiling that "
     "divides the spherical Mercator square in 2^z by 2^z cells, the tile given for a point is the one whose cell holds the "
     "point's longitude and latitude whatever the point's own coordinate system, and tiles are equal exactly "
     "if zoom, column and row are.",
     ["inputs"], "all zooms, columns, rows and points, in any coordinate system",
     "Tests look up a few points in one coordinate system.",
     ["karta/tile.py"], [("tile addresses", "karta/tile.py")])

prop("C31", "Points laid out along a line are equally spaced",
     "The points that are laid out along a line at a given spacing, or in a given number, start at the first vertex and are the "
     "requested step apart as measured along the line in the plane: what is left of a step at the end of a segment is walked "
     "on the next, however short the segments are, each walk starts at the present position and goes along its segment, and "
     "the points are in the line's coordinate system.",
     ["inputs"], "all lines of rank two and three in any coordinate system, all spacings and numbers of points",
     "Tests walk lines with segments longer than the step.",
     ["karta/vector/geometry.py"], [("walking loops", "karta/vector/geometry.py")])

prop("C32", "Geodesic formulas are those of the sphere and the ellipsoid",
     "Distances, azimuths, positions and areas computed by the geodesy module are the ones that its formulas define for the given "
     "figure: the series for distance, longitude and area have the coefficients that follow from the geodesic integrals, the "
     "direct problem, the auxiliary triangles, the area under a geodesic segment and distance and azimuth in the plane and on the "
     "sphere are the known closed forms of their arguments, the inverse problem iterates Newton's method on the difference in "
     "longitude and undoes the transformation to its canonical configuration, and the area under a segment changes sign with "
     "its direction along the shorter way round and with its side of the equator, wherever the segment lies.",
     ["inputs"], "all figures of revolution, positions, azimuths, distances and segments, as formulas over the reals",
     "Tests compare some lines at fixed places with known values, to a tolerance that hides wrong small terms.",
     ["karta/geodesy.py"], [("geodesic series", "karta/geodesy.py")])

prop("C33", "Selections return exactly the members that satisfy the test",
     "The selections of a collection by box, radius or polygon hold exactly the members that satisfy the test, each once, in "
     "order, whether or not the collection has a spatial index; a multipart geometry selected by what it "
     "touches or contains keeps exactly those parts; boxes overlap if and only if they share a point, also across the date "
     "line, ranges of longitudes merge to the shortest range that holds them, and a segment crosses the date line if its ends "
     "are more than half way round apart.",
     ["inputs"], "all collections, boxes, radii and polygons; members' tests as arbitrary tables",
     "Tests select from collections whose members are plainly inside or outside.",
     ["karta/vector/geometry.py"], [("selections", "karta/vector/geometry.py")])

# ---- properties outside the reach of this technique
prop("N01", "Geodesic computations converge and are accurate to rounding",
     "The iterations for ellipsoidal distances and azimuths end at the solution for every pair of points, and distances, azimuths and "
     "polygon areas agree with the true values to within the stated tolerance in floating point.",
     ["inputs"], "all positions on all ellipsoids", "Accuracy varies over the globe; tests sample some lines.",
     ["karta/geodesy.py", "karta/vector/vectorgeo.pyx"], [("geodesic series", "karta/geodesy.py")])
prop("N02", "Convex hulls contain all vertices and are convex",
     "The convex hull of every vertex set is convex and contains every vertex.",
     ["inputs"], "all vertex sets", "Degenerate sets are rare in tests.",
     ["karta/vector/convexhull.pyx"], [("hull scan", "karta/vector/convexhull.pyx")])
prop("N03", "Line intersections are found exactly when segments cross",
     "Two lines are reported as intersecting exactly if some pair of their segments has a common point, including "
     "touching and collinear segments.",
     ["inputs"], "all pairs of lines", "Degenerate configurations have measure zero.",
     ["karta/vector/intersection.pyx"], [("segment predicates", "karta/vector/intersection.pyx")])
prop("N04", "Coordinate values survive text formats to full precision",
     "Coordinates and cell values written to GeoJSON, GPX or ASCII grids are read back to the same numbers.",
     ["inputs"], "all finite coordinates", "Rounding depends on the values.",
     ["karta/vector/_geojson.py", "karta/vector/_gpx.py"], [("number formatting", "karta/vector/_geojson.py")])

with open("properties.jsonl", "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
