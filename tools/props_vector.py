GM = "karta/vector/geometry.py"
TB = "karta/vector/table.py"
P("V01", "Attribute tables keep rows and fields aligned under every operation",
  "However a table is built (from a mapping, rows, a size or another table) and whatever sequence of field and row operations, additions, extensions and merges follows, every row keeps exactly its values under the right field names. Operations that make a new table leave the old one untouched, and inconsistent input is refused.",
  ["inputs", "histories"], "every set of fields and values, every way to build a table and every history of operations",
  "the tests build a few tables with one constructor each; mixed-up fields and shared rows show only in combinations",
  [TB], [("construction", TB + ":Table.__init__"), ("operations", TB + ":getfield, setfield, extend, merge, __add__")],
  ["fields, rows and lookups after every step"], "a list of dictionaries driven by the same history")
P("V02", "Parts of multipart geometries keep their vertices, attributes and holes",
  "Multipoints, multilines and multipolygons keep every part's vertices, holes, attribute values and geometry properties together through any sequence of indexing, slicing, iteration, assignment, shifting, filtering, merging and rebuilding from parts. Results are independent of their source.",
  ["inputs", "histories"], "every collection of parts, attribute columns, properties and rank, and every history of operations",
  "the tests index small multipoints with one column; exchanged columns and shared tables show only after several operations",
  [GM, TB], [("construction from parts", GM + ":Multipart.__init__, Multipoint.__init__, Multipolygon.__init__"), ("subsets", GM + ":_subset, __getitem__, __setitem__"), ("merge", GM + ":merge, merge_properties")],
  ["vertices, data columns and properties after every step"], "a list of (vertices, attributes) driven by the same history")
P("V03", "Spatial queries on point sets return exactly the matching points",
  "Querying a quadtree or a Multipoint by bounding box, radius or polygon returns every point that satisfies the query and no other, with its attributes and as often as it occurs, whether or not an index is used, and for any leaf capacity.",
  ["inputs", "configurations"], "every point cloud (duplicates, clusters, differing in the last digit), leaf capacity, box, radius and polygon, coordinates planar, geographic or in another system",
  "the tests query one random cloud, so leaf splits with duplicates, boundary hits and pruning errors are left to chance",
  [GM, "karta/vector/quadtree.h", "karta/vector/quadtree.pyx"], [("tree", "karta/vector/quadtree.h:qt_insert, qt_retrieve"), ("bindings", "karta/vector/quadtree.pyx:QuadTree"), ("queries", GM + ":within_radius, within_bbox, within_polygon")],
  ["the returned points and attributes"], "an exhaustive scan over the points")
P("V04", "Spatial queries on lines and polygons return exactly the matching members",
  "Searching an R-tree, a Multiline or a Multipolygon for the members within or touching a box or geometry returns every member that satisfies the query and no other, for any number of members, node capacity, and order of insertion.",
  ["inputs", "configurations"], "every collection of lines and polygons, node capacity and query box or geometry",
  "the tests search a few boxes in one tree; losses on node splits depend on the insertion history",
  [GM, "karta/vector/rtree.h", "karta/vector/rtree.pyx"], [("tree", "karta/vector/rtree.h:rt_insert, rt_adjust_tree, rt_split"), ("bindings", "karta/vector/rtree.pyx:RTree"), ("queries", GM + ":within_bbox, touching_bbox, within, touching")],
  ["the returned members"], "an exhaustive scan with exact arithmetic")
P("V05", "Point in polygon is right for any shape, with holes, dateline or pole inside",
  "A polygon contains a point exactly if it is inside or on the boundary and not in a hole, whatever its orientation, starting vertex and shape, in planar coordinates, for polygons across the dateline whatever the range of longitudes, and for polygons around a pole.",
  ["inputs"], "every polygon and point: vertices and edges, horizontal and vertical edges, dateline and pole",
  "the tests check a few interior and exterior points of convex shapes",
  [GM, "karta/vector/contains.pyx"], [("crossing rules", "karta/vector/contains.pyx:contains, contains_proj"), ("dateline, holes", GM + ":Polygon.contains, ispolar")],
  ["Polygon.contains"], "exact winding number; unwrapped longitudes; azimuthal projection of polar polygons")
P("V06", "Line and polygon intersections are complete, symmetric and on both geometries",
  "Two connected geometries are reported to intersect exactly if they share a point, in either order, and the intersection points returned are exactly the crossings. This holds on the plane, for a geometry in another coordinate system, and along great circles across dateline and poles.",
  ["inputs"], "every pair of lines or polygons: crossing, touching at vertices, overlapping, disjoint, shared vertices, and any coordinate system",
  "the tests check a few proper crossings and random lines without an oracle",
  [GM, "karta/vector/intersection.pyx"], [("sweep and crossing", "karta/vector/intersection.pyx:intersects, all_intersections"), ("sphere", "karta/vector/intersection.pyx:intersects_sph, all_intersections_sph"), ("dispatch", GM + ":intersects, intersections")],
  ["return values"], "exact rational segment tests, and great circle arcs as vectors")
P("V07", "Convex hulls are convex, made of input vertices, and enclose all of them",
  "The convex hull of any set of vertices is a polygon whose corners are vertices of the geometry, without repetitions and in order, and which encloses every vertex. This holds for duplicate and collinear vertices, and on the sphere for vertices across the dateline or around a pole.",
  ["inputs"], "every set of vertices: duplicates, collinear runs, large offsets, dateline and pole",
  "the tests check a few random clouds",
  [GM, "karta/vector/convexhull.pyx"], [("planar and spherical hull", "karta/vector/convexhull.pyx:convexhull, convexhull_sph"), ("dispatch", GM + ":convex_hull")],
  ["vertices of the hull"], "an exact monotone chain, and half-spaces through great circles")
P("V08", "Nearest positions and distances are the true minima, planar and geodetic",
  "The shortest distance from a point to a line or polygon boundary, the nearest position on it, the within-distance test, and the distances to its vertices are the true minima over all positions (closing segment included), in planar coordinates, between coordinate systems, and along geodesics.",
  ["inputs"], "every geometry and point: short and steep segments, ends, zero-length segments, dateline, pole, third dimension",
  "the tests check a few points next to axis-parallel segments",
  [GM, "karta/vector/vectorgeo.pyx"], [("planar", "karta/vector/vectorgeo.pyx:pt_nearest_planar"), ("geodetic", "karta/vector/vectorgeo.pyx:pt_nearest_proj"), ("minimum over segments", GM + ":_nearest_to_point, within_distance, distances_to, nearest_vertex_to, Point.distance")],
  ["return values"], "rational arithmetic, and an independent minimisation over geodesics (pyproj.Geod)")
P("V09", "Lengths, areas, centroids and azimuths agree with the ellipsoid or the plane",
  "Length, cumulative length, displacement, perimeter, area (with holes), centroid, winding direction, azimuth and walking of points and lines agree with plane geometry in projected and with geodesics in geographic systems. They do not depend on where a ring starts, on its direction, or on crossing dateline or pole.",
  ["inputs"], "every line and polygon, planar or on a sphere or ellipsoid, with holes and third dimension, anywhere on the globe",
  "the tests measure a few shapes near the equator",
  [GM, "karta/geodesy.py"], [("area", GM + ":Polygon.area; geodesy.py:ellipsoidal_area, spherical_area"), ("length", GM + ":length, cumulength, perimeter, displacement"), ("direction", GM + ":Point.azimuth, Point.walk, isclockwise, centroid")],
  ["return values"], "exact shoelace sums and pyproj.Geod")
P("V10", "Transforming, reprojecting and comparing geometries never alters the source",
  "Shifting, rotating, affine transforms and reprojection return new geometries of the same type with every vertex (and hole, attribute, third coordinate) mapped as defined, and leave the source, its cached results and its data unchanged. Equal geometries have equal hashes, and unequal ones are unequal.",
  ["inputs", "histories"], "every geometry type, rank, attribute and matrix, every pair of coordinate systems, and every history of transformations and queries",
  "the tests shift a few geometries once; stale caches and shared state need several steps",
  [GM, "karta/vector/decorators.py"], [("transforms", GM + ":apply_transform, shift, rotate"), ("reprojection", GM + ":vertices, coords, vertex, _reproject"), ("cache", "karta/vector/decorators.py:cache_decorator"), ("identity", GM + ":__eq__, __hash__")],
  ["coordinates, data and properties of result and source after every step"], "numpy affine maps, pyproj, and a snapshot of the source")
P("V11", "Bounding boxes enclose the whole geometry, across dateline and poles",
  "The bounding box and extent of a geometry enclose every position of it (great circle arcs in geographic coordinates included) and are no larger than needed, in its own coordinate system, or after its vertices are taken to another one, with xmin larger than xmax where it crosses the dateline, and reaching the pole where it surrounds one.",
  ["inputs"], "every line, polygon and multipart geometry, planar or geographic, with any number of dateline crossings",
  "the tests check one crossing in each direction",
  [GM, "karta/vector/dateline.pyx", "karta/vector/vectorgeo.pyx"], [("geographic boxes", "karta/vector/dateline.pyx:bbox; vectorgeo.pyx:bndlat_sph"), ("planar boxes", "karta/vector/vectorgeo.pyx:bbox"), ("dispatch", GM + ":bbox, extent")],
  ["return values"], "dense sampling of great circle arcs, and minima over vertices")
P("V12", "GeoJSON written and read keeps coordinates, properties and structure",
  "A geometry exported to GeoJSON and read back has the same coordinates, holes, properties and data columns, and reprojection to WGS84 moves every ring; through the geo interface its coordinates, holes and properties are passed on. Documents written by others (nested collections, null or non-numeric properties) are read feature by feature.",
  ["inputs", "configurations"], "every geometry type, rank, hole, property and data column, every coordinate system, and every nesting of collections",
  "the tests round trip a few fixed features",
  ["karta/vector/_geojson.py", "karta/vector/read.py", GM], [("writer", "karta/vector/_geojson.py:GeoJSONOutMixin.as_geojson"), ("reader", "karta/vector/read.py:read_geojson, from_shape, _from_shape")],
  ["the JSON document parsed independently, and the geometries read back"], "a round trip and an independent parse of the document")
P("V13", "Shapefiles written and read keep coordinates, attributes and projection",
  "Geometries written to a shapefile and read back have the same coordinates (third included), parts, holes, property values of every type the format has, and coordinate system, feature by feature, with the file complete when the call returns. Shapefiles written by other programs (measures, missing geometries and values, no projection) are read the same way.",
  ["inputs", "configurations"], "every geometry type, rank, number of features, attribute type and value, and every coordinate system that the format can express",
  "the tests write fixed features and compare a few of them",
  ["karta/vector/_shp.py", "karta/vector/read.py"], [("writer", "karta/vector/_shp.py:write_shapefile, ShapefileOutMixin"), ("reader", "karta/vector/read.py:read_shapefile; _shp.py:ogr_read_geometry, ogr_read_attribute_table")],
  ["the files through OGR directly, and the geometries read back"], "a round trip and an independent reading of the file by OGR")
P("V14", "GPX waypoints, tracks and routes are written and read completely",
  "Waypoints, tracks (with any segments) and routes added to a GPX document, written to a file and read back keep their order, coordinates, elevations, properties and extensions, and the file is well-formed GPX.",
  ["inputs", "histories"], "every set of waypoints, tracks, segments and routes with properties, elevations and extensions, with text that needs escaping",
  "the tests read one file and write one track",
  ["karta/vector/_gpx.py", "karta/vector/read.py"], [("reader and writer", "karta/vector/_gpx.py:GPX")],
  ["the XML parsed independently, and the objects read back"], "a model of the document and an independent XML parse")
P("V15", "Lines resampled at equal spacing give points on the line at that spacing",
  "Converting a line to points at a spacing, or to a number of points, returns points that lie on the line in order, at equal distance along it from its first vertex, with the requested count and ends, on the plane and along geodesics.",
  ["inputs"], "every line, spacing and number of points, in planar and geographic coordinates",
  "the tests check one or two lines and spacings that divide their length",
  [GM], [("to_points", GM + ":Line.to_points"), ("to_npoints", GM + ":Line.to_npoints")],
  ["the vertices of the result"], "the arc length parametrisation of the line, with pyproj.Geod on the globe")
P("V16", "Indexing, slicing, segments and joining all describe the same vertices",
  "Length, indices (from either end), slices, iteration, segments, rings, coordinate vectors, conversion between line and polygon, extension and addition of geometries all describe one ordered list of vertices (and holes and attributes) and leave their operands as they were; dateline crossings are recognised, and a fitted affine map recovers the map that relates two sets of points.",
  ["inputs", "histories"], "every geometry, index, slice, and sequence of joins, with two or three coordinates and in any coordinate system",
  "the tests index, slice and extend a few lines of fixed length",
  [GM], [("access", GM + ":MultiVertexBase.__getitem__, MultiVertexMixin.coords, segments"), ("joining", GM + ":Line.extend, __add__"), ("fit", GM + ":affine_matrix")],
  ["return values"], "a plain list of vertices, pyproj, and the normal equations of least squares")
