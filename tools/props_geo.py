GD = "karta/geodesy.py"
CR = "karta/crs.py"
P("G01", "Geodesic forward, inverse and area formulas are accurate everywhere",
  "The direct and inverse geodesic problems and the areas under geodesics, on any sphere or ellipsoid, agree with an independent implementation for every pair of positions, including poles, equator, meridians, dateline, tiny distances and nearly antipodal points, and forward and inverse are each other's inverse.",
  ["inputs"], "every pair of positions, azimuth, distance and ellipsoid",
  "the tests check a few routes of medium length",
  [GD], [("plane", GD + ":plane_distance, plane_azimuth"), ("sphere", GD + ":spherical_*"), ("ellipsoid", GD + ":ellipsoidal_forward, ellipsoidal_inverse, ellipsoidal_area")],
  ["return values"], "pyproj.Geod, and round trips")
P("G02", "Coordinate transforms and CRS parsing agree with PROJ and invert exactly",
  "Projecting, inverse projecting and transforming between coordinate systems agrees with PROJ and round trips, for scalars and vectors; systems made from PROJ strings or WKT (of any EPSG code) have the ellipsoid they name, compare equal when they are the same, and export definitions that lead back to the same system.",
  ["inputs", "configurations"], "every supported projection, ellipsoid, datum spelling and position in its domain",
  "the tests convert a few points with two or three systems",
  [CR], [("transforms", CR + ":CRS.project, CRS.transform"), ("parsing", CR + ":parse_ellipsoid, crs_from_wkt, ProjectedCRS, GeographicalCRS"), ("export", CR + ":get_proj4, get_wkt")],
  ["return values"], "pyproj and GDAL/OSR")
P("G03", "Map tiles cover the globe, contain their positions, and nest",
  "The tile returned for a position at a zoom level contains that position in its bounding box, neighbouring tiles share their edges exactly, and each tile is made of four tiles of the next zoom level.",
  ["inputs"], "every position between the latitude limits of web mercator, and every zoom level",
  "the tests check one tile",
  ["karta/tile.py"], [("tiles", "karta/tile.py:Tile, tile_from_point")],
  ["return values"], "the slippy map formulas")
P("E01", "Impossible requests are refused and leave their objects unchanged",
  "A request that an object cannot fulfil - an index outside a grid, geometry or table, values, masks, weights, bands, columns or tables of another length or shape, grids that do not align, coordinate ranks or types that do not fit, an unknown option, a conversion between a Cartesian and a geographic system, a file that is missing, malformed or cannot represent the grid - raises an exception (IndexError for indices, KeyError for missing fields) rather than return a wrong result, and the object, and any file read, is afterwards as it was.",
  ["inputs", "faults"], "every object and every request outside what it holds",
  "the tests provoke a handful of exceptions with one object each",
  ["karta/raster/grid.py", "karta/raster/band.py", "karta/vector/geometry.py", "karta/vector/table.py", "karta/raster/_aai.py"],
  [("grid indices", "karta/raster/band.py:BandIndexer"), ("unlike grids", "karta/raster/grid.py:merge, RegularGrid.__add__, RegularGrid.__init__"), ("tables", "karta/vector/table.py:Table.setfield, Table.updated"), ("geometries", "karta/vector/geometry.py:Multipart.__init__, Line.extend")],
  ["exceptions", "state after a refused call"], "the call must raise, and a snapshot taken before must equal one taken after")
