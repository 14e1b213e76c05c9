RULES = [("edge at a pole", "V09"), ("sphere_distance", "G01"), ("tile_from_point", "G03"), ("datums of geographical", "R09"), ("given by +R", "G02"), ("slices that select", "R02"), ("coordinates of slices", "R03"),
    ("quadtree", "V03"), ("rtree", "V04"), ("touching and within missed", "V04"), ("within_radius", "V03"),
    ("transformed polygons keep", "V10"), ("membership in", "V05"), ("points on the upper and right", "V05"), ("points in clockwise polar", "V05"), ("taken to be polar", "V05"),
    ("convex hulls", "V07"), ("nearest point", "V08"), ("within_distance", "V08"),
    ("adding polygons", "V16"), ("to_points", "V15"), ("to_npoints", "V15"),
    ("geo interface", "V12"), ("geojson", "V12"), ("from_shape", "V12"), ("vertices_ring", "V12"),
    ("hapefile", "V13"), ("bounding boxes of multipart", "V11"), ("GPX", "V14"), ("importing everything", "V12"),
    ("bounding latitudes", "V11"), ("bbox in another crs", "V11"), ("bounding boxes of lines", "V11"), ("small overlap", "V06"),
    ("area between a geodesic", "G01"), ("area of", "V09"), ("centroid", "V09"),
    ("intersect", "V06"), ("azimuth between points", "V09"), ("equatorial distances", "G01"), ("geodetic problem", "G01"),
    ("crs_from_wkt", "G02"), ("ellipsoids were misread", "G02"), ("not hashable", "G02"),
    ("different holes compared", "V10"), ("equality and hash", "V10"), ("reprojection of three", "V10"), ("shared the data table", "V10"), ("unusable after extend", "V10"),
    ("Polygon.to_line", "V02"), ("negative step", "V02"), ("were not closed", "V02"),
    ("multipoint", "V02"), ("Multipoint", "V02"), ("ultipolygon", "V02"), ("multiline", "V02"), ("multipart", "V02"), ("empty search results", "V02"), ("points could not be replaced", "V02"),
] + RULES
RULES = [("indices outside the grid wrapped", "E01"), ("fewer weights than grids", "E01"), ("points in several coordinate systems mixed", "V16"), ("columns with unequal lengths", "E01"), ("tables of another length", "E01")] + RULES
RULES = [("another size than their header", "E01"), ("mask of one dimension", "E01")] + RULES
RULES = [("resampling skewed grids", "R05")] + RULES
RULES = [("read from disk", "R09"), ("grids on disk", "R09"), ("stacked GeoTIFFs", "R09"), ("bands of different data types", "R02"), ("grids of different data types", "R05"), ("bands of several data types", "R04")] + RULES
RULES = [("copies of grids were", "R02"), ("sampling at positions in the grid", "R04"), ("clipping in the grid", "R05")] + RULES
