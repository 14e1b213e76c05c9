P("R01", "Compressed and plain band storage behave as a mutable 2-D array",
  "Whatever sequence of block writes is made to a band, with any size, chunk size, data type and initial value, every block read returns exactly the values last written to those cells, and the initial value elsewhere. Compressed and uncompressed storage return the same values.",
  ["inputs", "histories", "configurations"], "every band size, chunk size, dtype, initial value and every history of overlapping block writes and reads, aligned to chunks or not",
  "the tests write a few fixed blocks with one or two chunk sizes; the bookkeeping of partial edge chunks and overlapping writes depends on the whole history",
  [B], [("CompressedBand chunk lookup, read-modify-write", B + ":_getchunks, setblock, getblock"), ("SimpleBand", B + ":SimpleBand")],
  ["getblock after every step"], "a numpy array model of the band")
P("R02", "Reading and writing a grid by index behaves like a numpy array",
  "Indexing a grid with integers, slices of any sign and step, band indices or boolean masks reads exactly the cells that the same key selects from an array of the grid's values, and assignment through such a key changes exactly those cells. Copies are independent, and iteration visits rows in order.",
  ["inputs", "histories", "configurations"], "every key form, every grid size, band count, dtype and storage, and every sequence of reads, assignments, copies and function applications",
  "the tests sample a few keys on one grid; negative steps, one-row windows, chunk boundaries, masks and multiband vectors combine",
  [B, G], [("key normalization and block access", B + ":BandIndexer.__getitem__, __setitem__"), ("masks", B + ":_get_from_array_mask, _set_from_array_mask"), ("copy, apply", G + ":Grid.copy, Grid.apply")],
  ["grid[...] after every step"], "a numpy array model driven by the same history")
P("R03", "Index-to-coordinate mappings of a grid agree with its affine transform",
  "For every grid, including skewed ones and ones with negative resolution, the cell centre and corner coordinates, the mapping from coordinates to fractional positions and integer indices, the extent and bounding box, and the extent of the valid data all agree with the grid's transform and with each other. Coordinates outside the grid are reported as such, never mapped to a cell.",
  ["inputs", "configurations"], "every transform (skew, sign of resolution, origin), grid size, index, coordinate and coordinate system",
  "the tests use unskewed square cells with the origin at zero; sign and skew errors cancel there",
  [G, "karta/raster/coordgen.py", "karta/raster/crfuncs.pyx"], [("positions, indices", G + ":positions, indices; crfuncs.pyx:get_positions_vec"), ("coordinates", G + ":center_coords, vertex_coords; coordgen.py:CoordinateGenerator"), ("extents", G + ":extent, data_extent, bbox, data_bbox")],
  ["return values"], "the affine map written out, its inverse, and brute force over cells")
P("R04", "Sampling a grid returns nearest-cell or bilinear values of the right band",
  "Nearest sampling returns, for every band and every query form (scalar, vector, array, point, multipoint), the value of the cell that contains the position, and bilinear sampling the bilinear blend of the four surrounding cell centres. Positions outside give the nodata value, and a profile samples the grid along the line at the requested spacing.",
  ["inputs", "configurations"], "every grid geometry, data type, band count and storage, and every position: interior, on cell centres, along edges and outside",
  "the tests sample a handful of interior points of single-band float grids",
  [G, "karta/raster/crfuncs.pyx"], [("nearest", G + ":sample_nearest"), ("bilinear", G + ":sample_bilinear; crfuncs.pyx:sample_bilinear_*"), ("dispatch", G + ":sample, profile")],
  ["return values"], "direct evaluation of the definition on the cell values")
P("R05", "Clipping, resizing, resampling, chunking and merging keep cells in place",
  "Every cell of a clipped, resized, resampled, chunked or merged grid carries the value that the source grid (or the weighted mean of the valid source grids) has at that cell's location, and nodata where there is none. Chunks cover the grid exactly, and nothing is shifted, dropped or duplicated.",
  ["inputs", "configurations"], "every grid geometry, clip box, target box, resolution, chunk size and overlap, and every set of overlapping grids, weights and nodata cells",
  "the tests check sizes or a few sums on grids with origin at zero and positive resolution",
  [G], [("windows", G + ":clip, resize, aschunks"), ("resampling", G + ":resample, _resample_transform, _align_origin"), ("mosaics", G + ":merge")],
  ["values, transform and size of the result"], "cell-by-cell evaluation through the coordinates of source and result")
P("R06", "Masking by polygons keeps inside cells, in all bands, and blanks the rest",
  "Masking a grid by one or several polygons leaves every cell well inside them unchanged in every band and sets every cell well outside, or inside a hole, to the nodata value. Masking out of place leaves the original untouched, masking in place returns the same grid.",
  ["inputs", "configurations"], "every polygon shape, orientation, hole, position relative to the grid, grouping (single, list, multipart), coordinate system, and every grid with positive dy",
  "the tests compare sums for one star shape on square cells",
  [G], [("scan conversion", G + ":mask_poly"), ("grouping, holes, bands", G + ":mask_by_poly")],
  ["values of the result and of the original"], "even-odd point-in-polygon of every cell centre (cells within two cells of an edge not judged)")
P("R07", "Statistics, arithmetic and gridding treat nodata cells as absent",
  "Minima, maxima, masks, sums, differences, function application, changes of the nodata value and the gridding of scattered points are computed from valid cells only, and nodata cells stay nodata. Valid cells get exactly the value that the operation defines.",
  ["inputs", "configurations"], "every data type, nodata value (NaN or not), pattern of nodata cells over bands, and every point cloud",
  "the tests have few nodata cells, mostly NaN, in single bands",
  [G], [("statistics", G + ":Grid.min, max, minmax"), ("nodata", G + ":set_nodata_value, data_mask, data_mask_full, get_nodata"), ("arithmetic, apply", G + ":__add__, __sub__, Grid.apply"), ("gridding", G + ":gridpoints")],
  ["return values and cells"], "masked numpy evaluation")
P("R08", "Slope, aspect, gradient, divergence and hillshade match their definitions",
  "On planes of any inclination the terrain derivatives equal the analytic slope, aspect and gradient, and on any surface every interior cell equals the documented finite-difference stencil, with nodata wherever the stencil meets nodata.",
  ["inputs", "configurations"], "every surface, resolution, nodata pattern and band",
  "the tests check two surfaces on unit square cells",
  ["karta/raster/misc.py"], [("stencils", "karta/raster/misc.py:slope, aspect, gradient, divergence, hillshade")],
  ["values of the returned grids"], "analytic planes and an independent stencil evaluation")
P("R09", "GeoTIFF writing and reading preserve values, position and metadata",
  "A grid written to GeoTIFF and read back, in memory or from disk, whole or by window or band, has the same values, data type, transform (skew included), nodata value and coordinate system; the file is complete when the call returns. Several files are combined into bands only if their geometry and nodata agree. A grid left on disk answers every operation as it does in memory.",
  ["inputs", "configurations", "histories"], "every grid geometry, data type, band count, nodata value, coordinate system, compression, tiling, band selection and window",
  "the tests write one unskewed grid in one projection (and two of them fail at the pinned commit)",
  ["karta/raster/_gdal.py", "karta/raster/read.py"], [("writer", "karta/raster/_gdal.py:write, gdal_type, srs_from_crs"), ("reader", "karta/raster/_gdal.py:read, GdalFileBand; read.py:read_geotiff, from_geotiffs")],
  ["the file through GDAL directly, and the grid read back"], "a round trip and an independent reading of the file by GDAL")
P("R10", "ESRI ASCII grids written and read keep values, orientation and nodata",
  "A single-band isometric grid written as an ESRI ASCII file and read back has the same values at the same coordinates and the same nodata cells, and the file lists rows from north to south. Grids that the format cannot represent are refused.",
  ["inputs", "configurations"], "every isometric grid, data type, nodata pattern, header reference and marker, and every conforming header order and spelling",
  "the tests only compare header text and the number of lines, and never read a written file back",
  ["karta/raster/_aai.py", G], [("writer", G + ":to_aai"), ("reader", "karta/raster/_aai.py:aairead, check_header; read.py:read_aai")],
  ["the text of the file and the grid read back"], "a round trip and an independent parse of the file")
