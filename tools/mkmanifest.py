#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; the outputs are committed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PH, GD, IM, FE = ("src/aws/osml/" + x for x in ("photogrammetry/", "gdal/", "image_processing/", "features/"))
P = []


def prop(i, title, statement, over, text, why, files, mech, note):
    assert len(title) <= 80, (i, len(title))
    P.append((dict(id=i, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}), note))


prop("C01", "Image-to-ground and ground-to-image are inverses for every sensor model",
     "For every supported sensor model (affine in any CRS, projective tie points, RPC, RSM in all three ground domain forms and "
     "sectioned, SICD and SIDD SAR, chipped and composite), projecting an image location to the ground and back returns the same image "
     "location to within one pixel, whatever search hints are supplied. This holds for every location in the image and for no elevation "
     "model, a constant one, a smoothly varying one and a DEM.",
     ["inputs", "configurations"], "all image locations x model kinds x elevation surfaces x search hints",
     "the tests round-trip a handful of points of one or two models, several of which need raster files",
     [PH + f for f in ("rpc_sensor_model.py", "replacement_sensor_model.py", "gdal_sensor_model.py", "projective_sensor_model.py",
                       "sicd_sensor_model.py", "chipped_image_sensor_model.py", "composite_sensor_model.py", "transforms.py")],
     [("iterative inversion", PH + "rpc_sensor_model.py RPCSensorModel.image_to_world"),
      ("iterative inversion", PH + "replacement_sensor_model.py RSMPolynomialSensorModel.image_to_world"),
      ("range/Doppler projection", PH + "sicd_sensor_model.py SICDSensorModel")],
     "one-pixel tolerance; ground oracle is the model's own forward projection, validated separately by C03 and C12")
prop("C02", "Ground points lie on the requested elevation surface",
     "The ground location returned for an image location has exactly the elevation that the supplied elevation model assigns to its "
     "longitude and latitude; where no elevation model is supplied, or it has no coverage there, the elevation is the default of the "
     "image's sensor model (RPC height offset, RSM reference point or average height of the ground domain, zero for affine and "
     "projective models). The returned coordinate is a fresh value: later changes to it, or to the inputs, do not affect other answers.",
     ["inputs", "configurations", "histories"], "all image locations x model kinds x elevation surfaces, with and without coverage",
     "tests only look at constant elevations for a few points",
     [PH + f for f in ("rpc_sensor_model.py", "replacement_sensor_model.py", "gdal_sensor_model.py", "projective_sensor_model.py",
                       "sicd_sensor_model.py", "elevation_model.py")],
     [("elevation applied to result", "image_to_world of each model"), ("default elevation", PH + "replacement_sensor_model.py RSMGroundDomain")],
     "surfaces are evaluated independently of the model under test")
prop("C03", "RPC and RSM projections evaluate exactly the polynomials in the metadata",
     "Projecting a ground point with RPC or RSM metadata gives precisely the image location defined by the standard: the ratio of the "
     "coefficient polynomials, in the standard's term order, of the normalised ground coordinate, de-normalised to pixels. This holds "
     "for every coefficient set, every polynomial order and each of the three RSM ground coordinate forms, whether the model was built "
     "from image metadata or through the API.",
     ["inputs", "configurations"], "all coefficients, orders, scales, offsets, ground points, ground domain forms",
     "tests compare one metadata file at one or two points",
     [PH + "rpc_sensor_model.py", PH + "replacement_sensor_model.py", GD + "rpc_sensor_model_builder.py", GD + "rsm_sensor_model_builder.py"],
     [("polynomial evaluation", PH + "rpc_sensor_model.py RPCPolynomial.evaluate"),
      ("polynomial evaluation", PH + "replacement_sensor_model.py RSMPolynomial.evaluate"),
      ("metadata parsing", GD + "rsm_sensor_model_builder.py")],
     "integer coefficients make the specified value exact; the code is compared to one quantum")
prop("C04", "Sectioned RSM images use the section model responsible for each location",
     "For an image whose RSM metadata is divided into sections, every location is projected by exactly one section: the one containing "
     "the image location, or, from the ground, the one containing the coarse location given by the low-order polynomials. Locations "
     "outside the image are served by the nearest section, and sections are identified by their row and column numbers, not by "
     "the order in which they appear in the metadata.",
     ["inputs", "configurations"], "all section grids, section sizes, image origins, and locations including boundaries and outside",
     "tests cover one 2x2 grid at a few interior points",
     [PH + "replacement_sensor_model.py", GD + "rsm_sensor_model_builder.py"],
     [("section selection", PH + "replacement_sensor_model.py RSMSectionedPolynomialSensorModel.get_section_index"),
      ("section table", GD + "rsm_sensor_model_builder.py build")],
     "TLC enumerates section grids; each behaviour is replayed against the code")
prop("C05", "A chipped model answers exactly as the full model through the chip mapping",
     "For an image cut from, scaled, flipped or rotated relative to a larger image, every projection equals that of the full image's "
     "model at the corresponding full-image location, in both directions; chips of chips compose. The elevation model and options "
     "supplied by the caller reach the full model unchanged, and chipping metadata read from an image gives the mapping it states.",
     ["inputs", "configurations"], "all chip windows, scales, flips, rotations, nesting depths and locations",
     "tests check one chip at its corners",
     [PH + "chipped_image_sensor_model.py", PH + "transforms.py", GD + "sensor_model_factory.py"],
     [("projective chip mapping", PH + "transforms.py ProjectiveTransform"), ("ICHIPB", GD + "sensor_model_factory.py ChippedImageInfoFacade")],
     "chip mappings are integer affine maps specified exactly in TLA+")
prop("C06", "A composite model gives the precise model's answer",
     "When an approximate and a precise model are combined, ground-to-image answers are exactly the precise model's and image-to-ground "
     "answers agree with the precise model's to within one pixel, the approximate model only supplying the starting point of its search. "
     "The caller's elevation model and options other than those starting hints are passed through, and the caller's options are never modified.",
     ["inputs", "configurations", "histories"], "all locations, pairs of models, options, call sequences",
     "tests check one pair at one point",
     [PH + "composite_sensor_model.py"], [("hints", PH + "composite_sensor_model.py image_to_world")],
     "stub models record what they are asked")
prop("C07", "Every image gets the best sensor model its metadata supports",
     "Given any combination of geolocation metadata, the selected model uses the most precise valid source (SICD or SIDD, else RSM, else "
     "RPC), with tie points or an affine transform as the fallback or as the starting estimate, restricted to the model types the caller "
     "allows; chipping metadata is honoured. Metadata that is absent, malformed or incomplete for one source never prevents the others "
     "from being used and never raises; no model is returned only when no allowed source is usable.",
     ["inputs", "configurations", "fault_sequences"], "all combinations of metadata sources present, damaged or absent x allowed model types",
     "tests use a handful of well-formed files",
     [GD + f for f in ("sensor_model_factory.py", "rpc_sensor_model_builder.py", "rsm_sensor_model_builder.py", "sicd_sensor_model_builder.py",
                       "sidd_sensor_model_builder.py", "projective_sensor_model_builder.py", "gdal_sensor_model_builder.py")],
     [("selection", GD + "sensor_model_factory.py SensorModelFactory.build")],
     "TLC enumerates metadata combinations; damage kinds are enumerated per source")
prop("C08", "The elevation tile named for a location is the tile that contains it",
     "For every longitude and latitude, the SRTM and the configurable DEM tile sets name the one-degree cell whose south-west corner is "
     "the floor of the coordinates, with correct hemisphere letters and zero padding in all four quadrants. Locations outside a tile "
     "set's configured coverage name no tile.",
     ["inputs"], "all locations on the globe, name formats and coverage limits",
     "tests sample a few locations away from cell edges",
     [PH + "srtm_dem_tile_set.py", PH + "generic_dem_tile_set.py", PH + "coordinates.py"],
     [("tile name formatting", PH + "srtm_dem_tile_set.py find_tile_id"), ("tile name formatting", PH + "generic_dem_tile_set.py find_tile_id")],
     "locations within 1e-9 degree of a cell edge may go to either neighbour")
prop("C09", "A DEM elevation depends only on the location, never on history or cache",
     "The elevation assigned to a location is the bilinear interpolation of the four surrounding posts of the covering tile, whatever "
     "locations were asked before, however small the tile cache is, and whether tiles were evicted and reloaded. Where the tile is "
     "missing, unreadable, or the posts are void, the coordinate keeps the elevation it had and no error is raised; longitude and "
     "latitude are never changed. The region summary of a tile bounds its valid posts.",
     ["histories", "inputs", "fault_sequences"], "all query sequences, cache sizes, sets of missing and damaged tiles, tile contents",
     "tests query single points of one tile with a fresh cache",
     [PH + "digital_elevation_model.py", GD + "gdal_dem_tile_factory.py"],
     [("cache and interpolation", PH + "digital_elevation_model.py DigitalElevationModel"), ("tile loading", GD + "gdal_dem_tile_factory.py")],
     "posts are small integers so interpolation is exact; one known finding (F01)")
prop("C10", "Formatted coordinates denote the coordinate to the precision displayed",
     "For every longitude, latitude and elevation, the text produced for any format describes that coordinate to within half a unit of the "
     "last displayed digit (truncation for whole-degree fields), with minutes and seconds always below 60, degrees in range, padding as "
     "documented and the right hemisphere letter. Literal text and escapes in the format are copied unchanged.",
     ["inputs"], "all coordinates and all format strings over the documented directives",
     "tests format a few coordinates",
     [PH + "coordinates.py"], [("custom format", PH + "coordinates.py GeodeticWorldCoordinate.__format__")],
     "decimal-degree fields carry no sign, as pinned by the repository's own tests")
prop("C11", "Geodetic and geocentric coordinates convert losslessly both ways",
     "Converting any geodetic coordinate to the earth-centred system gives the WGS-84 position to within a millimetre, and converting back "
     "recovers longitude, latitude and elevation (to a millimetre up to 30 km, to a metre in orbit), at every latitude including the poles "
     "and the antimeridian, for heights from below sea level to orbit. Conversions never modify their input; coordinate values expose the same components under all their names and "
     "reject the wrong number of components.",
     ["inputs"], "all longitudes, latitudes, elevations; all coordinate kinds and accessors",
     "tests convert a few points",
     [PH + "coordinates.py"], [("pyproj transforms", PH + "coordinates.py geodetic_to_geocentric / geocentric_to_geodetic")],
     "oracle: closed-form WGS-84 equations evaluated independently, exact special points in TLA+")
prop("C12", "SAR projection satisfies the range/Doppler geometry and the requested surface",
     "A ground point returned for a SAR image location has the range and range-rate the SICD or SIDD metadata assigns to that location "
     "(for every grid and image formation type, chip offset and aperture time polynomial), is on the side of track the metadata states, "
     "and lies on the requested surface: the given constant height, the DEM, or without elevation data the ground plane through the scene "
     "centre. The scene centre point in the metadata maps to the scene centre pixel and back. Where the location meets the DEM more than "
     "once, the lowest meeting point is returned; where it meets it nowhere, the ground plane's, without error.",
     ["inputs", "configurations"], "all image locations, image formation types, surfaces, look sides",
     "tests project a few pixels of three sample files",
     [PH + "sicd_sensor_model.py", GD + "sicd_sensor_model_builder.py", GD + "sidd_sensor_model_builder.py"],
     [("COA projection", PH + "sicd_sensor_model.py COAProjectionSet and subclasses"),
      ("surface intersection", PH + "sicd_sensor_model.py RRDotSurfaceProjection subclasses")],
     "range and range rate recomputed independently from the metadata polynomials")
prop("C13", "An encoded tile holds exactly the pixels of the requested window",
     "For every window, output size, format and compression, a lossless tile created from an image contains exactly the source pixels of "
     "that window (or, when resized, a resampling of that window and nothing else) in the same band order, data type and no-data value, "
     "with the requested size. With a range adjustment the pixels are those of the window under that one monotone mapping; windows "
     "reaching outside the image, or of zero size, never yield pixels from elsewhere.",
     ["inputs", "configurations", "histories"], "all windows, sizes, formats, compressions, pixel types, band counts, request orders",
     "tests need raster files that are absent and look at one or two tiles",
     [IM + "gdal_tile_factory.py", GD + "gdal_utils.py"], [("window translate", IM + "gdal_tile_factory.py GDALTileFactory.create_encoded_tile")],
     "synthetic images where each pixel value encodes its own position")
prop("C14", "A tile's own metadata geolocates its pixels where the source image does",
     "For tiles cut in any order from any image, opening the tile and building its sensor model (corner coordinates, SICD, SIDD, or chip "
     "metadata) places each tile pixel at the ground location the source image gives the same pixel, to within a pixel (or the resolution of the corner "
     "coordinates, where a tile carries nothing else). The metadata of a "
     "tile depends only on its own window, never on tiles created before, and tiles of tiles remain correct.",
     ["inputs", "histories", "configurations"], "all windows, output sizes, request sequences, metadata kinds, nesting",
     "tests create one tile per kind",
     [IM + f for f in ("gdal_tile_factory.py", "sicd_updater.py", "sidd_updater.py")],
     [("SICD chip update", IM + "sicd_updater.py"), ("SIDD chip update", IM + "sidd_updater.py"), ("IGEOLO", IM + "gdal_tile_factory.py")],
     "the source image's sensor model is the reference")
prop("C15", "Rewriting SICD/SIDD metadata for a chip changes only what chipping affects",
     "When metadata is rewritten for a chip, every element other than those describing the image extent and its chip mapping keeps its "
     "content, and the result is valid for the same standard version and can be read back by the library to the same values.",
     ["inputs", "histories"], "all chip sequences over SICD and SIDD documents",
     "tests look at a few elements",
     [IM + "sicd_updater.py", IM + "sidd_updater.py"], [("xsdata round trip", IM + "sicd_updater.py / sidd_updater.py")],
     "element-level comparison of before and after documents")
prop("C16", "Tile creation leaves no residue and never alters the source",
     "Whatever sequence of tiles is created, including requests that fail, no temporary files remain in memory or on disk afterwards, and "
     "the source image, its metadata and its files are unchanged. Tiles created concurrently from separate factories do not affect each other.",
     ["histories", "schedules", "fault_sequences"], "all sequences of successful and failing tile requests, and concurrent ones",
     "tests create single tiles and do not look for residue",
     [IM + "gdal_tile_factory.py"], [("temporary files", IM + "gdal_tile_factory.py create_encoded_tile")],
     "vsimem directory and source bytes are compared before and after every request")
prop("C17", "Map tile sets partition the map, nest by powers of two and find locations",
     "At every zoom level the tiles of the web mercator tile set cover the whole map area without gaps or overlaps, each tile is exactly "
     "its four children at the next level, and the tile found for any location of the map, its edges included, exists and contains it. The "
     "limits found for an area are exactly those of the tiles of its boundary locations; only the well known tile set names yield a tile set.",
     ["inputs", "configurations"], "all zoom levels, tiles and locations",
     "tests look at a few tiles",
     [IM + "map_tileset_wmq.py", IM + "map_tileset.py", IM + "map_tileset_factory.py"],
     [("tile bounds", IM + "map_tileset_wmq.py WellKnownMapTileSet get_tile / get_tile_for_location")],
     "TLC enumerates zoom levels and tiles; large zooms by trace")
prop("C18", "An orthophoto map tile shows each ground location where the map places it",
     "Every pixel of a map tile made from an image shows the image content found at the ground location of that pixel in the map tile, to "
     "within a pixel, is blank where the image does not reach, and has the requested size. Adjacent map tiles join without seams, and a map "
     "tile that does not intersect the image yields nothing rather than unrelated pixels.",
     ["inputs", "configurations"], "all map tiles, image footprints, orientations, tile sizes and surfaces",
     "tests need absent rasters and check only that something was made",
     [IM + "gdal_tile_factory.py"], [("warp", IM + "gdal_tile_factory.py create_orthophoto_tile")],
     "synthetic images whose pixels encode ground position")
prop("C19", "Range adjustment is a monotone mapping onto the display range",
     "For every histogram, the chosen display range lies within the data range, never inverts, and the resulting mapping sends lower pixel "
     "values to lower or equal display values across the full output range. Constant, empty, single-valued and zero-maximum images yield "
     "usable parameters, and the automatic adjustment options map the stated input range onto the output type.",
     ["inputs"], "all histograms, weights, output types, images",
     "tests use a few histograms",
     [GD + "dynamic_range_adjustment.py", GD + "gdal_utils.py"], [("DRA", GD + "dynamic_range_adjustment.py DRAParameters.from_counts")],
     "TLC enumerates small histograms exhaustively")
prop("C20", "SAR complex pixels become display pixels in range and in magnitude order",
     "For complex SAR pixels of every supported pixel type the display image has the same rows and columns and values within the "
     "8-bit range, never wraps or overflows, is finite, monotone in magnitude, scaled by the mean as documented, and is independent of phase. Degenerate inputs (all zero, constant, "
     "a single pixel) give a valid image.",
     ["inputs"], "all pixel types, encodings, magnitudes, image shapes",
     "tests use one random image",
     [IM + "sar_complex_imageop.py"], [("remaps", IM + "sar_complex_imageop.py")],
     "integer inputs with exact squared magnitudes")
prop("C21", "Geolocated features carry exactly the model's ground locations of their geometry",
     "Geolocating image features sets each feature's geometry (and bounding box) to the ground locations of its image coordinates, of the same "
     "geometry type and vertex order, rings closed, within the approximation tolerance; properties and image geometry are left "
     "unchanged. The result for a feature does not depend on the other features or on earlier calls.",
     ["inputs", "histories"], "all geometry types, vertex counts, feature collections, elevation models, approximation grids",
     "tests use a few features",
     [FE + "geolocation.py"], [("Geolocator", FE + "geolocation.py Geolocator.geolocate_features")],
     "stub and real sensor models")
prop("C22", "Feature image geometry is found, and updated, consistently",
     "The image geometry of a feature is taken from the documented properties in their documented order of precedence, deprecated and "
     "current forms alike, and is absent only when none is usable. Setting an image geometry and reading it back returns it, "
     "bounding boxes are those of the geometry, unrelated properties survive, and malformed values never raise.",
     ["inputs", "histories"], "all combinations of property forms, valid and malformed; all set/get sequences",
     "tests cover single well-formed properties",
     [FE + "imaged_feature_property_accessor.py"], [("accessor", FE + "imaged_feature_property_accessor.py")],
     "TLC enumerates property combinations and update sequences")
prop("C23", "The feature index returns exactly the features that intersect the query",
     "A spatial query returns every indexed feature whose geometry (in image or world space as configured) intersects the queried area, "
     "no other, each once and unmodified, whatever mix of geometry types and of features without geometry was indexed.",
     ["inputs"], "all feature collections and query areas, both spaces",
     "tests use two features",
     [FE + "feature_index.py"], [("STRtree", FE + "feature_index.py STRFeature2DSpatialIndex")],
     "integer rectangles and points with exact intersection")
prop("C24", "Temporary GDAL configuration is always restored",
     "Within the scope of a temporary configuration the requested options are in force, and on leaving it, normally or by an exception, "
     "every option has the value (or absence) it had before, for nested, repeated and re-entered scopes.",
     ["histories", "fault_sequences"], "all nestings, orders, option sets, exceptions",
     "tests enter one scope",
     [GD + "gdal_config.py"], [("context manager", GD + "gdal_config.py GDALConfigEnv")],
     "TLC enumerates scope histories")
prop("C25", "NITF data extension segments are returned completely and correctly",
     "For every NITF image, listing and reading data extension segments returns each segment of the requested type, in file order, with "
     "exactly its header fields and payload, and nothing when there are none.",
     ["inputs"], "all numbers, types, sizes and contents of segments",
     "tests need absent rasters",
     [GD + "nitf_des_accessor.py"], [("DES parsing", GD + "nitf_des_accessor.py NITFDESAccessor")],
     "synthetic NITF files and DES metadata")
prop("C26", "Affine and tie-point models reproduce the georeferencing they were given",
     "For every affine transform or set of tie points (GCPs or corner coordinates, of any extent, place on Earth including the "
     "antimeridian, and CRS), the sensor model reproduces each stated correspondence, and the one affine or projective relation between "
     "them, in both directions.",
     ["inputs"], "all transforms, tie point sets, ground extents, places and coordinate systems",
     "tests sample one image each",
     [PH + "gdal_sensor_model.py", PH + "projective_sensor_model.py", PH + "transforms.py", GD + "gdal_sensor_model_builder.py"],
     [("affine", PH + "gdal_sensor_model.py GDALAffineSensorModel"), ("tie points", PH + "projective_sensor_model.py ProjectiveSensorModel"),
      ("fit", PH + "transforms.py ProjectiveTransform.estimate")],
     "ties spanning less than half a turn; projected systems read back through PROJ")

BUILT = [p["id"] for p, _ in P if os.path.exists(os.path.join(V, "harness", "props", p["id"].lower() + ".py"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                "technique": "TLA+ specification model-checked with TLC; behaviours replayed into, and recorded traces of, the real code "
                             "validated against it by TLC",
                "level": "model_checking", "level_note": n} for p, n in P if p["id"] in BUILT],
    "not_applicable": [{"property": p["id"], "reason": "not built yet"} for p, n in P if p["id"] not in BUILT],
    "notes": "No hooks are needed: all behaviour is observed through the public API."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(BUILT), "built")
