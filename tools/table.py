"""The listed properties (source of properties.jsonl and MANIFEST.json)."""
S = "src/glimpse/"

P = []


def prop(id, title, statement, over, text, tests, files, mech, level, state=None, observe=None):
    P.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text, tests=tests,
            files=[S + f for f in files],
            mech=[(n, S + w) for n, w in mech],
            level=level, state=state, observe=observe,
        )
    )


prop(
    "C01", "World points project to the right image coordinates",
    "For every camera, a world point in front of it projects to the image coordinates that the documented model gives (position, view direction, focal length, principal point, radial and tangential distortion, earth curvature and refraction), and a point which is not in front of it is never given image coordinates. "
    "Projection treats each point alone, gives the same answer for points and for ray directions, and does not change when camera and scene move together or distances along a ray are scaled.",
    ["inputs", "configurations"],
    "all cameras (any orientation, image and sensor size, distortion) and all finite world points or directions, in front of, behind and on the camera plane",
    "The tests project a handful of points with one undistorted north-looking camera and compare projection with its own inverse, so a consistent error in both goes unseen.",
    ["camera.py"],
    [("Camera.xyz_to_uv and its steps", "camera.py"), ("elevation correction", "helpers.py")],
    "independent reference model written from the documentation (rotation from compass angles, Brown distortion, curvature) compared point by point over random cameras; metamorphic relations",
    observe=["Camera.xyz_to_uv", "Camera.R", "Camera.viewdir"],
)
prop(
    "C02", "Image coordinates map back to the rays and points they came from",
    "Wherever the lens distortion is reversible, mapping an image point to a ray or to a world point at a given depth and projecting it again returns the image point, and a projected world point returned to its depth (or distance) is the world point. "
    "The report of whether a camera's distortion can be reversed agrees with the lens model, and azimuth, altitude and distance describe the same directions as rays do.",
    ["inputs", "configurations"],
    "all image points in the frame of cameras whose distortion is reversible over the frame, any depth, one depth or one per point",
    "The tests round-trip a small grid of points for a few fixed distortion coefficients; degenerate positions (on an axis, at the centre) and per-point depths are not reached.",
    ["camera.py"],
    [("undistortion (closed form, lookup, iteration)", "camera.py"), ("Camera.uv_to_xyz", "camera.py"), ("Camera.spherical_to_xyz / xyz_to_spherical", "camera.py")],
    "round trips against the independent projection reference, over random reversible cameras, with degenerate positions drawn on purpose",
    observe=["Camera.uv_to_xyz", "Camera.xyz_to_uv", "Camera.reversible"],
)
prop(
    "C03", "Camera parameters stay consistent through every history of changes",
    "After any sequence of assignments in pixels or millimetres, resizes, copies and resets, a camera's parameters in pixels and millimetres, its size, and its projection agree with each other and with the values last assigned, and a copy or the original remembered for reset is never affected by changes to the camera. "
    "Writing a camera to a dictionary or JSON file and reading it back restores it, and conflicting or incomplete arguments are refused.",
    ["histories", "inputs"],
    "all histories of construction, assignment, resize, copy, reset and (de)serialisation, with scalar, short and full parameter values",
    "The tests change one parameter at a time from one starting camera; interplay of resizing with later changes, resets and copies is a history property.",
    ["camera.py", "helpers.py"],
    [("parameter vector and derived units", "camera.py"), ("Camera.resize, copy, reset", "camera.py"), ("Camera.to_json, from_json", "camera.py")],
    "stateful model-based generation: a plain-number model of the camera is updated along with the real one and compared after each step",
    state=[{"name": "parameter vector", "meaning": "the camera's current parameters", "where": S + "camera.py"}],
    observe=["Camera attributes", "Camera.to_dict", "Camera.xyz_to_uv"],
)
prop(
    "C04", "Images built from points and elevations put every value in its place",
    "Frame tests, pixel grids and frame outlines of a camera follow its image size; averaging points into an image uses each point in the frame exactly once, in the pixel that contains it; view bounds contain every point visible up to their depth. "
    "Projecting an elevation model fills exactly the pixels in which (unmasked) terrain cells fall, with the mean of the values and depths of those cells, and split into tiles or processes it fills the same pixels from the same cells.",
    ["inputs", "configurations", "schedules"],
    "all cameras, point sets (in, on and outside frame edges, missing), elevation models, masks, tile sizes and process counts",
    "The tests do not build images from elevations at all beyond a smoke test, and no test puts points on the frame's edges or compares tilings.",
    ["camera.py", "helpers.py"],
    [("Camera.rasterize, grid, edges, inframe, viewbox", "camera.py"), ("Camera.project_dem", "camera.py")],
    "direct per-pixel reference averaging compared with the result over random scenes; tiling and process-count metamorphic relations",
    observe=["Camera.rasterize", "Camera.project_dem", "Camera.viewbox"],
)
prop(
    "C05", "Grid coordinates, cell indices and extents always agree",
    "For every grid (any size, origin, cell size and axis direction) the cell coordinates, the extent, the cell size and the conversions between coordinates and cell indices describe the same cells, every point inside belongs to the cell containing it, and this stays true after any history of resizing, shifting, limit changes and copies. "
    "Cropping keeps exactly the cells that the bounds touch, and tiles cover every cell, exactly once when they do not overlap.",
    ["inputs", "histories"],
    "all grids and points (on edges, corners, centres, inside, outside), crop bounds, tile sizes and overlaps, and histories of changes",
    "The tests use a few grids with increasing x and decreasing y and points away from cell edges, and never read coordinates before and after a change.",
    ["raster.py"],
    [("Grid size, limits and coordinate caches", "raster.py"), ("Grid.xy_to_rowcol, rowcol_to_xy, snap_xy", "raster.py"), ("Grid.crop_extent, tile_indices", "raster.py")],
    "exact dyadic-arithmetic reference for every conversion, plus stateful histories against a model of size and limits",
    observe=["Grid public methods and attributes"],
)
prop(
    "C06", "Raster samples are the interpolated cell values",
    "Sampling a raster at any point (or on any grid of points) gives the value of the cell it is nearest to or the linear or higher-order interpolation of the cell values around it, regardless of the raster's axis directions, its size, or missing cells elsewhere, and the same value whether points are given singly, as a list, or as a grid. "
    "Points out of bounds are refused, filled or extrapolated as asked, and never silently take another value.",
    ["inputs", "configurations"],
    "all rasters (orientation, data type, missing cells, single rows and columns), all points and coordinate grids, orders and bounds modes",
    "The tests sample a small raster at its own cell centres; interpolation between cells, missing cells, reversed axes and singleton dimensions are not exercised.",
    ["raster.py"],
    [("Raster.sample", "raster.py"), ("interpolant construction and cache", "raster.py")],
    "explicit nearest / bilinear reference evaluated per point; exact reproduction of bilinear surfaces for higher orders; list-versus-grid differential",
    observe=["Raster.sample", "Raster.resample"],
)
prop(
    "C07", "Raster files read back what was written, in full or in part",
    "A raster written to a file and opened again has the same values, data type, limits, orientation of axes, coordinate system and missing cells, for every supported data type and band. "
    "Opening or reading any box of a file, at its own or a coarser cell size, eagerly or lazily, cached or not and in any order, gives the cells that cropping or resampling the whole raster would, and files that cannot represent the data are refused.",
    ["inputs", "histories", "configurations"],
    "all data types, orientations, no-data values and coordinate systems; all boxes; all histories of reads of one file with and without caching",
    "The tests read two sample files with fixed options; caching histories, boxes and no-data round trips for other types are not reached.",
    ["raster.py", "helpers.py"],
    [("Raster.open, read and write", "raster.py"), ("Grid.read", "raster.py"), ("write_raster, gdal driver and type lookup", "helpers.py")],
    "write/open round trip over generated rasters; histories of reads compared with slices of the array in memory; lazy-versus-memory differential",
    observe=["Raster.open", "Raster.read", "Raster.write", "Raster attributes"],
)
prop(
    "C08", "Raster edits change what they should and nothing else",
    "After any history of cropping, shifting, slicing, resizing, assigning values, changing limits and copying, a raster's values, coordinates and samples are those of a plain array edited the same way, and rasters copied earlier are unchanged. "
    "Filling circles and polygons or averaging points into a raster touches exactly the cells concerned, for either direction of each axis, and later samples see the filled values.",
    ["histories", "inputs"],
    "all rasters and all histories of edits, with sampling and caching in between; all circles, polygons with holes and point sets",
    "The tests apply single edits to one raster; stale caches and shared arrays only show in sequences.",
    ["raster.py", "helpers.py"],
    [("Raster.crop, shift, resize, __getitem__, copy", "raster.py"), ("Raster.rasterize, rasterize_poly, fill_circle", "raster.py"), ("Raster.gradient, __eq__", "raster.py")],
    "stateful model-based generation against a numpy array with coordinates; per-cell geometric oracles for fills",
    state=[{"name": "array, limits and cached interpolant", "meaning": "the raster's state", "where": S + "raster.py"}],
    observe=["Raster public methods and attributes"],
)
prop(
    "C09", "Interpolated rasters lie between the rasters around them",
    "Interpolating a series of rasters at a time or coordinate gives, cell by cell, the linear mix of the two rasters around it (exactly the raster at its own coordinate, missing beyond the ends unless extrapolation is asked for), with uncertainties combined the same way, whatever the order, form (raster, file or number) and alignment of the inputs. "
    "The inputs are left unchanged and answers do not depend on what was asked before.",
    ["inputs", "histories"],
    "all series (numbers or datetimes, unsorted, with uncertainties, files or rasters, offset or partly overlapping grids) and all query coordinates, windows and bounds",
    "The tests interpolate between two constant rasters on one grid at one coordinate.",
    ["raster.py"],
    [("RasterInterpolant", "raster.py")],
    "direct cellwise reference for aligned series, linear surfaces (whose resampling is exact) for unaligned ones",
    observe=["RasterInterpolant call"],
)

prop(
    "C10", "Viewsheds and horizons follow the lines of sight over the terrain",
    "A cell is visible from a point exactly when no terrain between the point and the cell rises above the line of sight (with or without correction for curvature and refraction), whatever the size, orientation, missing cells and origin of the elevation model, and visibility mirrors and shifts with the terrain. "
    "The horizon is, in each direction, the cell with the greatest elevation angle, as unbroken segments in order of heading.",
    ["inputs", "configurations"],
    "all elevation models (flat, walls, rings, rough, missing cells, either axis direction), origins in and around them, headings, and corrections",
    "The tests compare one viewshed of one elevation model with a stored result of the same code.",
    ["raster.py", "helpers.py"],
    [("Raster.viewshed", "raster.py"), ("Raster.horizon", "raster.py"), ("elevation_corrections", "helpers.py")],
    "terrains whose visibility is known in closed form (rings, walls, slopes), symmetry and monotonicity relations, direct horizon reference over crossed cells",
    observe=["Raster.viewshed", "Raster.horizon"],
)

prop(
    "C11", "Images deliver the pixels of their file at the size of their camera",
    "After any history of reads, camera size changes and cache changes, an image (or any box of it, cached or read directly) has the camera's size and the pixels of the file at the corresponding place, unchanged at the file's own size; written images read back the same. "
    "Cameras and capture times combine given arguments with metadata as documented, reading no metadata when nothing is missing. "
    "Projecting an image into a camera at the same position samples the image where each target pixel's ray meets it, the same camera returning the same image, and other positions are refused.",
    ["histories", "inputs", "configurations"],
    "all image sizes, bands and data types, camera sizes smaller and larger than the file, boxes, read histories, subsets of camera arguments, and pairs of cameras",
    "The tests read one photograph at two sizes and one box, and do not look at the values of projected images.",
    ["image.py", "helpers.py"],
    [("Image.__init__", "image.py"), ("Image.read", "image.py"), ("Image.project", "image.py"), ("Image.write", "image.py")],
    "images whose values encode pixel positions, read through random histories; per-pixel bilinear and nearest reference built on the independent camera model; argument model for metadata",
    state=[{"name": "cached array", "meaning": "image content last read or assigned", "where": S + "image.py"}],
    observe=["Image.read", "Image.project", "Image attributes"],
)
prop(
    "C12", "Image metadata is parsed, edited and written without loss",
    "Every tag of a file is parsed to the text or number it stands for, missing tags give nothing, and the derived values (size, time with fractions of a second, focal length, sensor size, ...) follow from the tags as documented. "
    "After any history of editing, inserting and reading, a file's tags are those last inserted, with its pixels and (when kept) its thumbnail unchanged, encoding leaves the tags in memory as they are, and invalid tags are refused without touching the file.",
    ["inputs", "histories"],
    "all sets of tags of all groups and types, in JPEG and WebP files, with and without thumbnails; all histories of edits and insertions",
    "The tests read the tags of one photograph and change one value.",
    ["exif.py"],
    [("Exif.parse_tag and derived values", "exif.py"), ("Exif.dump and insert", "exif.py")],
    "tags encoded by the underlying library compared with parsed values; stateful model of object and file through edit histories",
    state=[{"name": "tags", "meaning": "tags in memory and in the file", "where": S + "exif.py"}],
    observe=["Exif attributes", "Exif.parse_tag", "file content"],
)

prop(
    "C13", "Annotations in SVG files are read as the image coordinates drawn",
    "Every supported element (paths with any commands, polylines, polygons, lines, rectangles, circles, images), in any valid number format, gives the vertices that SVG defines, carried through the transforms of its groups and itself into the pixel coordinates of the image, under the names and groups of the file. "
    "Documents and elements written by the package read back with the same coordinates for every layout, and unsupported elements and transforms are refused.",
    ["inputs"],
    "all path data (commands, absolute and relative, spacing), point lists, nested groups, transforms, attribute keys, image sizes and indentations",
    "The tests read one command or one number format at a time and one document with translations.",
    ["svg.py"],
    [("read", "svg.py"), ("Points parsing and writing", "svg.py"), ("svg, g, image, path, write", "svg.py")],
    "independent walk of path commands and matrix model of nested documents, compared with what is read from generated text",
    observe=["svg.read", "svg.write", "svg.Points"],
)

prop(
    "C14", "Camera models convert exactly where possible and to a better fit elsewhere",
    "The residuals between a camera and an external camera model (Agisoft, Matlab, OpenCV, PhotoModeler) are those of the formulas published for that model, and cameras that the other model can represent convert there and back without loss. "
    "Otherwise optimization changes only the selected (or documented) parameters of the camera asked for, never leaves a worse fit, finds a changed parameter again, and leaves the source camera alone.",
    ["inputs", "configurations"],
    "all parameter values of all four models and of cameras, image points or numbers of points, selections of parameters by name, index or list, and bounds",
    "The tests convert one camera per model and look at residuals computed by the same code.",
    ["convert/converter.py", "convert/cameras/agisoft.py", "convert/cameras/matlab.py", "convert/cameras/opencv.py", "convert/cameras/photomodeler.py"],
    [("Converter", "convert/converter.py"), ("external cameras", "convert/cameras/agisoft.py")],
    "differential against OpenCV's own projection and formulas written from each model's documentation; round trips; invariants of fits",
    observe=["Converter.residuals", "from_camera", "to_camera"],
)
prop(
    "C15", "Calibration files of other software are read completely",
    "Every parameter in a calibration file of Agisoft, the Matlab toolbox, OpenCV or PhotoModeler is read with its value (or standard deviation) whatever the order, layout and number format, parameters not in the file have their defaults, and files of other models or without a calibration are refused.",
    ["inputs"],
    "all parameter values, number formats, orders and subsets of parameters, layouts, and files or file objects",
    "The tests read one file per format.",
    ["convert/cameras/agisoft.py", "convert/cameras/matlab.py", "convert/cameras/opencv.py", "convert/cameras/photomodeler.py"],
    [("from_xml, from_report, from_arrays", "convert/cameras/opencv.py")],
    "files generated in the layout of each program from known parameters, read and compared",
    observe=["from_xml", "from_report", "from_arrays"],
)

prop(
    "C16", "Calibrating cameras finds the parameters the controls determine",
    "A camera calibration maps each optimised parameter of each camera (or group of cameras) to its place in one vector, sets and resets the cameras exactly as that vector says, and leaves every other parameter alone. "
    "Residuals and weights follow the order of the controls; the stated sparsity never omits a dependence that exists and bounds are those requested. "
    "Fitting exact controls from perturbed cameras recovers the true parameters, never makes the fit worse, leaves the cameras as they were, and drops exactly the controls, cameras and residuals that cannot take part.",
    ["inputs", "configurations", "histories"],
    "all selections of parameters (all, some, none, per camera, per group), controls of every type, missing and hidden points, weights, bounds, scales and sparsity settings",
    "The tests fit one camera with two kinds of controls once; combinations of cameras, groups, shared parameters, bounds and missing points are not reached.",
    ["optimize.py"],
    [("Cameras.set_cameras, reset_cameras", "optimize.py"), ("Cameras.residuals, sparsity, weights", "optimize.py"), ("Cameras.fit", "optimize.py")],
    "independent model of the parameter layout; numerical differentiation as the oracle of sparsity; recovery of cameras that generated the controls",
    state=[{"name": "camera vectors", "meaning": "parameters of the cameras being calibrated", "where": S + "optimize.py"}],
    observe=["Cameras.fit", "Cameras.residuals", "Cameras.set_cameras", "Cameras.reset_cameras"],
)
prop(
    "C17", "Control points, lines and matches measure what the cameras see",
    "Control points give observed and predicted image coordinates of their camera in order, for any selection of points; control lines give for each observed point the nearest point on the projected world lines, however those are split or clipped; matches give in each camera the point that the other camera's observation predicts, in pixels, rays or elevation-free geometry. "
    "Filtering matches keeps exactly those that meet every condition asked for, resizing rescales the observations with the camera, conversions keep the pairs, and plots draw the observed and predicted points.",
    ["inputs", "configurations"],
    "all cameras, points, lines and matches (visible, hidden, missing; fixed or moved cameras; resized images), selections and filter thresholds",
    "The tests build each control once from hand-picked numbers and check sizes and a few values.",
    ["optimize.py"],
    [("Points", "optimize.py"), ("Lines", "optimize.py"), ("Matches, RotationMatches, RotationMatchesXY, RotationMatchesXYZ", "optimize.py")],
    "independent projection reference, brute-force nearest point on segments, naive filter of pairs",
    observe=["Points.predicted", "Lines.predicted", "Matches.predicted", "Matches.filter", "Matches.resize"],
)
prop(
    "C28", "Camera orientations are recovered from matches between their images",
    "Orienting the cameras of an observer from matches between pairs of images recovers the view directions that the matches were made with (up to the accuracy of the matches), keeps anchored cameras where they are, never returns a worse fit than the start, and does not change the observer's cameras. "
    "The result does not depend on the container (dense or sparse) or on the order in which pairs of matches are given.",
    ["inputs", "configurations"],
    "all match graphs that connect the cameras to an anchor, anchors, view directions and perturbations, with exact and noisy matches",
    "The tests do not orient any observer; the gradient, anchors and graph structure go unseen.",
    ["optimize.py"],
    [("ObserverCameras", "optimize.py"), ("RotationMatchesXYZ", "optimize.py")],
    "recovery of the generating orientations and an independently computed objective",
    observe=["ObserverCameras.fit"],
)

prop(
    "C20", "Motion models move particles as they state",
    "Initial particles follow the stated distributions: positions around the initial position, heights on the surface with its uncertainty, velocities around the initial velocity, in Cartesian or cylindrical components. "
    "Evolving particles by a time step applies exactly the stated motion in any time unit, forward or backward: positions move by velocity and half the acceleration, velocities by the acceleration, cylindrical accelerations turn with the particle, and tangent models keep particles at their height above the surface up to the stated slope. Each random component is drawn independently for every particle, motion without randomness is a closed form of time that does not depend on how it is split into steps, and heights add the Gaussian log likelihood of the surface.",
    ["inputs", "configurations"],
    "all motion models, surfaces (constant or raster), distributions, time units and steps of either sign",
    "The tests run one track on one scene with a fixed seed and look at whether it runs; nothing checks where particles go.",
    ["track/motion.py"],
    [("CartesianMotion, CylindricalMotion", "track/motion.py"), ("TangentCartesianMotion, TangentCylindricalMotion", "track/motion.py")],
    "differential: the random numbers drawn are recorded and the particles compared with an independent vectorised model of the documentation; sample statistics; closed forms; splitting of time steps",
    observe=["Motion.initialize_particles", "Motion.evolve_particles", "Motion.compute_log_likelihoods"],
)
prop(
    "C21", "Observers find the image and the pixels they are asked for",
    "An observer accepts only images in strictly increasing time, finds images by value, nearest datetime within a tolerance, and gives each its camera; subsets and splits at datetimes keep exactly the images in range, in order, with the observer's settings. "
    "A tile is the box of the requested size nearest the point, its pixels are those of the image (for any box, container and cache), sampling a tile gives the spline through pixel centres in image coordinates and nothing outside, shifting a tile moves it by the given fraction of a pixel, and plots and animations show the tiles, boxes and points at the image coordinates and frames they belong to.",
    ["inputs", "configurations"],
    "all sequences of images (files and rasters, grey or colour), datetimes, boxes, tile sizes, sub-pixel positions and spline degrees",
    "The tests read one tile from one image; ties of datetimes, tiles at the edges, sub-pixel sampling and animations are not sampled.",
    ["track/observer.py"],
    [("Observer.index, subset, split", "track/observer.py"), ("Observer.tile_box, extract_tile, sample_tile, shift_tile", "track/observer.py"), ("Observer.plot_tile, plot_box, animate", "track/observer.py")],
    "naive search over datetimes and pixels, independent spline evaluation, and reading back of drawn artists frame by frame",
    observe=["Observer.index", "Observer.split", "Observer.extract_tile", "Observer.sample_tile", "Observer.animate"],
)
prop(
    "C22", "Particle weights measure how well particles explain the images",
    "Particle means, covariances and standard deviations are the weighted statistics of the particles; particles on hidden or missing positions are refused. Weights are the joint likelihoods of all observers and the motion model that have any; an observer's likelihood is the Gaussian of the mean squared difference between its normalised template and the image around the projected particle, at sub-pixel positions, and is greatest where the texture really went. "
    "Resampling returns as many particles, each a copy of one that existed, in expectation in proportion to its weight, never drops a particle with weight of a whole share in systematic and residual resampling, and never fails however the random numbers fall.",
    ["inputs", "configurations"],
    "all particle clouds and weights, resampling methods, random numbers (extremes injected), observers, tile sizes, images (grey or colour) and shifts",
    "The tests do not examine weights or resampling; the result is random and any sampling bias or off-by-half-pixel error stays within their noise.",
    ["track/tracker.py"],
    [("Tracker.particle_mean, particle_covariance, compute_particle_sigma", "track/tracker.py"), ("Tracker.update_weights, compute_observer_log_likelihoods", "track/tracker.py"), ("Tracker.resample_particles", "track/tracker.py")],
    "independent reference for the statistics and the likelihood (naive template matching); counting bounds per resampling method; long-run frequencies; known displacement of a texture; injected random numbers",
    observe=["Tracker.resample_particles", "Tracker.update_weights", "Tracker.test_particles"],
)
prop(
    "C23", "Tracks follow the images, and report what happened to each track",
    "Tracking uses, at each requested datetime, the nearest image of each observer within the tolerance, refuses datetimes that are not monotonic, drops those that repeat or match nothing with a warning, starts each track at its first and ends it at its last observed datetime, forward or backward, and moves particles by the time between images. "
    "Results hold one row per track and one column per datetime, with means, spreads, particles, reductions, images, errors and warnings of that track: a failing track keeps what it reached and does not disturb the others (a single track raises), and the same tracks are returned together or alone, in parallel or not, whatever was tracked before and whatever unused observers are present. A moving texture is followed, and plots and animations of tracks show their positions and velocities.",
    ["inputs", "configurations", "histories"],
    "all image schedules of several observers, requested datetimes, tolerances, masks, failures at any step, numbers of processes and kinds of result; moving textures",
    "The tests track a single scene once, without observers that start or end at different times, failures, backward time, masks, or comparison between serial and parallel runs.",
    ["track/tracker.py", "track/tracks.py"],
    [("Tracker.track", "track/tracker.py"), ("Tracker.parse_datetimes, match_datetimes", "track/tracker.py"), ("Tracks", "track/tracks.py")],
    "independent schedule model with deterministic motion models and faults injected at chosen steps; metamorphic comparison of tracks together, alone, in parallel and repeated; synthetic textures of known motion",
    observe=["Tracker.track", "Tracks.endpoints", "Tracks.animate"],
)

prop(
    "C18", "RANSAC returns the model that most of the data agree on",
    "Samples drawn by RANSAC are distinct sets of the requested size, drawn evenly, and all of them when asked for at least as many as there are. Among the samples, the model returned is fitted to its consensus - all data within the maximum error of a sampled model, when there are enough of them - and has the smallest mean error among those; the returned inliers are that consensus. "
    "Failed fits are skipped, and no consensus is an error. With a majority of exact data and any outliers the outliers are left out, for polynomials and for cameras alike. Polynomials are the least squares of the selected points.",
    ["inputs", "configurations"],
    "all sample sizes, iterations, errors and required numbers of inliers; polynomials of any degree with outliers, models whose fit fails at chosen samples, and cameras with control points some of which are wrong",
    "The tests run one polynomial with a fixed seed; a biased sampler or a consensus that is not the best would go unnoticed.",
    ["optimize.py"],
    [("ransac, ransac_sample", "optimize.py"), ("Polynomial", "optimize.py")],
    "exhaustive enumeration of all samples as reference; planted outliers; frequency of members in samples",
    observe=["optimize.ransac", "optimize.ransac_sample", "Polynomial"],
)
prop(
    "C19", "Keypoint matches pair the images and points they should",
    "Keypoints are detected in the requested region of an image only, with the requested descriptors, and matched to their nearest descriptor under the ratio and distance limits stated. For a sequence of images, keypoints are built (or read from files) for every image that lacks them, and matches for exactly the pairs requested (all, those within an interval, those given, only those with both or one unanchored), once each, upper triangle only; stored files are reused unless overwritten, and results do not depend on parallel processing, on clearing memory, or on files. "
    "Matches refer to the cameras of their images, convert between forms keeping points and weights, filter consistently, and breaks and dropped images follow from the matches that remain.",
    ["inputs", "configurations", "histories"],
    "all sequences of images (files, fixed or not), pairings, masks, stored keypoints and matches from earlier runs, parallel or not, and numbers of keypoints",
    "The tests build no matches; file reuse, pair selection and parallel runs are never exercised.",
    ["optimize.py"],
    [("KeypointMatcher", "optimize.py"), ("detect_keypoints, match_keypoints", "optimize.py"), ("Matches", "optimize.py")],
    "naive nearest-descriptor matching; enumeration of expected pairs; comparison of runs in parallel, from files and from memory",
    observe=["KeypointMatcher.build_keypoints", "KeypointMatcher.build_matches", "optimize.match_keypoints"],
)
prop(
    "C24", "Boxes, grids, lines and rays obey plane and space geometry",
    "Boxes hold exactly the points within them (bounds included) and unravel, bound, intersect and become polygons and grids accordingly: grids span their box at the requested spacing in the requested modes and turn into points. Rays meet a box where the slab method says, also along its bounds or from inside; polylines are clipped to exactly the runs of vertices in a box, extended to where they enter and leave it, with their distance measures. "
    "Arrays split into maximal runs of a mask, circularly or not. Grid lines are connected, stay within half a cell of the line and do not depend on direction of travel; grid circles are connected, closed, symmetric and within a cell of the radius. Points along lines are linear interpolations at the requested distances, with the requested filling or refusal beyond the ends. Sizes are reached by the scale computed for them, and distances are of all pairs.",
    ["inputs"],
    "all boxes in 1 to 3 dimensions, rays of any direction (along axes, grazing), polylines with repeats and measures, integer or float coordinates, and containers",
    "The tests are docstring examples; grazing rays, points on bounds and degenerate segments are where vectorised geometry goes wrong.",
    ["helpers.py"],
    [("in_box, clip_polyline_box, intersect_rays_box", "helpers.py"), ("bresenham_line, bresenham_circle", "helpers.py"), ("interpolate_line, box_to_grid", "helpers.py")],
    "naive scalar implementations in exact (dyadic) arithmetic, and geometric invariants",
    observe=["helpers.clip_polyline_box", "helpers.intersect_rays_box", "helpers.interpolate_line"],
)
prop(
    "C25", "Filters, distributions and masks use exactly the cells they should",
    "Masked filters are those of the included cells alone: the Gaussian is their weighted mean, the maximum the greatest of them in the window, whatever the excluded cells hold (missing values too); excluded cells are kept, or filled when asked, and the input is not changed. Filling the crevasses of a raster takes that maximum and then that mean. Cumulative distributions give the fraction of values at most each value; matching maps each value to the value of the same rank, keeps order and range, and is the identity on its own distribution. Normalising gives mean 0 and variance 1. "
    "Points are averaged per cell into the cells they fall in, in any order, and a polygon mask is true for exactly the cells whose centre is in a polygon and in no hole.",
    ["inputs"],
    "all arrays of 1 to 3 dimensions and numeric types, masks (also empty and full), windows, kernels and boundary modes; distributions with repeats; polygons of any shape, self-crossing or beyond the array",
    "The tests are docstring examples of 2 x 2 cells with one mask.",
    ["helpers.py"],
    [("gaussian_filter, maximum_filter", "helpers.py"), ("compute_cdf, match_cdf", "helpers.py"), ("rasterize_points, polygons_to_mask", "helpers.py")],
    "naive loops over cells (explicit kernel matrices, windows, ranks, point-in-polygon in rationals)",
    observe=["helpers.gaussian_filter", "helpers.maximum_filter", "helpers.match_cdf", "helpers.polygons_to_mask", "Raster.fill_crevasses"],
)
prop(
    "C26", "What is written to JSON and pickle files reads back",
    "Any object written as JSON reads back equal, whatever its text contains; flattening arrays changes only whitespace: each array of numbers or text is on one line with the separators requested, all else is as indented. Pickles read back equal, compressed or not, through new folders, and cameras, rasters and observers survive with all their state and behaviour (whether used before or not) and independent of the original. "
    "Paths are stripped of folders and the requested number of extensions, lists are repeated, padded, cut and converted as stated or refused, and numpy values become equal native values.",
    ["inputs"],
    "all JSON trees (text with brackets, quotes, escapes, newlines; nested arrays), formats and indents; objects and arrays of any type; paths and lists",
    "The tests are docstring examples; text that looks like JSON syntax is what breaks a regular expression over JSON.",
    ["helpers.py"],
    [("write_json, read_json", "helpers.py"), ("write_pickle, read_pickle", "helpers.py"), ("format_list, strip_path", "helpers.py")],
    "round trips and an independent serialiser",
    observe=["helpers.write_json", "helpers.read_json", "helpers.write_pickle", "helpers.read_pickle"],
)
prop(
    "C27", "Times are compared, spaced and selected exactly",
    "Distances between datetimes are the seconds between them to the microsecond, with or without time zones and whatever the local time zone of the process. Ranges start at the start, step exactly, and end at or before the stop. The nearest of sorted values is nearest. "
    "Selection keeps exactly the datetimes within start and end (inclusive) and, on an interval, those nearest to each multiple of the interval from the origin (within start and end, or up to an interval beyond the first and last datetimes) that are within the maximum distance (half an interval by default).",
    ["inputs", "configurations"],
    "all datetimes (around daylight saving changes, before 1970, with and without zones), gaps and repeats, intervals down to microseconds, and local time zones",
    "The tests run in one local time zone with a handful of datetimes a few seconds apart.",
    ["helpers.py"],
    [("pairwise_distance_datetimes", "helpers.py"), ("select_datetimes", "helpers.py"), ("datetime_range, sorted_nearest", "helpers.py")],
    "integer arithmetic in microseconds; naive search over interval multiples",
    observe=["helpers.pairwise_distance_datetimes", "helpers.select_datetimes"],
)

prop(
    "C29", "Plots and hillshades show the data where it lies",
    "Plotted rasters and images show each value at the coordinates of its cell or pixel, with the first row on top and the first column on the left whatever the direction of the axes, and plot limits are those of the grid or image in the same orientation. "
    "Plotted errors of points, lines, matches and camera models are arrows from observed (or external) to predicted coordinates at true length unless a scale is given, split into selected and unselected points in the styles asked for (hidden if None); a new figure gets the limits of the image and an open one keeps its own. Plotted weights are the weights of the selected points at their observed coordinates. "
    "Plots that are not available are refused. A hillshade is brightest where the surface faces a light at the given azimuth (clockwise from North, 315 by default) and altitude (45 by default), for either direction of each axis. Plotting changes nothing that is plotted.",
    ["inputs"],
    "all rasters (any axis directions, missing cells, bands), images at any size, selections of points, styles, figures open or not, and light directions",
    "The tests plot in docstring examples only and look at nothing that is drawn; mirrored axes and light give plausible pictures.",
    ["raster.py", "image.py", "camera.py", "optimize.py", "convert/converter.py"],
    [("Raster.plot, Raster.hillshade, Grid.set_plot_limits", "raster.py"), ("Image.plot", "image.py"), ("Points.plot, Lines.plot, Matches.plot, Cameras.plot_weights", "optimize.py"), ("Converter.plot", "convert/converter.py")],
    "values read back from the plot at the screen position of each cell, arrows and styles compared to own expectations, and the cosine between light and own surface normals",
    observe=["Raster.plot", "Raster.hillshade", "Image.plot", "Points.plot", "Converter.plot"],
)

NOT_APPLICABLE = {}
