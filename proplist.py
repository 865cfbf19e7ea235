C, O, PI, CM, PS, FA, FI, EX = ('orthority/camera.py', 'orthority/ortho.py', 'orthority/param_io.py', 'orthority/common.py',
                                'orthority/pan_sharp.py', 'orthority/factory.py', 'orthority/fit.py', 'orthority/exif.py')
IN, CF, HI, SC = 'inputs', 'configurations', 'histories', 'schedules'

prop('C01', 'Frame camera projection is exact collinearity, and pixel/world inverse',
     'For a frame camera without lens distortion, projecting a world point gives the pixel at which the straight ray from the camera position through the point, rotated by the omega-phi-kappa angles, meets the image plane defined by focal length, sensor size, image size and principal point offset. Transforming any pixel to a world point at a requested height returns a point at exactly that height, on the ray of that pixel, and projecting it again returns the pixel, for scalar heights, one height per pixel, and one pixel with many heights. This holds again after the exterior parameters are updated.',
     [IN, CF], 'all world points and pixels, camera positions, orientations, focal lengths, sensor sizes, principal points, numbers of points and heights',
     'tests sample a few nadir and oblique cameras; a sign or axis error can cancel for the sampled orientations and square sensors',
     [C, PI], [('intrinsic matrix', 'FrameCamera._get_intrinsic'), ('extrinsic matrix', 'FrameCamera._get_extrinsic'), ('projection', 'FrameCamera.world_to_pixel'), ('back-projection', 'FrameCamera.pixel_to_world_z')])

prop('C02', 'Lens distortion models follow their published equations',
     'With distortion included, the brown, opencv and fisheye cameras map an undistorted ray to the pixel given by the Brown-Conrady, OpenCV rational/tangential/prism/tilt, and fisheye (4 term odd polynomial of the incidence angle) equations for the given coefficients, whichever of them are zero. Pixel to world followed by world to pixel returns the pixel over the image. With distortion excluded, the camera is a pinhole whose intrinsics follow the scaling parameter between all-valid and all-included, also after the parameter is changed, and undistorting an image agrees with the camera mapping.',
     [IN, CF, HI], 'all coefficient values including zeros, rays, and orders of changing the distortion and scaling settings',
     'tests compare the classes with each other for one set of small coefficients; order, truncation and higher-order terms are invisible there',
     [C], [('brown', 'BrownCamera._camera_to_pixel'), ('fisheye', 'FisheyeCamera._camera_to_pixel'), ('opencv', 'OpenCVCamera.__init__'), ('undistorted intrinsics', 'FrameCamera._get_undistort_intrinsic'), ('undistort', 'FrameCamera._undistort_im')])

prop('C03', 'RPC camera evaluates the RPC00B model in pixel-centre coordinates',
     'Projecting a world point with an RPC camera returns (sample, line) as offset plus scale times the ratio of the two 20-term cubic polynomials of the normalised longitude, latitude and height, with the standard RPC00B term order, after warping from the world CRS if one is set. Points with a NaN coordinate give NaN and leave the other points unaffected, and the coordinates passed in are not modified. Back-projecting a pixel at a height returns that height and projects back to the pixel.',
     [IN, CF], 'all RPC coefficient sets, offsets, scales, points, NaN patterns, with and without a world CRS',
     'tests use one real RPC whose higher-order coefficients are nearly zero',
     [C], [('forward model', 'RpcCamera.world_to_pixel'), ('inverse', 'RpcCamera.pixel_to_world_z'), ('CRS check', 'RpcCamera._validate_crs')])

prop('C04', 'RPC refinement is the least squares shift or shift-and-drift of the GCPs',
     'Refining an RPC model with GCPs returns a model whose prediction for any ground point equals the original prediction transformed by, per axis, the offset (shift) or offset and scale (shift-drift) that minimises the sum of squared GCP residuals. Nothing but the numerator coefficients changes, the model and GCPs passed in are not modified, and fewer GCPs than the method needs raises an error.',
     [IN, CF], 'all RPC models, numbers and positions of GCPs, both refinement methods',
     'tests check one dataset and that errors get smaller',
     [FI], [('refine', 'fit.refine_rpc')])

prop('C05', 'Orientation conversions describe the same physical orientation',
     'Converting a rotation matrix to omega-phi-kappa and back gives the same rotation. Converting OpenSfM / OpenCV angle-axis rotation and translation gives the camera position -R^T t plus the reference position, and the same viewing rotation in the photogrammetric axis convention. Converting roll-pitch-yaw at a location gives the rotation composed of camera to body, body to north-east-down, and north-east-down to world axes, with north being the direction of increasing latitude in the world CRS.',
     [IN], 'all angles, positions, reference positions and CRSs',
     'tests use a handful of angle triples and one location',
     [PI], [('omega-phi-kappa', '_opk_to_rotation, _rotation_to_opk'), ('angle-axis', '_aa_to_opk, _cv_ext_to_oty_ext'), ('roll-pitch-yaw', '_rpy_to_opk, _rpy_to_rotation')])

prop('C06', 'Exterior parameter readers return each image its own correct pose',
     'For every row, shot or image of a CSV, OpenSfM, EXIF or Orthority exterior file, the reader returns one entry under the image file name with the position in the world CRS (transformed from longitude-latitude-altitude when that is what the file has), the orientation as omega-phi-kappa in radians, and the camera id as written (without version prefix). The result does not depend on field order, delimiter, header case, or on reading more than once.',
     [IN, CF, HI], 'all CSV layouts (position/orientation kinds, field orders, delimiters, degree or radian), rows and reads; all OpenSfM and Orthority files',
     'tests cover one file per format',
     [PI, EX], [('CSV', 'CsvReader._convert, CsvReader.read_ext_param'), ('OpenSfM', 'OsfmReader.read_ext_param'), ('EXIF', '_read_exif_ext_param, exif.Exif'), ('Orthority', 'OtyReader.read_ext_param')])

prop('C07', 'Interior parameter readers preserve every intrinsic value',
     'For every camera in an Orthority, OpenDroneMap/OpenSfM or EXIF source, the reader returns the camera type, image size, focal length(s), sensor size, principal point offset and distortion coefficients that the source gives, in the units the camera model expects (normalised 35 mm focal lengths by 36 mm, dewarp data by the image size). A missing required value, an unknown camera type, or a coefficient the camera type does not have raises a parameter error.',
     [IN, CF], 'all camera dictionaries of each format, camera types and presence patterns of optional values',
     'tests cover one valid file per type and a few missing keys',
     [PI, EX], [('Orthority', 'read_oty_int_param'), ('OpenSfM', '_read_osfm_int_param'), ('EXIF', '_read_exif_int_param')])

prop('C08', 'Written parameter files read back to the same parameters',
     'Interior, exterior, RPC and GCP parameters written to Orthority files and read again are equal to the originals: every camera or image in the same order, every numeric value exactly, camera ids, GCP ids and notes included.',
     [IN], 'all parameter dictionaries a reader can return, with any finite values, names and numbers of entries',
     'tests round-trip one fixture per format, with benign names and values',
     [PI], [('interior', 'write_int_param, read_oty_int_param'), ('exterior', 'write_ext_param, OtyReader'), ('RPC', 'write_rpc_param, read_oty_rpc_param'), ('GCPs', 'write_gcps, read_oty_gcps')])

prop('C09', 'Malformed parameter files are rejected with a parameter error',
     'A parameter, GCP or exterior file whose content is well-formed YAML, JSON or CSV but does not have the documented structure, types or required values raises the package parameter error (or its CRS error) when read, never another exception and never a silent wrong result. A file with the documented structure is accepted, extra keys included where the format allows them.',
     [IN], 'all nested values in place of the documented structure',
     'tests cover a few deleted keys per format',
     [PI, CM], [('schema validation', 'common.validate_collection'), ('readers', 'read_oty_int_param, read_osfm_int_param, read_oty_rpc_param, read_oty_gcps, OsfmReader, OtyReader')])

prop('C10', 'Existing files are never overwritten unless asked',
     'Opening an existing file for writing, or any write operation on an existing output path, raises a file-exists error and leaves its content unchanged unless overwriting was requested; with it, the file is replaced by the new content. Reading never changes a file, and handles passed in already open are returned as they are and not closed.',
     [IN, CF, HI], 'all file kinds (path, path object, file system object, open handle), modes, and existing/missing states',
     'tests cover one path per writer',
     [CM, PI], [('text and binary files', 'common.Open'), ('rasters', 'common.OpenRaster'), ('writers', 'param_io.write_*')])

prop('C11', 'Tiles partition the image',
     'For every image size, block size and driver, the tile windows used for processing lie inside the image, are not empty, do not overlap, and together cover every pixel exactly once.',
     [IN, CF], 'all image widths and heights, block shapes, drivers',
     'tests use a few sizes; an off-by-one shows only for particular remainders',
     [CM], [('tiling', 'common.block_windows')],
     level_note='unbounded: all image and block sizes, by induction-free generic-tile argument')

prop('C12', 'Every ortho pixel is sampled at its own centre and written in its own place',
     'Each ortho pixel is filled, in every band, from the source position at which the camera sees the world point (x, y) at the centre of that pixel with the z of the DEM pixel at the same place, and is written at that pixel, independently of which tile it is in, of the tile sizes, of the order in which tiles complete, and of whether bands are processed together or one at a time (the dilation of nodata in undistorted images aside). The internal mask, when written, is invalid exactly where all bands processed together are nodata (the first band, when bands are processed one at a time).',
     [IN, CF, SC], 'all ortho sizes, tile sizes, transforms, band counts, band modes and tile completion orders',
     'tests compare outputs on one small image; whole-tile or sub-pixel shifts in later tiles pass loose tolerances',
     [O], [('grids', 'Ortho._remap'), ('tile', 'Ortho._remap_tile')])

prop('C13', 'DEM windows, crops and reprojection keep the DEM georeferenced and complete',
     'The portion of the DEM used for an ortho contains the image footprint for all heights in it (where the DEM covers it), and each retained DEM cell keeps its world position and value through windowing, cropping and masking; DEM nodata becomes NaN. Cells outside the footprint polygon are masked and all valid cells inside it are kept.',
     [IN, CF], 'all DEM transforms, window positions, nodata patterns and footprints',
     'tests use two DEMs that contain the footprint with wide margins',
     [O, CM], [('window to grid', 'common.expand_window_to_grid'), ('initial DEM', 'Ortho._get_init_dem'), ('crop and mask', 'Ortho._mask_dem')])

prop('C14', 'Remapping marks exactly the unfilled pixels as nodata',
     'Remapping an image to world coordinates returns, for every band, the interpolated source value where the point projects inside the source, and the nodata value where it projects outside or has a NaN coordinate, for every supported data type, nodata value including NaN, and when nodata is not given. The returned mask is true exactly where all bands are nodata, except that for undistorted images with interpolation and a number as nodata, it is dilated by the given kernel and the dilated pixels are set to nodata.',
     [IN, CF], 'all image sizes, band counts, coordinates, NaN patterns, data types, nodata values, interpolation types, camera settings',
     'tests check fractions of valid pixels on one image',
     [C, CM], [('remap', 'Camera.remap'), ('dilation', 'FrameCamera.remap'), ('NaN comparison', 'common.nan_equals')])

prop('C15', 'Output image profiles follow the documented configuration rules',
     'For every driver, data type, compression, mask and creation option setting, the output image is configured as documented: JPEG by default for uint8 and DEFLATE otherwise, 12 bit JPEG for uint16, an error for JPEG with other types or for unsupported types, YCbCr for 3 band JPEG GeoTIFFs, 512 pixel tiles, a mask by default only with JPEG, nodata unset when a mask is written and otherwise the value for the data type, and user creation options replacing all others. Overviews halve the resolution at each level, down to no smaller than 256 pixels and at most 8 levels.',
     [CF], 'the full product of drivers, data types, compressions, band counts, mask and creation option settings, image sizes',
     'tests sample the combinations',
     [CM], [('profile', 'common.create_profile'), ('overviews', 'common.build_overviews')])

prop('C16', 'Data type conversion rounds to nearest and saturates',
     'Converting an array to an integer type gives, for every finite value, the nearest integer limited to the range of the type, with no wrap-around; conversion to a type that can hold every value changes no value; conversion to float types is numerically nearest.',
     [IN, CF], 'all values and all pairs of source and destination data types',
     'tests sample a few values around the limits',
     [CM], [('conversion', 'common.convert_array_dtype')])

prop('C17', 'Pan-sharpening statistics equal whole-image statistics',
     'The pan and multispectral means and covariances that are used for pan-sharpening equal the mean and unbiased covariance over all pixels that are valid in the pan and in all of the multispectral bands used, at the multispectral resolution, whatever the tiling, the validity pattern (including fully masked tiles) and the order in which tiles complete.',
     [IN, SC], 'all image contents, masks, numbers of tiles and completion orders',
     'tests use a single tile with one mask',
     [PS], [('statistics', 'PanSharpen._get_stats')])

prop('C18', 'Pan-sharpening is the Gram-Schmidt component substitution',
     'Each sharpened band equals the multispectral band plus its injection gain (covariance of the band with the simulated pan over the variance of the simulated pan) times the difference between the pan, normalised to the mean and standard deviation of the simulated pan, and the simulated pan (weighted multispectral sum). Weights are non-negative and sum to 1: the normalised user weights, or those estimated by least squares. Pixels that are nodata in the pan or in any multispectral band are nodata in all output bands.',
     [IN, CF], 'all covariances, means, weights, band counts and pixel values',
     'tests compare statistics of one output with its input',
     [PS], [('parameters', 'PanSharpen._get_params'), ('transform', 'PanSharpen._process_tile_array'), ('tile', 'PanSharpen._process_tile')])

prop('C19', 'Pan-sharpened output is on the pan grid over the shared bounds',
     'The pan and multispectral grids used for pan-sharpening are whole-pixel subsets of the pan and multispectral pixel grids that both cover the overlap of the two images; images without georeferencing are taken to share the bounds of the other. Images that do not overlap, or a pan image of coarser resolution, raise an error. Every output pixel is written once, at its place on the pan grid, in every band.',
     [IN, CF], 'all image sizes, transforms and relative placements, georeferenced or not, and tilings',
     'tests use images with matching bounds',
     [PS], [('grids', 'PanSharpen._get_vrt_profiles'), ('process', 'PanSharpen.process'), ('validation', 'PanSharpen._validate_pan_ms_params')])

prop('C20', 'Camera collections return the camera of the requested image, in any order',
     'For every sequence of requests to a camera collection, the camera returned for an image has, until the next request, the interior parameters of its camera id and the exterior (or RPC) parameters of that image, matched by file name or else by stem; unknown images raise an error. RPC cameras requested after a refinement are refined. Inputs passed in are not modified.',
     [HI, CF], 'all sequences of get and refine calls over any sets of image names and cameras',
     'tests make single requests',
     [FA], [('frame cameras', 'FrameCameras.get'), ('RPC cameras', 'RpcCameras.get, RpcCameras.refine')])

prop('C21', 'World CRS resolution follows the documented precedence',
     'The world CRS is the one the user supplies, else the one of the parameter file or its sidecar (an Orthority exterior file always defines the world CRS of its own positions), else the UTM zone of the mean camera position or reconstruction reference (zone from longitude in 6 degree steps, hemisphere from the sign of latitude, also across the antimeridian), else that of the source image. An error is raised if none applies where one is needed, or if the user or sidecar CRS is not valid or not projected.',
     [IN, CF], 'all latitudes and longitudes, and presence patterns of user, file and image CRSs for every format',
     'tests sample one location and a few patterns',
     [CM, PI, O, FA], [('UTM zone', 'common.utm_crs_from_latlon'), ('CSV', 'CsvReader._get_crs'), ('validation', 'FrameReader._parse_crss'), ('ortho', 'Ortho._parse_crs')])

prop('C22', 'Footprints are the projected image boundary; horizon views are rejected',
     'The default pixel boundary is the image corners and the mid-points of its sides; with a number of points, each side has its share of evenly spaced points, all on the border of the image. The world boundary at a height is the back-projection of the pixel boundary, with the height limited to the camera height. The footprint on a DEM is, for each boundary pixel, the first of the points sampled along its ray (from the DEM maximum or the camera height down to the DEM minimum, no more than a DEM pixel apart) that is at or below the DEM surface, or the point at the minimum height if there is none. A frame camera that sees the horizon with any of its boundary pixels raises an error.',
     [IN, CF], 'all image sizes, numbers of boundary points, camera orientations and DEMs',
     'tests use a flat or gently sloping DEM',
     [C], [('pixel boundary', 'Camera.pixel_boundary'), ('surface intersection', 'Camera._pixel_to_world_surf'), ('horizon', 'FrameCamera._horizon_fov, FrameCamera.world_boundary')])

prop('C23', 'GCPs keep their pixel/world correspondence through reading and fitting',
     'GCPs read from images or files keep each pixel coordinate with its own world coordinate, in longitude, latitude, ellipsoidal height, in order and grouped by image, with pixel coordinates at pixel centres. A GCP file that is not an Orthority GCP file raises an error. Fitting a frame exterior to GCPs gives the camera for which the GCPs project to their pixels, using each image\'s own GCPs and the camera\'s own interior. Refining an RPC model with exact shifted or shifted-and-scaled GCPs gives a model that projects the GCPs to their pixels, and leaves the model it was given unchanged; too few GCPs raises an error.',
     [IN, CF], 'all GCP sets and CRSs',
     'tests use one GCP set per camera type',
     [PI, FI], [('image GCPs', 'read_im_gcps'), ('exterior', 'fit.fit_frame_exterior'), ('frame', 'fit._fit_frame'), ('RPC', 'fit.refine_rpc')])

prop('C24', 'Command line options reach the library as given',
     'Every command line option of every sub-command that configures processing reaches the library call with the value given, or the documented default, for every source file, independently of the other files in the same command.',
     [CF, HI], 'all sub-commands, option values and lists of source files',
     'tests run one file per option',
     ['orthority/cli.py'], [('ortho', 'cli._ortho'), ('commands', 'cli.frame, cli.exif, cli.odm, cli.rpc, cli.sharpen')])
