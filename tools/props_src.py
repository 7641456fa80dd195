# Source of properties.jsonl (python3 tools/props_src.py > properties.jsonl)
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

O = "opensfm/"
p("T01", "Tracks are exactly the duplicate-free connected components of the matches",
  "Linking pairwise matches yields one track per connected component of the graph whose nodes are (image, feature) and whose edges are the matches; a component yields no track exactly when it has fewer features than the minimum length or holds two features of one image. Every observation stored in a track carries the position, scale, colour, segmentation label, instance label and depth prior of precisely the feature it stands for, and a missing label is stored as 'no value'.",
  ["inputs"], "all match graphs (which features coincide is arbitrary), minimum lengths, feature tables, labels and depths, including feature tables missing for some image",
  "Tests check one or two hand-made match lists; the claim is over every coincidence pattern of feature ids and every order of matches.",
  [O+"tracking.py", O+"unionfind.py"], [("linking of matches into tracks", O+"tracking.py:create_tracks_manager"), ("union-find", O+"unionfind.py:UnionFind"), ("track acceptance", O+"tracking.py:_good_track")])
p("M01", "Descriptor matching keeps exactly ratio-test and mutual matches",
  "A one-way match from a feature to a feature is kept exactly when the nearest descriptor distance is strictly below the configured ratio times the second nearest distance, and symmetric matching keeps exactly the pairs accepted in both directions, oriented as (first image, second image). This holds for the exhaustive and the index-based matcher, with and without a pair mask (a masked pair is never matched and never a second nearest); the symmetric word-based matcher keeps exactly the pairs its native one-way matcher accepts in both directions.",
  ["inputs"], "all distance tables returned by the nearest-neighbour back end, all ratios, all pair masks",
  "Tests run one synthetic image pair with clearly separated descriptors; ties, reversed orientation and ratio borders are never reached.",
  [O+"matching.py"], [("ratio test and mutual check", O+"matching.py:match_brute_force, match_flann, *_symmetric, match_words_symmetric")])
p("M02", "Match filters remove only what they document and keep original feature numbers",
  "The optional match filters return a sub-sequence of their input: a match disappears exactly when it is static (unless more than 85% of all matches would go), lies outside the admissible latitude of a panorama, or lies in the watermark area of the corresponding camera. Matches computed on masked features are reported with the numbers those features have in the unmasked feature table, on both sides.",
  ["inputs", "configurations"], "all feature positions, match lists, camera kinds and image makers, and all feature masks",
  "No test calls the filters with features near the borders or with different masks on both images.",
  [O+"matching.py"], [("filters", O+"matching.py:apply_adhoc_filters"), ("renumbering", O+"matching.py:unfilter_matches")])
p("M03", "Stored matches keep their orientation whichever image stores them",
  "When the matches of a set of image pairs are saved under reference images, every pair is stored exactly once, under an image of the pair that is a reference image, and the first column always numbers features of the image the record is stored under. Loading back the matches of a set of images, or asking for the matches of a pair in either order, returns the same correspondences with columns following the requested order, and an unreachable pair is an error, not silently dropped.",
  ["inputs", "histories"], "all sets of pairs and reference images, all match lists, and both query orders",
  "Tests save and reload matches only for pairs ordered as they were matched.",
  [O+"matching.py", O+"dataset_base.py", O+"dataset.py", O+"tracking.py"], [("saving under reference images", O+"matching.py:save_matches"), ("lookup in both orders", O+"dataset.py:find_matches"), ("loading", O+"tracking.py:load_matches")])
p("S01", "Pair selection returns canonical, unique, admissible image pairs",
  "Every selected candidate pair joins a reference image with a different candidate image, is listed once in canonical order, and no unordered pair appears twice. With the time or distance rule, a reference image is paired exactly with its k nearest candidates under that rule (ties aside), restricted to the maximum distance when one is given, at any altitude; with the order rule, images of one list at most half the neighbour count (rounded up) apart are paired; with the graph rule, exactly the edges of the triangulations are used; by appearance, with the k nearest candidates by descriptor distance, or on request the k nearest taken by the same camera and the k nearest of other cameras. When the position of some image is missing, the distance and graph rules are off for all, and with no rule left all pairs are selected.",
  ["inputs", "configurations"], "all positions, capture times and orders, neighbour counts and maximum distances, with overlapping or distinct reference and candidate sets",
  "Tests use a fixed lattice of positions with well separated neighbours, where most wrong selections give the same pairs.",
  [O+"pairs_selection.py"], [("distance rule", O+"pairs_selection.py:match_candidates_by_distance"), ("time rule", O+"pairs_selection.py:match_candidates_by_time"), ("order rule", O+"pairs_selection.py:match_candidates_by_order"), ("merging", O+"pairs_selection.py:match_candidates_from_metadata")])
p("F01", "Pixel and normalized image coordinates are exact inverses",
  "Converting pixel coordinates to the normalized convention (origin at the image centre, scaled by the larger image side) and back returns the original coordinates, the image centre maps to the origin, the larger side spans one unit and axis directions are preserved. The Python helpers, in scalar and array form and for keypoint sizes, and the native camera conversion agree with each other.",
  ["inputs"], "all pixel positions, keypoint sizes and image sizes",
  "A test converts a handful of points of one image size.",
  [O+"features.py", O+"src/geometry/src/camera.cc"], [("conversion", O+"features.py:normalized_image_coordinates, denormalized_image_coordinates, normalize_features"), ("native conversion", O+"src/geometry/src/camera.cc:PixelToNormalizedCoordinates")])
p("F02", "Masking, sorting and saving feature tables never misaligns their columns",
  "Selecting a subset of features selects the same features, in the same order, in points, descriptors, colours, semantic labels, instance labels and depths. The feature bundle written to storage is read back with every table identical, in particular labels stay attached to their feature.",
  ["inputs"], "all masks, all presence/absence combinations of optional tables, all values",
  "One test round-trips one bundle; absent tables and masks are not combined.",
  [O+"features.py", O+"feature_loading.py"], [("masking", O+"features.py:FeaturesData.mask"), ("save/load", O+"features.py:FeaturesData.save, from_file"), ("masked loading", O+"feature_loading.py:FeatureLoader")])
p("E01", "EXIF focal length and sensor data give the right normalized focal",
  "The relative focal computed from image metadata equals the 35 mm focal divided by 36 when that is given, else the focal divided by the sensor width when both are known, and unknown otherwise, for every unit of the focal plane resolution (the sensor width being the image width over that resolution, else the known width of the camera model); a zero or missing value never makes it infinite or negative. The camera built from it carries the image size and projection of the metadata and a calibration (focal, principal point, distortion) given by the hard-coded entry of the camera, the metadata or the default focal prior, in that order of preference, whatever images were processed before.",
  ["inputs", "configurations"], "all values and presence combinations of the metadata tags",
  "Tests read a few sample tag sets; the combination of absent, zero and unit tags is not covered.",
  [O+"exif.py"], [("focal computation", O+"exif.py:compute_focal"), ("sensor width", O+"exif.py:sensor_string, camera_id"), ("camera from EXIF", O+"exif.py:camera_from_exif_metadata")])
p("E02", "GPS position and capture time tags are decoded exactly",
  "Degrees, minutes and seconds with a hemisphere decode to the signed decimal coordinate, altitude is negative exactly when the reference says below sea level (and capped at 10 km), and a position with an undefined component is not reported; positions in drone metadata take precedence.  A capture time with sub-seconds and a time-zone offset decodes to the corresponding UTC instant for every sign and minute part of the offset, and GPS date and time to their UTC instant; the first valid time stamp wins, and an invalid one never yields a time.",
  ["inputs"], "all tag values, hemispheres, altitude references, offsets and sub-second strings",
  "Tests read a few sample images; offsets with minutes and negative offsets are not covered.",
  [O+"exif.py"], [("GPS", O+"exif.py:EXIF.extract_lon_lat, extract_altitude"), ("time", O+"exif.py:EXIF.extract_capture_time")])
p("G01", "Geodetic, earth-centred and local frames are consistent",
  "Converting geodetic coordinates to earth-centred coordinates follows the WGS84 ellipsoid, and the local frame at a reference is the right-handed east-north-up frame there: the reference maps to zero, distances are preserved, a position h metres up the ellipsoid normal at the reference maps to (0,0,h). Converting earth-centred or local coordinates of a position back gives the position (exactly in longitude everywhere and in all coordinates on the ellipsoid and the polar axis), and a topocentric converter answers exactly like the plain conversions for the reference it was built with.",
  ["inputs"], "all reference positions and all points",
  "Doctests check one or two points in one hemisphere.",
  [O+"geo.py"], [("frames", O+"geo.py:ecef_from_topocentric_transform, topocentric_from_lla, lla_from_topocentric"), ("geodetic", O+"geo.py:ecef_from_lla, lla_from_ecef"), ("converter", O+"geo.py:TopocentricConverter")])
p("G02", "Rotation conventions from flight angles and viewing angles invert each other",
  "Building a camera rotation from tilt angles (pan, tilt, roll), photogrammetric angles (omega, phi, kappa) and extracting the angles back returns the same rotation for all angles away from gimbal lock, every constructed matrix is a proper rotation, and zero angles give the documented base orientation.",
  ["inputs"], "all angle triples",
  "Tests try a few angles.",
  [O+"geometry.py"], [("pan/tilt/roll", O+"geometry.py:rotation_from_ptr, ptr_from_rotation"), ("omega/phi/kappa", O+"geometry.py:rotation_from_opk, opk_from_rotation")])
p("G03", "Track-log interpolation stays on the log",
  "The position interpolated from a GPS track at a time inside the log lies on the segment between the two fixes that bracket the time, at the fraction of the time elapsed, for latitude, longitude and (where both fixes have one) elevation alike; at a fix time it equals the fix. A time before the first fix, or not before the last one, is refused. Resampling a log by time gives fixes on the log at the exact spacing. Decimal degrees turned to degree/minute/second tags, and the position tags written to an image, represent the same position up to the resolution of the tags, with the hemisphere and altitude reference of the right sign.",
  ["inputs"], "all logs sorted by time, all query times, all positions",
  "Tests do not cover this module.",
  [O+"geotag_from_gpx.py"], [("interpolation", O+"geotag_from_gpx.py:interpolate_lat_lon"), ("resampling", O+"geotag_from_gpx.py:sample_gpx"), ("tags", O+"geotag_from_gpx.py:to_deg, add_gps_to_exif, add_exif_using_timestamp")])
p("A01", "Applying a similarity to a reconstruction leaves every reprojection unchanged",
  "Scaling, rotating and translating a reconstruction moves every point by that similarity and moves every camera, including all cameras of multi-camera rigs, so that each camera sees each point in exactly the same direction as before, and camera centres move by the same similarity. Colours, calibration and observations are unaffected.",
  ["inputs"], "all similarities, poses, rig geometries and points",
  "Tests align one synthetic reconstruction; scale and rigs together are not covered.",
  [O+"align.py"], [("similarity", O+"align.py:apply_similarity, apply_similarity_pose")])
p("A02", "Alignment to GPS and ground control recovers an exact similarity",
  "If measured image positions (or ground control points) are exactly a similarity of the reconstructed ones, aligning the reconstruction maps every camera centre onto its measured position by a rotation, a positive scale and a translation, and moves images without position and points along: with the direct method whenever the positions are not on a line (one or two positions: as far as they determine it), with the orientation-prior method (no_roll, horizontal, vertical; any EXIF rotation) for level cameras at one height, with the horizon then horizontal and the cameras upright or looking down, and with the method picked automatically. A reconstruction with multi-camera rigs keeps its scale. With compensation of the position bias, the reconstruction is aligned to the ground control points only and each camera's bias takes measured positions to reconstructed ones.",
  ["inputs"], "all reconstructions and all true similarities (bounded number of images)",
  "Tests align one synthetic scene.",
  [O+"align.py", O+"multiview.py"], [("alignment", O+"align.py:align_reconstruction, compute_naive_similarity, compute_orientation_prior_similarity, set_gps_bias"), ("ground plane", O+"multiview.py:fit_plane, plane_horizontalling_rotation")])
p("R01", "Rig assignment partitions images into instances",
  "Grouping images by rig naming patterns puts every image exactly once in an instance or among the single images: an image belongs to the first rig camera whose pattern removes a part, but not the whole, of its name; two images share an instance exactly when what is left of their names agrees; images matching no pattern are single images. The assignments read back from their file (also the old list form) give every image its instance, rig camera and fellow images, and a reconstruction started from measured positions holds all positioned images of an instance in that instance, with their rig camera and its calibration, and every unassigned image in an instance of its own.",
  ["inputs", "configurations"], "all image name sets and patterns within the bound, all assignments, positions and rig calibrations",
  "Tests use one naming pattern and a complete image set.",
  [O+"rig.py", O+"reconstruction_helpers.py", O+"dataset.py"], [("grouping", O+"rig.py:create_instances_with_patterns, group_instances"), ("assignments per image", O+"rig.py:rig_assignments_per_image"), ("initial reconstruction", O+"reconstruction_helpers.py:reconstruction_from_metadata")])
p("R02", "Rig calibration is relative to the rig and independent of the frame",
  "Rig camera poses derived from completely reconstructed instances reproduce the relative poses between the cameras of every instance when the instances are consistent, wherever each instance lies in the world, also when some instances hold fewer cameras than others; incomplete instances are not used. Adding an image of a rig to a reconstruction by its pose adds all images of its instance, gives that image that pose and the others the pose following from the rig calibration, and moves nothing else.",
  ["inputs"], "all poses and rig geometries",
  "Tests calibrate one rig from one reconstruction.",
  [O+"rig.py", O+"reconstruction.py"], [("relative poses", O+"rig.py:compute_relative_pose"), ("calibration", O+"rig.py:create_rig_cameras_from_reconstruction"), ("adding an image", O+"reconstruction.py:add_shot")])
p("I01", "Camera models survive every stored form",
  "Writing any camera model to its JSON object, to its parameter vector or to a calibration file entry and reading it back gives a camera with the same projection type, image size and every parameter value, for each supported projection type.",
  ["inputs"], "all parameter values for all projection types",
  "Tests use a few cameras with default parameters (many zero), where swapped parameters are invisible.",
  [O+"io.py", O+"types.py"], [("JSON", O+"io.py:camera_to_json, camera_from_json"), ("vector", O+"io.py:camera_to_vector, camera_from_vector")])
p("I02", "Reconstructions survive the JSON file format",
  "Writing a reconstruction to the JSON object and reading it back restores every camera, bias, rig camera, rig instance, shot (pose, camera, scale, merge and covariance data, and the measured orientation, capture time, position and accuracy, gravity, compass and sequence), panorama shot, point (coordinates, colour) and the geographic reference with the same values and the same references between them. Absent optional measurements stay absent.",
  ["inputs"], "all values and all presence combinations of optional fields for bounded reconstructions",
  "One test round-trips one small sample file.",
  [O+"io.py"], [("JSON", O+"io.py:reconstruction_to_json, reconstruction_from_json, shot_to_json, json_to_*")])
p("I03", "Ground control points survive both file formats",
  "A ground control point file in the line format or in the JSON format gives one point per distinct world position (line format) or entry (JSON format) with all its image observations, in normalized coordinates of the right image, and its geodetic position converted from the declared coordinate system, with unknown height kept unknown; lines of images outside the dataset are ignored. Writing to the JSON format and reading it back returns the same points and observations.",
  ["inputs"], "all coordinates, heights including unknown ones, image sets and observation patterns within the bound",
  "Tests read one or two sample files with known heights.",
  [O+"io.py"], [("line format", O+"io.py:_read_gcp_list_lines"), ("JSON format", O+"io.py:read_ground_control_points, write_ground_control_points")])
p("I04", "Point-cloud files describe every vertex they announce",
  "A written point-cloud file announces exactly as many vertices as it holds, holds one line per reconstructed point (with its colour and, on request, its number of views) and per exported vertex of the camera axes (starting at the camera centre, along the axes of the camera in the world), with coordinates, normals, colours and labels in the announced column order, and reading it back returns the same points, normals, colours and labels row by row.",
  ["inputs"], "all point values and all combinations of optional exports",
  "One test compares one small file.",
  [O+"io.py"], [("PLY", O+"io.py:reconstruction_to_ply, point_cloud_to_ply, point_cloud_from_ply")])
p("D01", "The automatic geographic reference lies within the measured positions",
  "The reference position invented for a dataset is the mean of the measured image latitudes and longitudes weighted by their accuracy (so within their range), at altitude zero; without any measured image position it is the mean of the known ground control points. It depends on the set of measurements and not on the order of images, images without a complete position do not influence it, and a reference already stored is kept and read back unchanged.",
  ["inputs", "configurations"], "all GPS positions, accuracies and missing fields for bounded numbers of images",
  "Tests use one dataset.",
  [O+"dataset.py", O+"dataset_base.py"], [("reference", O+"dataset.py:invent_reference_from_gps_and_gcp")])
p("L01", "Splitting into submodels loses no image",
  "Clustering positions and adding neighbours within the overlap distance gives clusters whose core parts cover every image exactly once, each extended cluster contains its core, and an image is added exactly when it lies within the given distance of a core image; the saved submodel image lists hold these images only.",
  ["inputs"], "all positions, clusterings and overlap distances within the bound",
  "Tests use one small set of positions.",
  [O+"large/tools.py", O+"large/metadataset.py"], [("neighbours", O+"large/tools.py:add_cluster_neighbors"), ("clusters", O+"large/metadataset.py")])
p("L02", "Submodel alignment transforms invert and compose exactly",
  "The similarity stored for a submodel and its inverse compose to the identity. Every image of every partial reconstruction constrains the alignment with its own pose, measured position and accuracy, points are linked only between reconstructions sharing images, and when the submodels differ by similarities the aligned reconstructions hold all images and points with camera poses and coordinates that coincide in the common frame.",
  ["inputs"], "all similarities, points and camera poses",
  "Tests align one synthetic split.",
  [O+"large/tools.py"], [("inverse", O+"large/tools.py:invert_similarity"), ("constraints", O+"large/tools.py:align_reconstructions"), ("action", O+"actions/align_submodels.py")])
p("B01", "Triangulated points satisfy the configured acceptance tests",
  "Triangulating tracks hands the kernels exactly the rays (camera centre and world direction) of all reconstructed images observing a track, from their current poses, with the configured thresholds, minimum angle and depth; a track becomes a point exactly when at least two images observe it and the kernel accepts, at the refined position, with exactly those observations. In robust mode a track whose observations partly agree on a point becomes that point with the largest agreeing set and no other observation (when the random draws cover all pairs), and never a point without two agreeing observations. Existing points stay when images are added; retriangulation starts anew.",
  ["inputs", "fault_sequences"], "all observation sets, poses and outcomes of the triangulation kernel for bounded numbers of images",
  "Tests triangulate perfect observations.",
  [O+"reconstruction.py"], [("acceptance", O+"reconstruction.py:TrackTriangulator")])
p("B02", "Outlier removal keeps exactly the inlier observations",
  "Removing outliers drops exactly the observations (of the points looked at) whose reprojection error exceeds the fixed or automatic threshold, all components counted, then exactly those points that lost an observation and are left with fewer than two; no other point, observation, error or image changes, the number removed is returned, and a second pass removes nothing.",
  ["inputs"], "all reprojection error tables and observation graphs within the bound",
  "No test inspects which observations disappear.",
  [O+"reconstruction.py"], [("outlier removal", O+"reconstruction.py:remove_outliers")])
p("B03", "Incremental reconstruction puts each image in at most one reconstruction",
  "For every outcome of bootstrapping, resection and growing, each image ends in at most one of the reconstructions returned, all images of a rig instance end in the same one, and the reported remaining images are exactly the rest. Reconstructions are returned largest first, every start that works is kept, a reconstruction grows until no remaining image that sees enough of its points can be added, and the procedure terminates. Reconstructing from known poses keeps their images, poses and reference and reports the others as not reconstructed.",
  ["inputs", "fault_sequences"], "all pair rankings and all success/failure outcomes of the numeric steps for bounded numbers of images",
  "Tests reconstruct one connected synthetic scene where every step succeeds.",
  [O+"reconstruction.py"], [("driver", O+"reconstruction.py:incremental_reconstruction")])
p("U01", "Undistorted panorama faces and tracks see the same scene points",
  "The six undistorted perspective views of a panorama share its centre, are square mutually orthogonal 90-degree views under fixed names, one rig instance, that together cover every direction; an observation of the panorama appears in exactly the view its viewing direction goes through, where that direction projects there, and each pixel of a rendered view is sampled where its direction projects in the panorama. Views of other images keep pose, size, measurements and mean focal and have no distortion; images unknown to the dataset are left out, reference and points are kept, and the saved list names the views of each image. Reducing an image to a maximum size keeps its aspect.",
  ["inputs"], "all panorama poses, face sizes, viewing directions and camera parameters",
  "Tests compare a few pixels.",
  [O+"undistort.py"], [("views", O+"undistort.py:undistort_reconstruction, perspective_views_of_a_panorama"), ("tracks", O+"undistort.py:add_subshot_tracks, add_pano_subshot_tracks"), ("cameras", O+"undistort.py:perspective_camera_from_*"), ("rendering", O+"undistort.py:undistort_image, render_perspective_view_of_a_panorama, scale_image")])
p("K01", "Feature masks keep exactly the features on valid pixels",
  "A feature of the image is kept exactly when the pixel it falls on, whatever the EXIF orientation of the image and the resolution of the mask, is not zero in the user mask and its segmentation label is not ignored; masks of different sizes are combined pixel by pixel. Detection keeps position, size, descriptor, colour and label of each feature together while sorting by size and dropping masked features, and loading features or words with labels baked in drops exactly the features whose label is ignored or that lie outside the user mask.",
  ["inputs"], "all feature positions, image sizes, orientations, mask sizes and mask values within the bound",
  "Tests use an all-valid mask.",
  [O+"masking.py", O+"features_processing.py", O+"feature_loading.py", O+"upright.py"], [("masks", O+"masking.py:load_features_mask, mask_from_segmentation, combine_masks"), ("detection", O+"features_processing.py:detect, bake_segmentation"), ("loading", O+"feature_loading.py:FeatureLoader"), ("orientation", O+"upright.py:opensfm_to_upright")])
p("V01", "Camera matrix, plane, homography and pose helpers satisfy their defining equations",
  "A projection matrix composed from calibration, rotation and translation factors back into the same three, whatever its scale and sign; homogeneous coordinates, cross product matrices, angles between vectors and decomposed similarity transforms mean what they say. The plane fitted to points and directions that lie on a plane contains them and faces the given verticals, and the rotation made from a plane is a rotation that makes its normal vertical. A camera rotation made from an up vector and a compass angle is a rotation that has them. Each of the eight motions computed from a plane homography is a rotation, translation and plane that induce that homography, and they all differ; focal length and rotation are recovered from the homography of a rotating camera. Poses wrapped from the native robust estimators and refinement are the inverses of the native ones, and a ground control point is triangulated from exactly the rays of the reconstructed images that observe it.",
  ["inputs"], "all calibrations, rotations, translations, planes, directions and homographies in general position",
  "Tests use random samples of one configuration each.",
  [O+"multiview.py"], [("P matrices", O+"multiview.py:P_from_KRt, KRt_from_P"), ("homographies", O+"multiview.py:motion_from_plane_homography, focal_from_homography, R_from_homography"), ("planes", O+"multiview.py:fit_plane, plane_horizontalling_rotation"), ("estimators", O+"multiview.py:*_ransac, relative_pose_optimize_nonlinear"), ("control points", O+"multiview.py:triangulate_gcp")])
p("V02", "Two-view reconstruction returns the motion with the most support",
  "A correspondence supports a relative motion exactly when its rays triangulate and the point projects within the threshold of both bearings. Of the motions a plane homography allows, of an essential motion refined on its support and its reversal, and of both methods, the motion returned is one with the most support, as the pose of the second camera, together with exactly the correspondences that support it; an essential motion needs more than five, and a motion and its reversal that cannot be told apart give none. A rotation between two images comes with exactly the correspondences it explains, and the image pairs to start from are exactly those a rotation does not explain, best first.",
  ["inputs", "fault_sequences"], "all motions, thresholds and outcomes of the numeric estimators for bounded numbers of correspondences",
  "Tests never compare the support of alternative motions.",
  [O+"reconstruction.py", O+"matching.py"], [("support", O+"matching.py:compute_inliers_bearings"), ("choice", O+"reconstruction.py:two_view_reconstruction_*"), ("ranking", O+"reconstruction.py:compute_image_pairs, pairwise_reconstructability")])
p("Q01", "Homogeneous transformation algebra is consistent",
  "Rotation matrices, unit quaternions, axis and angle, and Euler angles in all 24 axis conventions convert into each other without changing the rotation they describe; quaternion products, conjugates and inverses correspond to matrix products and inverses, and interpolation between two quaternions moves on the great circle between them. Translation, reflection, scaling, projection, shear and clipping matrices move every point as their definition says, composing a transformation from its scale, shear, angles, translation and perspective factors and decomposing it returns an equal transformation, axes, mirror planes and scalings are recovered from matrices, and point sets moved by a rigid, similarity or affine transformation are registered to it.",
  ["inputs"], "all angles, axes, quaternions and points",
  "Doctests use random samples and mostly check one convention.",
  [O+"transformations.py"], [("rotations", O+"transformations.py:euler_matrix, quaternion_matrix, rotation_matrix, ...")])
p("C01", "Native poses and similarities stay consistent under every change",
  "A native camera pose holds one rigid motion: whichever way it is constructed, set from a matrix, rotation, rotation vector, translation or origin in either direction, composed, made relative, inverted or copied, its forward and inverse matrices, rotations, rotation vectors, translations, origin and point transforms all describe that same motion, and a change of one part keeps the other. Rotation vectors and matrices convert into each other exactly, an immutable pose refuses every change, and a similarity transform, its parts and its inverse agree.",
  ["inputs"], "all poses, rotations, translations, origins, points, scales and bounded sequences of operations",
  "The gtests set a pose once and read a few members.",
  [O+"src/geometry/pose.h", O+"src/geometry/similarity.h"], [("poses", O+"src/geometry/pose.h:Pose"), ("similarities", O+"src/geometry/similarity.h:Similarity")])
p("C02", "Native camera models project, unproject and describe themselves consistently",
  "Every native camera model (perspective, Brown, the fisheye family, dual, radial, spherical) projects a point to its documented image; its bearings are unit vectors that invert the projection, for distorted lenses within the solver tolerance wherever the distortion is moderate and also on the optical axis; single and batched calls agree. Pixel and normalized coordinates convert into each other for every image size, the calibration and projection matrices describe the same camera, every parameter is readable and settable under its name and survives the change of another one, a wrong number of distortion coefficients is refused, and the pixel mapping between two cameras sends each pixel to the place its viewing ray is seen.",
  ["inputs"], "all camera models, parameter values, points, viewing directions and image sizes",
  "The gtests project one point per model and undistort a few more with fixed parameters.",
  [O+"src/geometry/camera.cc", O+"src/geometry/camera_projections_functions.h", O+"src/geometry/camera_distortions_functions.h"],
  [("cameras", O+"src/geometry/camera.h:Camera"), ("projections", O+"src/geometry/camera_projections_functions.h"), ("undistortion", O+"src/foundation/newton_raphson.h:NewtonRaphson")])
p("C03", "Analytic projection derivatives are the true derivatives",
  "The derivatives used by bundle adjustment and the covariance estimates equal the true derivatives of the projection with respect to the point, every camera parameter and the pose, for every camera model, for a camera alone and composed with a camera pose, with a rig camera inside a rig instance, and in the variant with normalized camera-frame points; the projected value computed along with them is the plain projection.",
  ["inputs"], "all camera models, parameter values, points and poses",
  "The gtests compare with automatic differentiation at one point per model.",
  [O+"src/geometry/functions.h", O+"src/geometry/transformations_functions.h", O+"src/geometry/camera_instances.h"],
  [("projections", O+"src/geometry/camera_projections_functions.h"), ("poses", O+"src/geometry/transformations_functions.h"), ("composition", O+"src/geometry/functions.h")])
p("C04", "Bundle adjustment optimizes exactly the problem it was given",
  "The least squares problem that bundle adjustment hands to the solver contains, for every observation, prior and constraint that was added, exactly one term with its documented residual, uncertainty, robust loss and parameters, and no others: reprojections (plain, rig and depth-weighted, with GPS bias), positions, attitudes, camera, rig and point priors, relative motions, rotations and similarities, common positions, linear motion, heatmaps, gauge. What was declared constant is held fixed, everything starts from the values given, scales are bounded away from zero, and the values the solver ends with are the ones read back, together with the reprojection errors at those values.",
  ["inputs", "operation_histories"], "all parameter values, observations, uncertainties and combinations of bounded numbers of cameras, rigs, shots and points",
  "The gtests and Python tests solve a few small problems and compare the optimum loosely; a wrong weight, loss or parameter rarely moves it.",
  [O+"src/bundle/src/bundle_adjuster.cc", O+"src/bundle/error", O+"src/bundle/data"],
  [("problem", O+"src/bundle/src/bundle_adjuster.cc:BundleAdjuster::Run"), ("residuals", O+"src/bundle/error/*.h"), ("errors", O+"src/bundle/src/bundle_adjuster.cc:ComputeReprojectionErrors")])
p("C05", "Aligning reconstructions optimizes exactly the problem it was given",
  "The least squares problem that the alignment of reconstructions hands to the solver contains exactly one term for every relative motion, absolute position, position within a reconstruction, common point and common camera constraint that was added, with its documented residual, uncertainty or scale matrix, robust loss and parameters. Shots and reconstructions declared constant are held fixed, the scales of the others are bounded away from zero, all start from the values given, replacing one replaces all of it, and the values the solver ends with are read back.",
  ["inputs"], "all poses, scales, points, positions, uncertainties and scale matrices for bounded numbers of reconstructions and shots",
  "The Python tests align two small exact problems, whose optimum does not depend on weights or losses.",
  [O+"src/bundle/reconstruction_alignment.h"], [("problem", O+"src/bundle/reconstruction_alignment.h:ReconstructionAlignment::Run"), ("residuals", O+"src/bundle/reconstruction_alignment.h:RA*Error")])
p("C06", "Tracks agree from the image side and from the track side, and survive merging and saving",
  "After any sequence of adding, replacing and removing observations, what a tracks manager tells for an image, for a track and for single look-ups agrees: exactly the observations added last and not removed, with all their values. The observations common to several images are exactly those of the tracks seen in each of them, in the order asked; the connectivity of pairs of images counts them; a subset keeps exactly the images asked for. Merging joins exactly the tracks that share a feature of an image, directly or through others, and keeps their observations (one per image). Unknown images and tracks are errors. Tracks written as text and read back are the same to six digits, older versions of the format are read, and a malformed line or unknown version is an error.",
  ["inputs", "histories"], "bounded sequences of operations on a few images and tracks, all coordinates and sizes",
  "The tests add a fixed grid of observations once; they remove nothing, merge one pair and read fixed files.",
  [O+"src/map/src/tracks_manager.cc", O+"src/foundation/union_find.h"], [("manager", O+"src/map/src/tracks_manager.cc:TracksManager"), ("merging", O+"src/map/src/tracks_manager.cc:MergeTracksManager")])
p("C07", "A map stays consistent under any sequence of edits",
  "Whatever sequence of creating, updating and removing shots, panorama shots, points, observations, rig cameras and rig instances led to a map: the observations seen from its shots and from its points are the same, with the values added last, every shot is known to its rig instance and refers to cameras, rig cameras and instances of that map, and its pose is that of its rig camera composed with that of its instance. Setting the pose of a shot in a rig of its own, of a rig camera or of an instance moves exactly the shots concerned; removing shots or points removes their observations on both sides, and cleaning removes exactly the points with too few observations. Unknown names, and names already there, are errors that change nothing. A deep copy equals the map (with its observations if asked) and is independent of it; updating a shot takes pose and metadata from the other map. Reprojection errors and valid observations cover exactly the observations of shots and points of the map, in the unit asked for.",
  ["inputs", "histories"], "bounded sequences of operations on maps of up to three shots, all poses, positions and metadata",
  "The tests create and delete everything once, in one order, and never compare a copy beyond counts.",
  [O+"src/map/src/map.cc", O+"src/map/src/shot.cc", O+"src/map/shot.h", O+"src/map/src/rig.cc", O+"src/map/src/landmark.cc"], [("links", O+"src/map/src/map.cc:Map::AddObservation"), ("copies", O+"src/map/src/map.cc:Map::DeepCopy"), ("rigs", O+"src/map/src/rig.cc:RigInstance")])
p("C08", "Triangulation accepts exactly the points that fit, and gives the best one",
  "The angle between two vectors lies between zero and pi and has their cosine, also when they are opposite. The point of several rays is the one of least squared distances to them, the point of two rays lies halfway between their closest points (none if they are parallel), and rays that meet in a point give that point; refinement leaves it where it is. A point is accepted exactly when some two rays spread by at least the smallest angle (and by no more than its supplement), it lies within the threshold of every ray and at least at the smallest depth along each; a missing threshold is a refusal. The linear method solves equations that hold exactly where the point is seen along its directions and accepts by the same rule. For pairs of directions of two cameras the second turn by the relative rotation, and the epipolar angle has as sine the mean of the sines of each direction to the epipolar plane of the other, for all pairs.",
  ["inputs"], "two or three rays of any centres and directions (some along an axis), all thresholds",
  "The tests triangulate one point from two fixed rigs and never meet a point behind a camera or opposite directions.",
  [O+"src/geometry/src/triangulation.cc", O+"src/geometry/triangulation.h"], [("decisions", O+"src/geometry/src/triangulation.cc:TriangulateBearingsMidpoint"), ("closed forms", O+"src/geometry/triangulation.h:TriangulateBearingsMidpointSolve"), ("epipolar", O+"src/geometry/src/triangulation.cc:EpipolarAngleTwoBearingsMany")])
if __name__ == "__main__":
    for x in P: print(json.dumps(x))
