"""Property texts; `python3 bin/mkmanifest.py` writes properties.jsonl and MANIFEST.json from them."""
S = 'sumo-api/sumo/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[S + f if not f.startswith('tools') else f for f in files],
                  mechanism=[dict(name=n, where=w) for n, w in mechanism], note=note, observe=observe))


prop('P01', 'Rigid transforms obey the group laws',
     'Applying a pose to a point is rotation times point plus translation, composing poses composes their point '
     'maps associatively, and a pose composed with its inverse (either side) is the identity. Mapping points into '
     'and out of a frame are mutually inverse, and the batch forms agree with the single-point forms.',
     ['inputs'], 'every proper rotation, every translation and point (reals); matrix-algebra laws for every 3x3 block',
     'Tests use a few numeric poses with exact-looking entries; the laws quantify over all rotations and points.',
     ['geometry/pose3.pyx', 'geometry/rot3.pyx', 'base/vector.pyx'],
     [('pose composition, inverse, transfer', 'geometry/pose3.pyx: class Pose3'),
      ('rotation product and transpose', 'geometry/rot3.pyx: class Rot3')],
     'All real rotations/translations/points over exact reals; rounding error is outside.')
prop('P02', 'Rotation constructors yield the documented rotations',
     'Axis rotations, axis-angle rotations and the two camera-convention constructors return proper rotation '
     'matrices (orthogonal, determinant 1) that turn about the documented axis, by the documented angle, in the '
     'right-handed sense. Rotations about one axis add their angles, and default cameras map the documented axes.',
     ['inputs'], 'every angle (roll, pitch, yaw, axis rotation) and every unit axis',
     'Tests check a handful of angles such as 0 and pi/2.',
     ['geometry/rot3.pyx', 'geometry/pose3.pyx'],
     [('axis and axis-angle constructors', 'geometry/rot3.pyx: Rx, Ry, Rz, AxisAngle'),
      ('camera conventions', 'geometry/rot3.pyx: ENU_camera, Maya_camera; geometry/pose3.pyx')],
     'All angles (sin/cos as an arbitrary point on the unit circle) and unit axes over exact reals.')
prop('P03', 'Serialised transforms read back as the same transform',
     'A pose or rotation written to its dictionary, XML or quaternion form and read back is the same transform '
     '(exactly, or within the printed precision), with the documented keys, column order and quaternion component '
     'order. Structurally malformed pose XML is rejected with an error instead of yielding a transform.',
     ['inputs', 'fault_sequences'], 'every rotation and translation; every single structural fault of the XML form',
     'Tests round-trip one or two transforms; sign, order and branch errors hide at untested rotations.',
     ['geometry/pose3.pyx', 'geometry/rot3.pyx', 'geometry/quaternion.pyx', 'base/vector.pyx'],
     [('dictionary and XML codecs', 'geometry/pose3.pyx, geometry/rot3.pyx: to_json, from_json, to_xml, from_xml'),
      ('quaternion codec', 'geometry/pose3.pyx: to_surreal, from_surreal; geometry/quaternion.pyx')],
     'All rotations; XML numbers read back within half a unit of the 8th printed decimal; Eigen conversion modelled.')
prop('P04', 'Rotation representations of the metrics agree',
     'Quaternion, Euler-angle (z, y, x) and matrix forms of one rotation convert into each other without changing the '
     'rotation: matrices of quaternions and Euler angles are the documented products, and the reverse conversions '
     'invert them. Gimbal lock and unit quaternions that are off by rounding are handled.',
     ['inputs'], 'every unit quaternion, every Euler triple, every pitch including exact gimbal lock',
     'Tests use a few fixed angles, away from gimbal lock and where no rounding makes the arcsine fail.',
     ['metrics/utils.py'],
     [('quaternion conversions', 'metrics/utils.py: matrix_to_quat, quat_to_matrix'),
      ('Euler conversions', 'metrics/utils.py: quat_to_euler, euler_to_quat, euler_to_matrix, matrix_to_euler')],
     'Exact reals; quaternion to Euler up to 2^-20 from gimbal lock plus exactly at lock (1e-5).')
prop('P09', 'Points fall in exactly the voxel that contains them',
     'After adding points, the reported voxel centres are exactly the centres of the grid-aligned voxels that contain '
     'at least one point, each once. Coordinate-to-voxel and voxel-to-centre mappings are mutually inverse for every '
     'voxel size and grid origin, and the reported bounds are the tight box of the occupied voxels.',
     ['inputs'], 'every voxel size and origin, every set of up to two points within a few voxels',
     'Tests add a few fixed points; voxel boundaries, negative coordinates and non-unit sizes are unsampled.',
     ['threedee/voxel_grid.py'],
     [('point to voxel mapping', 'threedee/voxel_grid.py: add_points'),
      ('voxel centres and bounds', 'threedee/voxel_grid.py: voxel_centers, bounds')],
     'Real coordinates; point counts and voxel ranges bounded per harness.')
prop('P10', 'Voxel grids lose nothing however they are filled',
     'The set of occupied voxels depends only on the set of points ever added: not on the order, on how the points '
     'are split over several additions, or on duplicates. Growing the grid to reach new points keeps every voxel that '
     'was occupied before.',
     ['histories', 'inputs'], 'every sequence of up to three additions of up to two points within a few voxels',
     'Tests add points once or twice in fixed places; the growth logic depends on which dimensions grow in each step.',
     ['threedee/voxel_grid.py'],
     [('grid growth', 'threedee/voxel_grid.py: add_points'),
      ('voxel store', 'threedee/voxel_grid.py: voxel index space')],
     'Histories of two or three additions; coordinate ranges bounded per harness.')
prop('P11', 'Saved voxel grids reload as the same grid',
     'A voxel grid saved to a file and loaded reports the same voxels, voxel size, origin and bounds, and further '
     'additions after loading act as on the original grid. Loading replaces earlier contents, and unreadable or '
     'unwritable files raise the documented I/O error.',
     ['histories', 'inputs', 'fault_sequences'], 'every origin and point; sizes 1/2, 1, 2; add-save-load-add histories',
     'The tests reload one grid and never continue filling it.',
     ['threedee/voxel_grid.py'],
     [('file codec', 'threedee/voxel_grid.py: save, load, from_file')],
     'HDF5 library replaced by an in-memory dictionary model (real library on replay).')
prop('P16', 'Detections are matched greedily, one to one, to the best ground truth',
     'At every similarity threshold, detections are taken by falling score and each is matched to the most similar '
     'ground truth element that is still free, if the similarity reaches the threshold. Nothing is matched twice, no '
     'admissible pair is left over, only evaluated elements count as misses, and matches made per category stay within '
     'it and cover every configured category.',
     ['inputs', 'configurations'],
     'every score, similarity, evaluated flag and category of up to 3 detections and 3 ground truth elements',
     'Tests associate one fixed scene; ties, competition for an element and mixed flags are not sampled.',
     ['metrics/evaluator.py'],
     [('similarity table', 'metrics/evaluator.py: Evaluator._make_similarity_cache'),
      ('association', 'metrics/evaluator.py: _compute_agnostic_data_assoc, _compute_category_data_assoc')],
     'Up to 3 x 3 elements; any real scores and similarities.')
prop('P17', 'Precision-recall curves and average precision follow their definition',
     'For every list of scored detections, precision and recall along the list, the area under the interpolated '
     'curve and the sampled average precision equal their textbook definitions and lie between 0 and 1. They depend '
     'only on the order of the scores, a perfect list has average precision 1, and an extra false alarm never raises it.',
     ['inputs'], 'every list of up to 4 detections with any scores and outcomes and up to 3 missed elements',
     'Tests evaluate a few fixed curves; order, ties, empty lists and the sampling rule need all inputs.',
     ['metrics/utils.py'],
     [('curve', 'metrics/utils.py: compute_pr'), ('average precision', 'metrics/utils.py: compute_auc_ap, compute_ap')],
     'Up to 4 detections; any real scores; tolerance 1e-9.')
prop('P18', 'Scene scores are the documented averages',
     'The shape score is the mean over thresholds, and the semantics score the mean over configured categories present '
     'and thresholds, of average precision; the perceptual score is the documented normalised sum over room and object '
     'volumes. All lie between 0 and 1, elements that are not evaluated neither help nor harm, and a perfect '
     'submission scores 1.',
     ['inputs', 'configurations'], 'every score, similarity, size, category and flag of up to 3 + 2 elements',
     'Tests compare two fixed scenes to recorded numbers.',
     ['metrics/evaluator.py'],
     [('scores', 'metrics/evaluator.py: shape_score, semantics_score, perceptual_score')],
     'Up to 3 detections and 2 ground truth elements, 2 thresholds; exp only assumed positive and increasing.')
prop('P19', 'Pose errors are symmetry-aware and minimal',
     'The rotation error of a match is the smallest geodesic angle between the detected rotation and any placement that '
     'the declared symmetry of the object allows, and translation error is Euclidean distance. Both are averaged over '
     'matches, then over thresholds, are never negative, and are infinite when nothing is matched.',
     ['inputs', 'configurations'], 'every pair of rotations (per-axis families) and each symmetry descriptor',
     'Tests try a few symmetries at a few angles; wrong axes or missing group elements stay invisible.',
     ['metrics/evaluator.py', 'semantic/object_symmetry.py'],
     [('symmetry groups', 'metrics/evaluator.py: rotation_error_1, symmetric_rot, cylindrical_symmetric_rot'),
      ('averages', 'metrics/evaluator.py: pose_error')],
     'Exact reals; matrix logarithm modelled by the rotation angle; rotation pairs in stated families; tolerance 1e-6.')
prop('P20', 'Point-set overlap and surface distances follow their definitions',
     'Point-set overlap is the fraction of points that have a neighbour in the other set within the threshold; it is '
     'symmetric, 1 for equal sets, and moving both objects does not change it. Surface and colour distances are root '
     'mean squares over nearest neighbours in both directions, averaged over all matches at all thresholds, and are 0 '
     'for identical sets.',
     ['inputs'], 'every two point sets of up to 3 points, every colour, several associations',
     'Tests use a fixed scene; the early box test, both directions and empty sets need all inputs.',
     ['metrics/utils.py', 'threedee/compute_bbox.py'],
     [('overlap', 'metrics/utils.py: points_iou, nearest_neighbors'),
      ('distances', 'metrics/utils.py: points_rmsssd, color_rmsssd')],
     'Up to 3 points per set with coordinates in [-4, 4]; nearest-neighbour library modelled exactly.')
prop('P05', 'Inverse-depth values decode, encode and round-trip as documented',
     'A stored value decodes to near distance times maximum over value (zero to infinity); encoding picks the '
     'nearest value, saturates up to the near distance and stores unknown depth as zero. Every stored value survives '
     'decoding and encoding, order is kept, 8-bit values widen to the same depth, and whole images convert pixel by '
     'pixel in place.',
     ['inputs', 'configurations'], 'every stored value, every depth and near distance in stated ranges, single precision rounding',
     'Tests convert a few values with the default near distance; rounding and saturation edges are unsampled.',
     ['geometry/inverse_depth.pyx'],
     [('value codec', 'geometry/inverse_depth.pyx: depth_of_inverse_depth, inverse_depth_of_depth and 8-bit forms'),
      ('image codec', 'geometry/inverse_depth.pyx: whole image conversions')],
     'Near distance in [1/16, 16], depth in [1/128, 4096]; rounding as any relative error up to 2^-24; 2 x 3 images.')
prop('P06', 'Category colours agree with the table and unknown categories are refused',
     'Looking up a colour by id, by name, through the lookup table or by converting an index image gives the colour of '
     'that row of the table. Ids and names that are not in the table raise the documented errors.',
     ['inputs'], 'every colour table of up to 4 rows, every id in [-4, 8], every 2 x 2 index image',
     'Tests look up a few categories of one table, never the first id past its end.',
     ['base/colored_category.pyx'],
     [('lookups', 'base/colored_category.pyx: ColoredCategory')],
     'Tables of up to 4 rows, images of 2 x 2 pixels; any colours.')
prop('P07', 'Boxes keep their corners, contents, meshes and XML form consistent',
     'A box spans its two given corners in any order, and its corners, centre, volume, containment test, equality and '
     'merging follow from them; merging gives the tightest box that contains all. Its meshes are closed with windings '
     'and normals that face out (or in), and the XML form reads back as the same box or is refused when malformed.',
     ['inputs', 'fault_sequences'], 'every box in [-100, 200]^3, every point; every single structural fault of the XML form',
     'Tests use the unit cube and random points strictly inside; order of corners and winding are barely sampled.',
     ['threedee/box_3d.pyx'],
     [('geometry', 'threedee/box_3d.pyx: corners, merge, point_in_box, volume, center'),
      ('meshes', 'threedee/box_3d.pyx: to_mesh, to_textured_mesh'), ('XML', 'threedee/box_3d.pyx: to_xml, from_xml')],
     'Exact reals; XML numbers within the printed precision; up to 3 boxes merged; mesh classes replaced by recorders.')
prop('P08', 'Computed bounding boxes contain everything and are tight',
     'The bounding box of a point set, mesh, list of meshes or model contains every vertex and touches one on each of '
     'its six sides. Nothing at all has the empty box at the origin.',
     ['inputs'], 'every set of up to 4 points (6 thorough) and up to 3 meshes with any coordinates',
     'Tests use a unit cube and random points; all-negative or single-point sets are not sampled.',
     ['threedee/compute_bbox.pyx', 'threedee/box_3d.pyx'],
     [('bounding boxes', 'threedee/compute_bbox.pyx: ComputeBbox')],
     'Coordinates in [-100, 100]; meshes replaced by objects with the documented accessors.')
prop('P12', 'Symmetry descriptors accept exactly the documented combinations',
     'A symmetry can be made iff its three axis types form one of the documented combinations; defaults, accessors and '
     'text form keep each axis. Equality compares all axes with inequality its negation, and the string and XML forms '
     'read back as the same symmetry or raise the documented error.',
     ['inputs', 'fault_sequences'], 'every triple of axis types or labels, every pair of valid descriptors, every single fault',
     'Tests try a handful of combinations and one round trip.',
     ['semantic/object_symmetry.py'],
     [('combinations', 'semantic/object_symmetry.py: _valid_symmetries, is_valid'),
      ('codecs', 'semantic/object_symmetry.py: from_strings, from_xml, to_xml')],
     'Finite domain, explored completely by solver-driven forking.')
prop('P21', 'Surface samples lie on the faces, evenly, in number and colour as documented',
     'Every sampled point lies on a face, each face gets the documented number of samples (density times area, at least '
     'one), random numbers spread evenly over the face, and colours are the texture colours at its vertices, '
     'interpolated. Elements are sampled in room coordinates, and models without faces give no points.',
     ['inputs'], 'every right triangle along the axes, every random number, texture coordinate and colour',
     'Tests check counts and bounds of one random sample; distribution and texture lookup are not checked.',
     ['threedee/model_sampler.pyx', 'metrics/mesh_evaluator.py', 'threedee/voxelizer.pyx'],
     [('model sampling', 'threedee/model_sampler.pyx: ModelSampler.run, _sample_mesh'),
      ('element sampling', 'metrics/mesh_evaluator.py: sample_element, sample_mesh')],
     'Up to two faces and a few samples; triangles with legs along coordinate axes; textures up to 3 x 2.')
prop('P13', 'Project objects keep every field through XML, files and rigid motion',
     'A project object keeps id, type, category, pose, bounds, symmetry, score, flag and only the shape of its type. '
     'Saving and loading gives the same object, with one shape file named by the id. Missing optional tags take the '
     'defaults, other tags or types are refused, and moving an object changes its pose alone, on a copy.',
     ['inputs', 'fault_sequences'], 'every pose, box, score and flag; each type; each missing tag; tag order',
     'Tests save and load one object per type with default settings and never drop or reorder tags.',
     ['semantic/project_object.py', 'geometry/pose3.py', 'threedee/box_3d.pyx', 'semantic/object_symmetry.py'],
     [('object', 'semantic/project_object.py: ProjectObject, transform_pose, almost_equal'),
      ('XML', 'semantic/project_object.py: save, load, _to_xml, _parse_xml')],
     'Ids, categories and symmetries from lists; printed decimals within 1e-5; voxel and mesh files are stand-ins.')
prop('P14', 'Project scenes keep elements, type and settings through disk and motion',
     'Saving and loading a scene gives the same type, settings and elements by id, for any order of tags and with '
     'unknown tags ignored. An existing project is never overwritten; malformed or missing projects raise the '
     'documented errors. Moving a scene moves every element, keeps the rest and can be saved; scenes share no defaults, '
     'and only project objects can be stored.',
     ['inputs', 'fault_sequences', 'histories'],
     'scenes of up to 3 elements with any pose, box, score and flag; each header tag missing; each fault of the file',
     'Tests save one example scene; tag order, faults, empty scenes and sharing are unsampled.',
     ['semantic/project_scene.py', 'semantic/project_object_dict.py', 'semantic/project_object.py'],
     [('scene', 'semantic/project_scene.py: ProjectScene.save, load, transform_pose'),
      ('elements', 'semantic/project_object_dict.py: ProjectObjectDict')],
     'Ids, names and settings from lists; printed decimals within 1e-5; voxel and mesh files are stand-ins.')
prop('P15', 'Project conversion keeps everything but the shape',
     'Meshes convert to voxels or boxes and voxels to boxes; every other conversion raises ValueError. The result has '
     'the target type, the same settings and every element once with its id, pose, category, symmetry, score and flag, '
     'the bounds of its shape and only the shape of its type. It is a copy: the input scene is unchanged.',
     ['inputs'], 'scenes of up to 3 elements with any pose, box, score and flag, every pair of types',
     'Tests convert one example and compare a few fields.',
     ['semantic/project_converter.py', 'semantic/project_object.py', 'threedee/compute_bbox.pyx'],
     [('conversion', 'semantic/project_converter.py: ProjectConverter.run, convert_element')],
     'Voxel grids, meshes and the voxelizer are stand-ins with any bounds; the voxelizer itself is in P21.')
prop('P22', 'glTF to GLB packing keeps every byte, view and image in a valid container',
     'The output has the magic number, version 2, true lengths, a JSON chunk and a binary chunk, both padded to four '
     'bytes. Every buffer view, whatever its buffer and offset, refers to the same bytes as before, now in the one '
     'binary chunk; every image file is stored with its type and its own view; all other JSON is kept. Missing files '
     'and empty uris raise errors and write nothing.',
     ['inputs', 'fault_sequences'],
     'every view offset and length; buffer and image sizes of every residue modulo 4; up to 3 buffers, 3 images',
     'Tests convert one model with a single buffer and compare it with a stored file.',
     ['threedee/glb_converter.pyx'],
     [('packing', 'threedee/glb_converter.pyx: gltf2glb, BodyEncoder'), ('container', 'threedee/glb_converter.pyx: GlbEncoder')],
     'External files only; file sizes from lists that cover all residues modulo 4; JSON library trusted.')
prop('P23', 'Track evaluators score elements in room coordinates by their documented measure',
     'The bounding box track compares posed boxes by the volume of intersection over union, through closed box meshes '
     'with the right corners and volume; the voxel and mesh tracks compare posed points with their own overlap '
     'threshold. Submission and ground truth keep their roles, sampling uses the density of the settings, settings are '
     'optional, and the full evaluation reports each metric under its name.',
     ['inputs', 'configurations'], 'every position and extent of two boxes or small point sets, several rotations, '
     'default and other settings',
     'The track tests need a library that is absent here, and elsewhere only check that shifted boxes score below 1.',
     ['metrics/bb_evaluator.py', 'metrics/voxel_evaluator.py', 'metrics/mesh_evaluator.py', 'metrics/evaluator.py'],
     [('boxes', 'metrics/bb_evaluator.py: BBEvaluator, _bbox2pymesh'), ('voxels', 'metrics/voxel_evaluator.py: VoxelEvaluator'),
      ('meshes', 'metrics/mesh_evaluator.py: MeshEvaluator')],
     'pymesh is a model (signed volume; intersections exact along the axes); up to 3 points; rotations from lists.')
prop('P24', 'Meshes keep their geometry through construction, merging, clean-up and motion',
     'A mesh holds copies of its arrays. Merging appends the triangles and the vertices after the common ones with '
     'indices that refer to the same points (also with itself); replacing takes over the other geometry. Clean-up '
     'removes exactly the triangles with a too long edge or an edge to the origin and keeps the others in order. '
     'Rotation and transform move vertices and normals rigidly; face and vertex normals follow their definition.',
     ['inputs'], 'every index list and real coordinates of meshes of up to 3 triangles and 6 vertices, any pose',
     'Tests merge and clean one example cube.',
     ['threedee/Mesh.cpp', 'threedee/Mesh.h', 'threedee/mesh.pyx', 'threedee/mesh.pxd'],
     [('geometry in C++', 'threedee/Mesh.cpp: class Mesh'), ('wrapper', 'threedee/mesh.pyx: class Mesh')],
     'Up to 3 triangles and 6 vertices, exact reals; single precision rounding is outside.')
prop('P25', 'Point clouds keep points and colours aligned through every operation',
     'A cloud holds copies of its points and colours. Merging, summing, appending (also to itself) and registering '
     'posed clouds keep all points and colours in order and leave the operands unchanged; a coloured and a plain cloud '
     'cannot be merged. Motion moves the points and keeps the colours; thinning draws the given number of points, each '
     'with its colour; the text file has one row per point.',
     ['inputs'], 'clouds of up to 3 points with any coordinates and colours, any pose, every random draw',
     'Tests use one fixed cloud and its sums.',
     ['threedee/point_cloud.pyx', 'threedee/PointCloud.h', 'threedee/point_cloud.pxd'],
     [('storage and append', 'threedee/PointCloud.h: class PointCloud'),
      ('operations', 'threedee/point_cloud.pyx: class PointCloud')],
     'Up to 4 points in all, exact reals. Indices past the end are outside. The PLY codec is not covered.')
prop('P26', 'Panoramas unproject to points at the measured range along the cube map rays',
     'The point cloud of a panorama has one point per pixel with a valid range, in row order and with the colour of '
     'the pixel, at that range from the origin along the ray through the pixel centre of its cube face. Zero, negative, '
     'infinite and undefined ranges give no point, or the origin in black when all points are asked for. Images of '
     'other types, unequal sizes or with pixels past the sixth face raise errors.',
     ['inputs', 'configurations'], 'every range and colour; heights 1 to 3 (8 when thorough), narrower and wider images',
     'Tests check a few pixels of one stored image.',
     ['images/rgbdci_360.pyx', 'images/Rgbdci360.cpp', 'images/CubeMap.h', 'images/rgbdci_360.pxd', 'opencv/wrap.pyx'],
     [('unprojection', 'images/CubeMap.h: unproject; images/Rgbdci360.cpp: createPointCloud'),
      ('wrapper', 'images/rgbdci_360.pyx: create_point_cloud')],
     'Heights 1 to 3 (5 and 8 when thorough); exact reals, directions within 1e-4; OpenCV matrices are views of arrays.')
prop('P27', 'A glTF model gives back the meshes and materials that were put into it',
     'A model returns every plain and textured mesh in order and unchanged: triangles, vertices, normals, texture '
     'coordinates, both images and material; also from stored scenes with offsets and shared data. Accessors state the '
     'exact count and range, images are named by number. An update gives one mesh a colour or a texture and leaves the '
     'others; no colour, no texture and None change nothing. Copies are independent, wrong references raise errors.',
     ['inputs', 'configurations'], 'every coordinate, index, pixel, colour and factor of models of up to 3 meshes; '
     'several layouts of stored scenes',
     'Tests add one example mesh and count; materials are updated without looking at the result.',
     ['threedee/GltfModel.cpp', 'threedee/GltfModel.h', 'threedee/gltf_model.pyx', 'threedee/gltf_model.pxd'],
     [('model in C++', 'threedee/GltfModel.cpp: class GltfModel'), ('accessors', 'threedee/GltfModel.h: class GltfAccessor'),
      ('wrapper', 'threedee/gltf_model.pyx: class GltfModel')],
     'Up to 3 meshes of up to 2 triangles, exact reals; reading and writing of glTF files and image codecs are outside.')
prop('P28', 'Textured meshes keep geometry, texture coordinates and textures together',
     'A textured mesh holds copies of its arrays and of both images. Merging appends geometry and texture coordinates '
     'after the common vertices and leaves the other mesh as it was; renumbering moves each vertex with its normal and '
     'texture coordinate to its new number and triangles keep their points; four quadrants become one nine vertex '
     'mesh. Rotation and transform move the geometry only; the textured cube has closed faces and full texture squares.',
     ['inputs'], 'meshes of up to 2 triangles and 4 vertices with any coordinates, indices and pixels; every '
     'permutation of 3 (4 when thorough) vertices; any pose',
     'Tests merge and renumber one fixed quad.',
     ['threedee/TexturedMesh.cpp', 'threedee/TexturedMesh.h', 'threedee/textured_mesh.pyx', 'threedee/textured_mesh.pxd',
      'opencv/wrap.pyx'],
     [('geometry and textures', 'threedee/TexturedMesh.cpp: class TexturedMesh'),
      ('wrapper', 'threedee/textured_mesh.pyx: class TexturedMesh')],
     'Up to 2 triangles and 4 vertices, exact reals. Triangles of a partial renumbering: known finding.')
prop('P29', 'What is saved to a multi-page RGBD TIFF is what is loaded from it',
     'Colours, categories and instances of an image set come back from its TIFF pixel by pixel, in any order of pages; depth '
     'comes back as the depth of its stored inverse depth, with the near plane kept in the file. Earlier files load too: '
     'pages by name or channels, near plane 1 m without metadata, 8-bit depth at 1 m. Wrong types, shapes, pages and '
     'unreadable files raise errors and never end the process.',
     ['inputs', 'configurations'], 'every pixel, depth and near plane of images up to 2x3; every subset and several orders '
     'of pages; several layouts of stored files',
     'Tests save and load one fixed example of each kind.',
     ['images/rgbd_tiff.pyx', 'images/multi_image_tiff.pyx', 'images/RgbdTiff.cpp', 'images/RgbdTiff.h',
      'geometry/inverse_depth.pyx', 'opencv/wrap.pyx', 'opencv/wrap.pxd'],
     [('pages in C++', 'images/RgbdTiff.cpp: readRgbdTiff, writeRgbdTiff'), ('wrapper', 'images/rgbd_tiff.pyx: load, save'),
      ('class', 'images/multi_image_tiff.pyx: class MultiImageTiff')],
     'Images up to 2x3, exact reals; libtiff and picojson are modelled (compression itself is outside).')
prop('P30', 'Small-vector helpers keep coordinates, directions and sides',
     'The vector constructors give a vector of the named length and precision holding the given coordinates in order. A '
     'non-zero vector, however short or long, is scaled to length one in the same direction and the zero vector is '
     'returned as it is. A point is on the left of a line seen along the normal exactly when it lies counterclockwise '
     'or on the line.',
     ['inputs'], 'every vector of 2 to 4 coordinates; every normal, point and line',
     'Tests try two vectors and one point on the left; nothing is tried on the right or for short vectors.',
     ['base/vector.pyx'],
     [('constructors', 'base/vector.pyx: Vector2, Vector2f, Vector3, Vector3f, Vector4, Matrix3'),
      ('direction and side', 'base/vector.pyx: unitize, on_left')],
     'Exact reals; rounding is outside.')
