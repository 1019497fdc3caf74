T = "The tests sample a few random inputs with one fixed seed; the guarantee quantifies over all inputs."
def prop(id, title, statement, quant, files, mech, note, why=T, over=("inputs",), **k):
    return dict(id=id, title=title, statement=statement, quant=quant, files=files, mech=mech, note=note, why=why, over=list(over), **k)
G = "Bounded random search over the generators in the harness; trusts the reference implementation written there and its tolerances."
P = [
prop("C01", "Bounding-volume-hierarchy searches agree with exhaustive search",
 "For every non-empty set of points or triangles, a bounding volume hierarchy built by Morton code or top-down holds each object in exactly one leaf and every node's volume contains the objects below it. Queries through it (volumes hit by a line, ray or point or within a distance range, nearest point, nearest point on a triangle mesh, first ray hit, signed distance) return what testing every object one by one returns.",
 "every object set (with duplicates, coplanar and clustered ones) and every query", ["srch_bvh.h","srch_bvh.cpp","srch_trimesh3_class.h","srch_bv3_aabb.h","srch_bv3_sphere.h"], [("tree build and traversal","srch_bvh.cpp")], G),
prop("C02", "Point search structures return the same answers as exhaustive search",
 "The k-d tree over points, the k-d tree over triangles and the uniform search grid never miss an object that exhaustive search over the same objects finds (nearest object, objects in the surrounding cells), whatever the number, order and duplication of objects, and also after objects have moved and the grid was updated. A line meets a height field, and a sphere collects the triangles connected to a seed, exactly as testing every triangle does.",
 "every object set, query and sequence of updates", ["srch_kdtree.h","srch_kdtree_tri.h","srchgrid.h"], [("search pruning","srch_kdtree.h")], G),
prop("C03", "Self-collision and proximity detection finds exactly the real contacts",
 "For every triangle mesh and motion, the intersecting, proximate or colliding element pairs found through the hierarchy are those found by testing all pairs, and a continuous-collision test reports a time in [0,1] at which the primitives are coplanar and touch, and misses no robust crossing. The collision response conserves linear momentum; a rigid impact zone is a rigid motion that conserves linear and angular momentum.",
 "every mesh and motion", ["srch_selfintersection_bvh.h","geo_ccd.h","geo_ccd.cpp","cloth_selfcollision.cpp"], [("pair traversal","srch_selfintersection_bvh.h"),("coplanar time","geo_ccd.cpp")], G),
prop("C04", "Mesh adjacency tables describe exactly the adjacency of the mesh",
 "For every valid element connectivity of every element type, the tables of elements around a point, points around a point, neighbouring elements across a face, edges, boundary and connected groups contain exactly the relations present in the connectivity, each as often as documented and symmetric where the relation is symmetric.",
 "every mesh of every supported element type", ["msh_topology_uniform.cpp","msh_topology_mix.cpp","jagarray.cpp"], [("table construction","msh_topology_uniform.cpp")], G),
prop("C05", "Editing a dynamic triangle mesh keeps it a consistent manifold",
 "After any sequence of point insertions in an element or on an edge, edge flips, edge collapses and triangle deletions on a dynamic triangle mesh, the mesh is still consistent: triangle adjacency is mutual, each point's stored triangle contains it, the mesh is an oriented manifold with the expected counts, and an operation that reports failure changes nothing.",
 "every starting mesh and every sequence of edits", ["dtri_topology.cpp","dtri2_v2dtri.cpp","dtri3_v3dtri.cpp"], [("adjacency update","dtri_topology.cpp")], G, over=("histories","inputs")),
prop("C06", "Polygon triangulation fills exactly the polygon",
 "Meshing a simple polygon with holes yields positively oriented triangles that cover exactly its region, contain every boundary vertex and boundary edge, and keep the requested resolution of the boundary; Delaunay updates leave no triangle whose circumcircle contains an adjacent vertex, and refinement keeps the covered region.",
 "every simple polygon with holes and every resolution", ["dtri2_v2dtri.cpp","geo_polyloop2.cpp"], [("constrained Delaunay","dtri2_v2dtri.cpp")], G),
prop("C07", "Editing a 2D CAD shape keeps its topology valid and its geometry in place",
 "After any sequence of adding polygons and faces, adding vertices on edges or inside faces, dragging vertices, edges, faces and curve handles and changing the curve of an edge, a 2D CAD shape has closed loops over existing vertices and edges, edge end points at their vertices and areas that change only as the operation implies; an invalid index changes nothing. Lengths, areas, point lists, inversion and transformation of edge loops follow the geometry, meshes generated from the shape respect it, and deformation weights reproduce it.",
 "every sequence of CAD edits", ["cad2.cpp","cadtopo.h","cad2_mesher.cpp"], [("topology update","cadtopo.h")], G, over=("histories","inputs")),
prop("C09", "Sparse block matrices behave like the dense matrices they stand for",
 "Whatever the pattern, block size and order of assembly, a sparse block matrix holds the sum of the element matrices merged into it, and its matrix-vector, transposed, degenerate and scaled products, boundary-condition, master-slave and diagonal operations give what the same operations on the equivalent dense matrix give; the dense-vector helpers do what their names say.",
 "every pattern, block size, assembly sequence and vector", ["ls_block_sparse.h","ls_block_sparse.cpp","ls_masterslave.cpp","jagarray.cpp"], [("CRS storage","ls_block_sparse.cpp")], G),
prop("C10", "Linear solvers return solutions of the system they were given",
 "For every well-conditioned system (symmetric positive definite for conjugate gradients, general for bi-conjugate, complex for the complex variants, block tri- and pentadiagonal for the direct ones) the returned vector satisfies the system to the requested tolerance, the returned convergence history describes it, and an incomplete factorisation with enough fill is exact.",
 "every system of the class, right-hand side and tolerance", ["lsitrsol.h","vecxitrsol.h","ls_ilu_block_sparse.cpp","ls_tridiagonal.h","ls_pentadiagonal.h"], [("iterative solvers","vecxitrsol.h")], G),
prop("C08", "Dynamic tetrahedral meshes stay consistent and Delaunay",
 "Inserting points in general position one by one into a tetrahedral mesh keeps the adjacency of tetrahedra mutual, their orientation positive, the covered volume unchanged and no point strictly inside another tetrahedron's circumsphere; the elements found around a point or an edge are exactly those of the mesh; circumcentre, circumradius, volume, area, height, edge lengths, aspect ratio, barycentric coordinates and deformation gradient of a tetrahedron agree with their definitions.",
 "every point set and insertion order", ["dtet_v3.cpp","geodelaunay3_v3.cpp"], [("cavity re-tetrahedralisation","dtet_v3.cpp")], G, over=("histories","inputs")),
prop("C11", "Element energy, force and stiffness are derivatives of one another",
 "For every finite element and mass-point force model, the residual returned is the derivative of the energy returned and the stiffness matrix is the derivative of the residual (up to the documented sign), for every element shape, deformation and material.",
 "every element shape, deformation state and material", ["femutil.cpp","fem_mitc3.cpp","fem_discreteshell.cpp","fem_distance3.cpp","fem_quadratic_bending.cpp","fem_mips.cpp","fem_stvk.cpp","fem_rod3_darboux.cpp"], [("derivatives","fem_discreteshell.cpp")], G),
prop("C12", "Finite-element operators equal the integrals they stand for, also once assembled",
 "For every simplex, rectangle and hexahedron, the Poisson, diffusion, linear-elastic, Stokes, Helmholtz and Navier-Stokes element matrices and residuals equal the exact integrals of their shape functions (Navier-Stokes: the residual's slope, momentum and mass balance, frame indifference), so stiffness is symmetric, rigid motions and constants give no internal force and linear fields exact ones; every energy of springs, cloth, plates, shells, rods and solids is unchanged by rigid motion with no net force or moment; every merge function yields the sum of element contributions in the right places, and lumped masses add up to the total.",
 "every mesh and material", ["fem_poisson.cpp","fem_solidlinear.cpp","fem_navierstokes.cpp","fem_stokes.cpp","fem_helmholtz.cpp","fem_mitc3.h","fem_rod3_straight.cpp","femutil.h","lsvecx.h"], [("element matrices","fem_solidlinear.cpp"),("assembly","fem_poisson.h")], G),
prop("C13", "Constraint functions have exact gradients, and projections do what they claim",
 "Every constraint function (discrete shell, edge lengths, segment, quadratic bending, Green strain and its energy, rod bending and Darboux vector, screen coordinate) returns the value of its definition and exact derivatives, and is invariant under rigid motion; one position-based update reduces a linear constraint by exactly the requested ratio with the least mass-weighted move that keeps the centre of mass; strain and bending sweeps, seams, prediction and velocity updates and rigid shape matching (2D and 3D) keep rest shapes and fixed points, keep momentum and reach the goal; the as-rigid-as-possible energy, its gradient and local stiffness agree.",
 "every element shape, mass, stiffness and deformation", ["pbd_geo3.cpp","pbd_bending_for_dtri.cpp","pbd_stvk.h","defarapenergy_geo3.cpp","fem_discreteshell.cpp","fem_distance3.cpp","fem_quadratic_bending.cpp","fem_stvk.cpp","fem_rod3_darboux.cpp","mat2.cpp"], [("constraint projection","pbd_geo3.cpp")], G),
prop("C14", "Math expressions evaluate to the value ordinary algebra gives",
 "Every well-formed expression of numbers, named constants, the supported operators, functions and parentheses evaluates to the value of ordinary arithmetic with the usual precedence and associativity, also after changing a constant, and an ill-formed text is refused without crashing.",
 "every expression text", ["parse_math_expression.cpp"], [("parser","parse_math_expression.cpp")], G),
prop("C15", "Linear programming returns the optimum of the constraints it was given",
 "For every small linear program with inequality and equality constraints, the solver reports infeasible, unbounded or optimal correctly and an optimal answer satisfies every constraint and has the best objective value.",
 "every linear program", ["lp.cpp"], [("simplex","lp.cpp")], G),
prop("C16", "Mesh files written are read back equal, and mesh texts are parsed as they say",
 "Whatever mesh is written to OBJ (uniform, mixed, flagged, several meshes, textured with normals and groups), PLY, VTK or the plain triangle format is read back by every reader with the same indices, order and groups and coordinates to the printed precision; OBJ, MTL, PLY, TetGen and Nastran texts in every supported style (index forms, comments, blank and long lines, number styles, line ends, attributes, sparse numbering) give exactly the content of the text; STL facets carry their triangle and its unit normal.",
 "every mesh and every well-formed text", ["msh_io_obj.cpp","msh_io_ply.cpp","msh_io_misc.cpp"], [("OBJ reader and writers","msh_io_obj.cpp"),("VTK, TetGen, Nastran","msh_io_misc.cpp")], G),
prop("C17", "Text utilities, file names, NumPy arrays and PPM images are read as written",
 "Splitting (single delimiter, set of delimiters, respecting quotes or parentheses), removing and replacing equal their definitions for every text; JSON and Python dictionaries, XML tags and contents, attribute lists, comma separated numbers and command line options give exactly the content of the text; file names are taken apart at the last slash and the last dot of the file name; bytes and parameters of a file are loaded completely; NumPy files (any header length, float or double, 1D or 2D) and PPM images (binary or ASCII, comments, any header layout) are read exactly, and files of another type, version, order, dimension or truncated ones are refused.",
 "every text and every file of these formats", ["str.cpp","file.cpp","filenpy_str.cpp","img_ioppm.cpp"], [("text utilities","str.cpp"),("NumPy reader","filenpy_str.cpp"),("PPM readers","img_ioppm.cpp")], G),
prop("C18", "SVG drawings are read as the curves they describe and DXF draws them all",
 "Every SVG path made of M, L, H, V, C, S, Q and Z commands (absolute or relative, repeated arguments, any separators and number styles the grammar allows) and every polygon, with attributes in any order and layout, gives a loop of edges with exactly the types, end points and control points the commands describe; read as a CAD shape it becomes one counter-clockwise face per loop, mirrored in y, scaled, without zero-length edges; the DXF file draws every edge of every face, curves as polylines, with the extent in the header.",
 "closed paths and polygons", ["cad2_io_svg.cpp","cad2_io_dxf.cpp"], [("path interpreter","cad2_io_svg.cpp"),("DXF writer","cad2_io_dxf.cpp")], G),
prop("C19", "Rotations and small matrices: conversions, products and decompositions are exact",
 "Unit quaternions, rotation matrices, axis-angle, Rodrigues and conformal rotation vectors, Bryant and Euler angles describe the same rotation whichever conversion is used, for every axis and every angle from exactly zero through almost zero to a half turn; the product of quaternions is the composition of the rotations; spherical interpolation moves at constant speed between any two quaternions, however close; the minimum rotation takes one direction to the other, opposite ones included; inverses, products and special 2x2, 3x3 and 4x4 matrices are those of linear algebra at every scale; polar, singular value and symmetric eigenvalue decompositions have orthogonal (rotation) factors that reproduce the matrix, with sorted singular values, for singular, rank-one, reflecting, tiny and huge matrices, and the derivative of the singular value decomposition is its differential.",
 "double precision; Euler angles away from the gimbal lock", ["quat.h","quat.cpp","mat2.cpp","mat3.cpp","mat3_funcs.cpp","mat4.h","mat4.cpp","svd3.h","svd3.cpp"], [("quaternions","quat.cpp"),("rotation matrices","mat3_funcs.cpp"),("singular values","svd3.cpp")], G),
prop("C20", "Polynomial roots in a range are all found, once each, and accurately",
 "For every polynomial of degree two to five whose real roots are separated, isolating the roots with a Sturm sequence gives each root in (0,1] exactly once and nothing else, whatever lies at the ends of the range, however many leading coefficients are zero or tiny; with multiple or almost equal roots the search still ends and stays in the range; the difference of Sturm numbers counts the distinct roots in any interval with the generic and the specialised sequences; the isolating intervals hold one root each; bisection keeps the bracketed root, also when it is the end of the bracket; the quadratic formula is accurate for nearly linear equations",
 "roots at least 0.03 apart, or exactly representable coefficients", ["polynomial_root.h"], [("Sturm sequence and isolation","polynomial_root.h")], G),
prop("C21", "Parametric curves: points, splitting, bounds, length, area, nearest point",
 "For every quadratic and cubic Bezier curve in two and three dimensions (degenerate, collinear, almost lower degree, any scale) the points, tangents and polylines are those of de Casteljau's construction, splitting gives two curves that trace the same points, the bounding box contains the curve and touches it, a plane between the end points is met at the returned parameter, arc length, area and winding angle equal the integrals, and the nearest parameter is in [0,1] and no farther than any point of the curve (for the variant that isolates roots) or any of its samples; quadratic, cubic and general B-splines with open uniform or arbitrary clamped knots and their derivatives equal the Cox-de Boor basis for every parameter including the knots; Catmull-Rom splines pass through every control point with continuous tangents",
 "Catmull-Rom with three or more points; box for vectors with SizeAtCompileTime", ["geo_curve_quadratic.h","geo_curve_cubic.h","geo_curve_ndegree.h"], [("quadratic curves","geo_curve_quadratic.h"),("cubic curves","geo_curve_cubic.h"),("B-splines","geo_curve_ndegree.h")], G),
prop("C22", "Convex hulls, and intersection and penetration of convex shapes, are exact",
 "For every set of points that is not all on a line the 2D hull is counter-clockwise, strictly convex, closed at the lowest point and contains every point, however many points are collinear, repeated or almost collinear; for every set of points not all on a plane the 3D hull is a closed outward surface of triangles with positive area that contains every point, also for grids of points; for convex shapes with an interior in 2D and 3D, at any scale, aligned, identical or exactly symmetric, GJK and the separating axis test report an intersection exactly when no axis separates the shapes, they always end, and EPA returns the shortest translation of the second shape that separates them",
 "shapes that merely touch may be reported either way", ["geo_convhull2.h","geo_convhull3.h","geo_gjksat2.h","geo_gjksat3.h","vec2.h"], [("2D hull","geo_convhull2.h"),("3D hull","geo_convhull3.h"),("GJK, EPA, SAT","geo_gjksat3.h")], G),
prop("C23","Nearest points and intersections of edges, lines, triangles, quads",
"For every scale from 1e-4 to 1e4, the nearest-point queries between a point, an edge, a line, a plane, a triangle (also a degenerate one) and a bilinear quad return points that lie on the two shapes, whose ratios or barycentric coordinates reproduce them and whose distance is the minimum (for the two-edge query: of the two lines, and for parallel overlapping edges a pair inside both). The intersection tests (2D edge-edge and box-edge, line or ray with triangle and plane, triangle pair, contact of two edges) answer as exact arithmetic does on lattice input in general position, and the reported intersection lies on both shapes. Solid angle, volume, height, deformation gradient and moments of inertia of triangles and tetrahedra equal their exact values.",
"Lines meet at an angle above 1e-4; thin but not degenerate triangles excluded; quads are parallelograms or mildly warped; line-circle gives the circle point nearest to a line point (a fixed-point iteration, no global claim).",
["geo_edge.cpp","geo_line.cpp","geo_plane.cpp","geo_tri.cpp","geo_tet.cpp","geo_quad.cpp"],
[("Nearest_Triangle3_Point3, Nearest_Origin3_Tri3, isIntersectTriPair, SolidAngleTri","geo_tri.cpp"),("Nearest_Edge3_Line3, Distance_Edge3_Edge3, IsIntersect_Edge2_Edge2","geo_edge.cpp"),("Nearst_Origin3_Quad3","geo_quad.cpp")],G),
prop("C24", "Polygons and polylines: measures, nearest points, loops inside loops",
 "For every simple polygon the area, centre, second moments and principal axes equal the exact integrals and move with the polygon under rigid motion and scaling; for every polyline (repeated points and zero-length edges included) the nearest parameter gives the point of minimum distance, arc length, sampled position, tangent, equidistant resampling and winding angle equal their definitions; for points of a lattice that do not touch the loop, inside or outside is answered as exact arithmetic does however many vertices the loop has; the check of outer and inner boundary loops before triangulation accepts exactly the simple, nested, disjoint ones, and fixing the orientation makes the outer loop counter-clockwise and the inner ones clockwise without changing the points; resampling loops keeps the corners, their order and edge lengths below the limit; splines and smoothing are local averages that keep the ends.",
 "polygons that do not touch themselves", ["geo_polygon2.h","geo_polygon2.cpp","geo_polyline.cpp","geo_polyline.h"], [("polygon measures","geo_polygon2.h"),("polyline queries","geo_polyline.h")], G),
prop("C25", "Boxes, affine maps, centres of gravity, masses, extrusion of any mesh",
 "For every set of points and every mesh, at any scale and far from the origin: bounding boxes (of all points, of a rotated frame, of the elements of a group) are the tightest ones; scaling, translating, rotating and normalising move each point as the formula says; centres of gravity of points, edges, triangle shells, flagged parts, closed solids and tetrahedra, areas, circumscribed radii and lumped masses equal the sums over the elements; merging meshes and removing unreferenced points keep the geometry and the order; extruding a planar mesh gives tetrahedra of positive volume that fill the prism and share whole faces; smoothing moves each vertex to the weighted centre of its triangles and leaves isolated vertices; solid angles of triangles of either orientation and of the vertices of convex bodies are exact; the distortion test compares areas and edge lengths with its thresholds.",
 "every mesh", ["msh_boundingbox.cpp","msh_affine_transformation.cpp","msh_center_of_gravity.cpp","mshmisc.cpp"], [("bounding boxes","msh_boundingbox.cpp"),("extrusion, masses","mshmisc.cpp"),("centres of gravity","msh_center_of_gravity.cpp")], G),
prop("C26", "Primitive meshes, signed distances, subdivision, slicing are exact",
 "For every number of divisions and every size, generated spheres, cylinders, cubes, capsules, tori, disks, icosahedra, arrows, voxels and grids (float and double) are closed (or bounded where open), consistently oriented outward, with every vertex on the shape and the exact polyhedral volume or area; signed distance, normal, inside test and ray intersection of plane, sphere, cylinder, torus and box equal their definitions for points inside, outside, on the axis and on the surface; subdivision of quad, hexahedral and tetrahedral meshes and of quads by Catmull-Clark puts each new point at the average the scheme prescribes and makes conforming children that fill their parent; contour segments and cross sections of any height field lie on the level and on the two edges they name, also if vertices lie exactly on the level, every crossed triangle is used once and closed cross sections are ordered loops; the Reeb graph joins loops that bound a common part.",
 "Catmull-Clark keeps boundary vertices; Reeb graph complete only where the uncrossed triangles of a part form one patch", ["msh_primitive.cpp","msh_arrow.h","mshsubdiv.cpp","slice.cpp","isrf_sdf.h"], [("primitives","msh_primitive.cpp"),("subdivision","mshsubdiv.cpp"),("slicing","slice.cpp")], G),
prop("C27", "Distances over meshes, clustering, exponential maps, parallel loops",
 "For every graph, mesh and point cloud, Dijkstra over element adjacency, element centres, points and from patch boundaries gives the shortest distances, visits every reachable node once and in order of distance; clusters of a connected mesh are non-empty, connected and as many as asked; binary clustering of points is a maximal pairing of neighbours with summed areas and averaged positions and normals (equal areas included) and its coarse adjacency is the quotient; exponential maps over points and triangles are the weighted parallel transport along the order of visit, exact on planar meshes, also when the output vectors are reused; parallel loops call the function exactly once for every index for any number of threads and any index type, all calls are over on return and an exception reaches the caller.",
 "element-distance Dijkstra only on connected meshes; index types not close to their maximum", ["dijkstra.h","clusterpoints.cpp","expmap_geo3dijk.h","thread.h"], [("Dijkstra","dijkstra.h"),("BinaryClustering_Points3d","clusterpoints.cpp"),("ExpMap","expmap_geo3dijk.h"),("parallel_for","thread.h")], G),
 prop("C28", "Cameras, projections, pixel rays and manipulation handles",
 "For every parameter, look-at and model-view matrices of the cameras (trackball, y-up, z-up, calibrated) are rigid and take the eye, centre and up direction where they belong; orthographic and perspective projections take their box to the unit cube; the ray of a pixel starts on the near side, runs away from the viewer and all its points project onto the centre of the pixel; an image of rays gets in every pixel the triangle hit first or none, run alone or in parallel, whatever the output held before; screen coordinates, their gradients, lens distortion, interior and image-to-screen matrices and the camera file equal the direct formula; handles pick the axis within the tolerance and move or turn about that axis only, by the dragged amount, and the affine handle composes translation, rotation and scale.",
 "drags of axis and circle by half the cursor's movement are taken as designed; circle picking only for circles facing the viewer", ["mat4.cpp","mat4.h","cam_modelview.h","cam_projection.h","cvcamera.h","metashape_camera.h","gizmo_geo3.cpp","srch_trimesh3_class.h"], [("Mat4_AffineTransLookAt","mat4.h"),("projection","cam_projection.h"),("calibrated camera","cvcamera.h"),("handles","gizmo_geo3.cpp"),("image rays","srch_trimesh3_class.h")], G),
 prop("C29", "Quadrature, special functions, sampling, noise, colours, image filters",
 "Gauss rules of one to seven points, the Gauss-Kronrod rule and the rules of triangles and tetrahedra integrate every polynomial up to their degree exactly, cubic grid weights are a partition of unity with the right slope and grid hash keys are distinct entries; spherical harmonics (order nine), spherical Hankel functions (eight), Legendre (eight) and associated Legendre functions (three) equal the standard ones and nothing is written past the order asked; the 48-bit generator equals erand48, samples of tent, hemisphere and mesh surface follow their maps and are distributed by area, a Lloyd step moves every point to the weighted centre of its pixels for boxes of any size; gradient noise vanishes on the lattice, is periodic and smooth across cells; colour maps are piecewise linear also for equal keys; bilinear lookup, grey levels and image gradients equal their definition on images down to one pixel.",
 "noise only for non-negative coordinates; triangle rules to their ten printed digits", ["quadrature.h","specialfuncs.cpp","sampling.h","sampler_lloyd2.h","sampler_trimesh.h","noise.h","color.cpp","grid3hash.h","img_interpolation.cpp","cvimggraygrad.cpp"], [("Gauss tables","quadrature.h"),("makeArray_SphericalHarmonics","specialfuncs.cpp"),("samples","sampling.h"),("Step_Lloyd2","sampler_lloyd2.h"),("noise","noise.h"),("getColor","color.cpp"),("filters","cvimggraygrad.cpp")], G),
prop("C30", "Voxel and cube grids, iso-surface stuffing and adaptive distance fields",
"For occupied voxels in a grid of any size the quad mesh is exactly the faces between occupied and empty voxels facing the empty side, the hexahedral mesh has one standard hexahedron per voxel and the tetrahedral mesh six positive conforming ones; dilation, erosion and geodesic distance (shortest of all given starts) equal their definition and a segment passes exactly the reported voxels in order, for any direction and end points. Cube sets follow additions and deletions; their box and the cube and face a ray picks are right. Iso-surface stuffing makes positive conforming tetrahedra whose boundary lies on the surface (for uniform lattices also on the box that cuts it) and fills the volume. An adaptive distance field is exact at its cell corners, accurate near the surface, has the right sign and an outward unit normal on cell faces and outside too; its iso-surface encloses the shape facing outwards. Grid Laplacian and smoothing equal the five-point stencil.",
"stuffing lattices uniform, or refined by one or two levels towards the surface with the shape a few cells away from the box (other gradings: see the known finding); mesh functions number voxels with z fastest, morphology and segments with x fastest; cube boxes without deleted cubes", ["gridvoxel.cpp","gridvoxel.h","gridcube.cpp","grid2.h","isrf_iss.cpp","isrf_adf.cpp"], [("MeshTet3D_VoxelGrid","gridvoxel.cpp"),("Intersection_VoxelGrid_LinSeg","gridvoxel.cpp"),("Pick_CubeGrid","gridcube.cpp"),("IsoSurfaceStuffing","isrf_iss.cpp"),("FindDistNormal","isrf_adf.cpp")], G),
prop("C31", "Skeletons, skinning, pose derivatives, motion capture files and cage coordinates",
"For any bone tree and pose each bone's global matrix is the product of translation, rotation and uniform scale along its chain; the rest pose leaves the skin where it is, and linear blend skinning with dense weights, sparse weights (also into vectors that already hold something) or four normalised local weights equals the weighted sum of the bones' motions, as does the weighted reference form. Making the pose the default keeps joints and skin and resets the rotations; joint-centred affine maps, transposed and sparsified weights, weighted points and bone octahedra follow their definitions. Pose sensitivities equal the derivatives of bone matrices and skin points, and one solve moves a bone to a near target in x and y. A BVH file with any nesting, channel order, tabs, CRLF and blank lines gives its bones, parents, offsets, channels and frames; frames, in any order, pose the bones by forward kinematics, missing frames change nothing, clearing and the bounding box agree, and saving and reading gives the file again to six digits. Mean value coordinates of points inside a cage equal their closed form and reproduce points and linear fields, convex or not, in space and in the plane.",
"parents before children; freshly made bones; single scale; targets within a hundredth; motion files with one root, rotations in degrees, position channels replace offsets; cage points away from the planes of the cage's triangles; planar polygons star shaped around the point", ["rig_geo3.cpp","rig_geo3.h","rig_bvh.cpp","rig_bvh.h","rigopt.h","rig_msh.h","cagedef.h"], [("UpdateBoneRotTrans","rig_geo3.cpp"),("Skinning_LBS","rig_geo3.cpp"),("Rig_Sensitivity_Skeleton","rigopt.h"),("Read_BioVisionHierarchy","rig_bvh.cpp"),("MeanValueCoordinate_Triangle","cagedef.h")], G),
prop("C32", "Laplacian and as-rigid-as-possible mesh deformation",
"On any triangle mesh, set of constrained coordinates and starting shape, the Laplacian deformers return the shape that solves their least-squares problem: the graph Laplacian of the rest shape is kept where points are free and given positions are met as rows, or as penalties, together with penalties on motion along given normals; with and without preconditioner, again after moving the handles, and without motion when nothing is displaced. The edge based as-rigid-as-possible deformers return the Gauss-Newton step of the edge energy, updating rotations from the left, and leave a rigidly moved mesh alone; their matrix-vector products equal the assembled matrix. The deformers that eliminate or average rotations solve their reduced system, making the free points stationary and keeping constrained coordinates exactly. The rotation fitted to each one-ring is the best one (a rotation whose remainder is symmetric and positive), and the linearised fit converges quadratically near a rigid motion.",
"meshes of up to about twenty points with at least one fixed point; residuals to the solvers' tolerances; rotations of a step below one radian; one-rings that span space for fitted rotations", ["deflap.cpp","deflap.h","defarap.cpp","defarap.h"], [("CDef_LaplacianLinear","deflap.cpp"),("CDef_LaplacianLinearGram","deflap.cpp"),("CDef_ArapEdge","defarap.cpp"),("Deformer_Arap","defarap.cpp"),("UpdateRotationsByMatchingCluster_SVD","defarap.cpp")], G),
prop("C33", "Grid fluids, direction fields, patches, plane rigid bodies, two-view geometry",
"Bilinear interpolation on a grid equals the value at the nearest point of the grid's range for any position, also outside; the staggered divergence and pressure gradient equal their definitions, the Gauss-Seidel pressure solve converges to the discrete Poisson equation with closed walls so that the projected velocity has no divergence and no flow through walls, and semi-Lagrangian advection (staggered and cell-centred) takes the interpolated value at the back-traced point. For unit directions with four-fold symmetry on unit normals the nearest representative and the number of quarter turns are right for any weight, and smoothing in order, in random order and in the plane sets each point, in the order used, to the successive weighted combination of its neighbours' nearest representatives, tangent and of unit length, an aligned field staying aligned. Coons patches from Bezier borders (four-sided, three-sided away from the corners), Hermite and cubic Bezier patches meet their border curves and equal their definitions, also when sampled. A step of plane rigid bodies moves free bodies by free flight, never moves fixed ones, changes the linear momentum of any crowd without fixed bodies by gravity only, and pushes a vertex out of the edge it entered along the normal with equal and opposite impulses, with friction within the cone that slows the sliding and never reverses it. Reprojection errors equal the pin-hole model and their derivatives by depth, translation and rotation its derivatives, and a stochastic bundle adjustment step never raises the error and keeps the rotation orthogonal. The kinetic damper stops the motion exactly at a peak of the energy (from the fourth call on) and tests of the boxes of three to six points against the cube around the origin are exact.",
"grids of two cells or more in each direction; ties between directions skipped; contact depth below a fiftieth of the body", ["fdm_array2.h","fdm_stablefluids.h","4rotsym.h","geo_surface_parametric.h","rgd_v2m3.cpp","cvbundleadjust.h","kinetic_damping.h","geo_aabb.h"], [("LinearInterpolationOnGrid2","fdm_array2.h"),("AdvectionSemiLagrangian_StaggeredGrid2","fdm_stablefluids.h"),("FindNearestOrientation","4rotsym.h"),("getPointCoonsQuad_CubicBezier","geo_surface_parametric.h"),("Steptime_Rgd2","rgd_v2m3.cpp"),("ReprojectionEnergy","cvbundleadjust.h"),("Damp","kinetic_damping.h"),("IsContact_Orgin_AabbOfPoint3","geo_aabb.h")], G),
prop("C34", "Pyramids, wedges, points on meshes, boxes, hair shapes, elastic polylines",
"The volume of a pyramid or wedge equals that of the body for flat faces, whichever corner comes first, and changes sign when mirrored; a position from element coordinates is the shape functions' combination of the corners, and the coordinates of the origin are found from a start nearby. A point on a triangle mesh, a tetrahedron's face or a height field given by an index and two ratios has the barycentric position and unit normal, is valid exactly when its index exists and its three ratios lie in the unit interval up to the tolerance, and survives writing and reading. Plane bounding boxes grow, unite, intersect (with clearance) and test circles' boxes as sets of points do, the empty box being neutral. A helical hair has edges of the given length on the helix of the given radius and pitch, with directors transported along it; boundary flags fix exactly the first two points, the first and the last angle of every hair; making directors orthogonal, transporting them and updating a hair leave unit directors orthogonal to their edges, move free points only by their step and twist by the given angle. An elastic beam polyline clamped at its first point and dragged at another takes the shape of least energy whatever drags came before, meeting both ends exactly, and a step of the dragged rod polyline solves its Newton system.",
"Newton starts within a twentieth of the solution in elements of moderate shape; hairs of three points or more; rods of four points or more that are not folded", ["geosolidelm_v3.cpp","point_on_surface_mesh.cpp","srch_bv2_aabb.h","hair_darboux_util.cpp","hair_darboux_util.h","polyline_elastic_beam2.h","polyline_elastic_rod2.h"], [("Volume_Wedge","geosolidelm_v3.cpp"),("PositionOnMeshTri3","point_on_surface_mesh.cpp"),("CBoundingBox2","srch_bv2_aabb.h"),("MakeConfigDaboux","hair_darboux_util.h"),("UpdateSolutionHair","hair_darboux_util.cpp"),("SolveLinearStatic","polyline_elastic_beam2.h"),("DragPolylineElastic_Rod2","polyline_elastic_rod2.h")], G),
]
NA = {}
