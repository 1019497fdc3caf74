# hand-written parts of DESIGN.md, per property
T = "compared with a relative tolerance tied to the generated scale; "
ORACLE = {
"C01": "exhaustive loop over all primitives (points, spheres, boxes, triangles) with geometric predicates written in the harness.",
"C02": "exhaustive nearest / range search over the points; tree invariants recomputed from the points.",
"C03": "all pairs of triangles / vertex-triangle / edge-edge pairs tested by predicates written in the harness.",
"C04": "adjacency rebuilt with std::map / std::set from the element list.",
"C05": "a model-free invariant check over random edit histories (flip, insert, split, collapse, delete): manifold, mutual adjacency, orientation, area, Delaunay in-circle where promised.",
"C06": "area and boundary-edge bookkeeping of the generated polygon with holes; in-circle test; point location.",
"C07": "a model of the CAD shape (loops of vertices) kept beside the real one over random edit and drag histories; sampled curve geometry.",
"C08": "face-adjacency and in-sphere invariants after each of a history of insertions, edge/face swaps and deletions, volume conservation.",
"C09": "dense matrices in double / complex assembled from the same element contributions.",
"C10": "dense elimination and residuals; algebraic identities of incomplete factorisation; Krylov invariants.",
"C11": "central differences of energy and force with step-size control; symmetry; rigid-motion invariance.",
"C12": "element integrals by high-order quadrature written in the harness; polynomial patch tests; dense assembly.",
"C13": "central differences; geometric definition of each projection; conservation of momentum and centre of mass.",
"C14": "an expression tree evaluated directly by the generator that printed the text.",
"C15": "enumeration of all basic solutions (vertices) of the generated program.",
"C16": "round trip and texts generated together with the mesh they stand for, with the freedom of the format (spaces, comments, order).",
"C17": "reference splitting / number reading in the harness; byte-level writers of NPY and PPM.",
"C18": "a path generator that keeps the curve it printed; sampled comparison; DXF entities parsed back.",
"C19": "algebraic identities (orthogonality, homomorphism, inverse), central differences, dense reference decompositions.",
"C20": "polynomials built from chosen roots; sign changes on a fine grid.",
"C21": "dense sampling, de Casteljau, adaptive quadrature written in the harness, brute-force nearest point.",
"C22": "separating planes and support functions evaluated over all vertices and faces.",
"C23": "dense minimisation with closed-form regions written independently; optimality conditions.",
"C24": "Green-formula sums, winding by angle, exhaustive segment intersection.",
"C25": "exhaustive extremes, exact polyhedral integrals, matrix application by hand.",
"C26": "closed-form vertex sets, volumes of polyhedra, combinatorial surface checks, Catmull-Clark rule evaluated from the definition, flood fill for contours.",
"C27": "Bellman-Ford style relaxation; definition of clusters and of the exponential map; offsets by exact distances.",
"C28": "projection matrices multiplied by hand, inverse projections, rays through known points, handle geometry.",
"C29": "exact integrals of monomials, series for special functions, statistical checks with generous deterministic-seed bounds, direct convolution.",
"C32": "dense normal equations, Gauss-Newton systems and Schur complements assembled from the energies, solved residuals, polar decomposition conditions.",
"C33": "clamped bilinear values, discrete operators and back-tracing evaluated directly, residual of the pressure equation, vertex-by-vertex replay of the smoothing (all neighbour orders), de Casteljau and blending formulas, momentum and Coulomb conditions on the step seen from outside, pin-hole projection with central differences.",
"C34": "exact volumes of affine images, shape functions, barycentric sums, set arithmetic on boxes, smallest rotations by Rodrigues' formula, dense solution of beam and rod systems built from the element energies (decided in C14).",
"C31": "own 4x4 products and forward kinematics, weighted sums, central differences, the text the generator wrote, the vector form of mean value coordinates.",
"C30": "voxel by voxel enumeration, relaxation, slab tests, face pairing of tetrahedra, analytic signed distances with their volumes and areas.",
}
LIMITS = {
"C07": "`CadTopo::AddVtx_Edge` prints TODO for an edge used reversed in a loop (not reachable through the present API); bounding box of an edge uses end points only.",
"C08": "`AddPointTetDelaunay` needs points in general position; most of dtet_v3.cpp is commented out.",
"C09": "`MatVec`/`Merge` with an empty `val_dia_`, `Merge` without any off-diagonal block.",
"C10": "breakdown of BiCGSTAB; systems with |b|^2 < 1e-30 are taken as zero.",
"C12": "2D/3D Navier-Stokes stabilisation constants (tau) are modelling choices and taken from the code; Helmholtz uses 3.1416.",
"C14": "no scientific notation; sqrt/log of x <= 0 and division by |x| < 1e-20 give 0.",
"C15": "problems without variables; theoretical cycling.",
"C16": "OBJ faces with more than four corners in `Read_Obj3`, negative OBJ indices, TetGen files numbered from 1.",
"C17": "BVH files with blank lines, octal-looking integers (strtol base 0).",
"C18": "SVG arcs, T commands, several sub-paths, single-quoted attributes; a path must end in Z.",
"C19": "Euler angles at gimbal lock and other orders than (2,1,0),(2,0,1); slerp does not take the shorter way; inverse of matrices with |det| < 1e-10; functions that do not compile (`CMat3::MatMatTrans`, `SecondInvarint`, `CMat4::SetQuaternion`).",
"C20": "clustered or multiple roots: only termination and range.",
"C21": "a dip of the speed between quadrature nodes (cusp) in the adaptive arc length; Catmull-Rom with fewer than three points.",
"C23": "`Nearest_Line_Circle` is a fixed-point iteration; only parallelograms and mildly warped quads.",
"C24": "`WindingNumber_Polyline2` returns an angle; `Smooth_Polyline`'s window is asymmetric (kept as it is).",
"C26": "`CBox::IntersectionPoint` is a stub; Catmull-Clark keeps boundary vertices; the Reeb graph on coarse meshes.",
"C27": "`DijkstraElem`/`DijkstraPoint` assert on disconnected meshes; `MeshClustering` is seeded by random_device, so only its invariants are checked.",
"C28": "handles turn/move by half of the cursor's movement (design); rotation-handle picking of edge-on circles.",
"C29": "negative noise coordinates; `ComputePerlin` with more than 256 cells; TriGauss tables have ten digits.",
"C32": "meshes without a fixed point (singular systems); changing the constraints of the row-constrained deformer after its first use.",
"C33": "corners of the three-sided Coons patch (0/0 in the formula); grids with a single row; contacts of several vertices only through momentum.",
"C34": "the sign convention of wedges is taken as it is (negative for a counter-clockwise bottom); rods of three points (the five-diagonal solver needs four).",
"C31": "bones re-initialised in place; several roots in one motion file; iterating the rig solver; mean value coordinates on the cage surface.",
"C30": "`CGrid3::Set` and the mesh functions number voxels with z fastest, morphology and segments with x fastest; stuffing lattices that are graded other than towards the surface, or refined at the wall of the box (known finding stuffing_walls); cube boxes include deleted cubes.",
}
GENERAL = """
Read and judged, but not turned into a property (modelling choices, unreachable, or not callable):

* rod frame Hessians are not symmetric at large twist by construction (`sym=false`); 3D Navier-Stokes `tau` uses `myu`, PSPG sign.
* `AddWdWddW_Solid3*` set (do not add) the volume.
* `geo_gjksat2.h` and `geo_gjksat3.h` define the same templates and cannot be included together; `FlatKnot` and `MeshTri3D_GeodesicPolyhedron` are non-inline in headers.
* `lp.h`, `fem_solidlinear.h`, `cvcamera.h` are not self-contained (need other headers first).
* the second `MeanValueCoordinate_Polygon2`, `Nearest_Point_MeshTetFace3D`, `Project_PointsIncludedInBVH_Outside` cannot be called.
* BVH motion: `SetPose` composes channel rotations in file order, position channels overwrite the offset, "End Site" becomes a bone called "Site".
* `parallel_for` with an index type so narrow that count + threads overflows it.

Everything under `opengl/`, `glfw`, `imgui` and the examples needs a display and is not covered; `eigen/` and `cuda`/`thread` variants only where a
property says so.
"""
MISSED = set()
