NOTE = ("Held on the executions observed: generated and hostile workloads through the public API, every result "
        "judged by an independent oracle. Trusts torch/numpy arithmetic and the reference models in vlib/; CPU only.")
RM = "runtime monitoring: "

prop("C01", "Rotation conversions keep the rotation and return canonical values",
     "Converting a rotation between any two supported descriptions (unit quaternion of either sign, rotation matrix, axis-angle, "
     "Rodrigues-Frank, homochoric, cubochoric, Bunge Euler angles, six-dimensional) describes the same physical rotation in the library's "
     "documented sign conventions to within floating-point accuracy, for every rotation including the identity, tiny angles and half turns. "
     "Results lie in the canonical range: unit quaternions with non-negative real part, proper orthonormal matrices, unit axes with angle in "
     "[0, pi], Euler angles in [0,2pi]x[0,pi]x[0,2pi], homochoric vectors inside the ball, cubochoric vectors inside the cube. "
     "The batch shape of the input does not affect the result.",
     ["inputs", "configurations"], "every rotation, every ordered pair of representations and every chain of conversions, float32 and float64, any batch shape",
     "Tests round-trip ten random rotations and a short edge list through quaternion pairs at 1e-5; half turns, tiny angles, axes on symmetry planes, cube faces, most pairs and any (H, W, n) batch are never reached.",
     ["ebsdtorch/s2_and_so3/orientations.py"],
     [("closed-form and polynomial conversion formulas with branch selection by masks", "ebsdtorch/s2_and_so3/orientations.py"),
      ("equal-volume cube/ball map", "ebsdtorch/s2_and_so3/orientations.py:cu2ho, ho2cu")],
     ["return value of every published conversion"], RM + "online reference-model oracle on every conversion event", NOTE)

prop("C02", "Quaternion algebra is the rotation group",
     "Quaternion product, conjugation, normalisation, standardisation, point rotation, angle, axis, real-part shortcuts and spherical interpolation agree "
     "with the algebra of 3-D rotations: products compose, conjugates invert, rotating a point equals multiplying by the rotation matrix and preserves "
     "length, and the shortcut forms equal the full product. Interpolation moves along the geodesic at constant speed with the endpoints at 0 and 1, and the "
     "quaternion returned for a pair of directions rotates the first onto the second, also for equal and opposite directions. "
     "All operations broadcast over batches like any torch function.",
     ["inputs", "configurations"], "every unit quaternion (either sign), every point, every broadcastable batch shape, float32 and float64",
     "No test calls these functions directly; they are only exercised through conversions of a handful of quaternions.",
     ["ebsdtorch/s2_and_so3/quaternions.py"],
     [("expanded Hamilton product", "ebsdtorch/s2_and_so3/quaternions.py:qu_prod_raw"), ("sandwich product specialised to points", "ebsdtorch/s2_and_so3/quaternions.py:qu_apply")],
     ["return values of the quaternion functions"], RM + "algebraic-law and reference-model oracles on observed calls", NOTE)

prop("C03", "Sphere projections are inverse, equal-area bijections",
     "The square and hexagonal equal-area projections and their inverses map the square or hexagon one-to-one onto the unit hemisphere: outputs are unit "
     "vectors, projecting and lifting are mutually inverse everywhere including the pole, the equator, the diagonals and the edges, and equal planar areas go to equal solid angles. "
     "The two-hemisphere layout puts each hemisphere in its own half without mixing them, and converting between Cartesian and (polar, azimuth) angles is mutually inverse.",
     ["inputs", "configurations"], "every point of the unit sphere and of the planar domains, both hemispheres, float32 and float64, any batch shape",
     "No test touches the projections; area preservation and behaviour at the centre, diagonals and edges are continuum statements.",
     ["ebsdtorch/s2_and_so3/sphere.py", "ebsdtorch/utils/rosca_lambert.py", "ebsdtorch/crystallography/kvectors.py", "ebsdtorch/simulation/monte_carlo.py"],
     [("Rosca-Lambert forward and inverse maps", "ebsdtorch/s2_and_so3/sphere.py"), ("hexagonal map", "ebsdtorch/utils/rosca_lambert.py:hexagon_to_hemisphere")],
     ["return values of the projection functions"], RM + "round-trip, unit-norm and measured-Jacobian oracles", NOTE)

prop("C04", "Laue symmetry tables are the eleven crystallographic Laue groups",
     "For each of the eleven Laue classes the rotational symmetry operators form a group of unit quaternions with the identity first, with the crystallographically "
     "correct elements and with the published multiplicity. Every space group number and every point group symbol maps to its correct Laue class, point group and crystal system wherever the library derives one, "
     "and anything outside the valid range is rejected.",
     ["inputs", "configurations"], "all eleven Laue classes, all 230 space groups, all 32 point group symbols, and invalid identifiers",
     "No test checks the operator tables or the space-group tables.",
     ["ebsdtorch/s2_and_so3/laue_generators.py", "ebsdtorch/utils/symmetry_classes.py", "ebsdtorch/crystallography/unit_cell.py"],
     [("operator tables", "ebsdtorch/s2_and_so3/laue_generators.py:laue_elements"), ("space group ranges", "ebsdtorch/utils/symmetry_classes.py")],
     ["returned operator sets and class numbers"], RM + "group-axiom monitor and independent crystallographic tables over the full finite domain", NOTE)

prop("C05", "Reducing an orientation to its fundamental zone keeps the crystal state",
     "Moving an orientation into the fundamental zone of its Laue class returns a symmetrically equivalent orientation inside the zone, of minimal rotation angle, with the same result "
     "for every symmetrically equivalent input and for a repeated application. Membership tests agree with each other and with the definition, the listed equivalents are exactly the "
     "symmetry orbit, and the symmetry-reduced rotation angle is the smallest angle over that orbit. Mapping a zone to the cubochoric cube and back is the identity, with results inside the zone and the cube.",
     ["inputs", "configurations"], "every orientation incl. zone boundaries, identity and half turns; all eleven Laue classes; float32 and float64; any batch shape",
     "No test exercises fundamental zones; boundaries, all eleven classes and equivalence of every orbit member are universal statements.",
     ["ebsdtorch/s2_and_so3/laue_fz_ori.py"],
     [("largest-real-part selection over the symmetry orbit", "ebsdtorch/s2_and_so3/laue_fz_ori.py:ori_to_fz_laue"), ("Rodrigues half-space tests", "ebsdtorch/s2_and_so3/laue_fz_ori.py:ori_in_fz_laue"),
      ("cube to zone scaling", "ebsdtorch/s2_and_so3/laue_fz_ori.py:cube_to_rfz, rfz_to_cube")],
     ["returned orientations, membership masks, angles"], RM + "symmetry-orbit oracle with metamorphic equivalent inputs", NOTE)

prop("C06", "Disorientation is symmetric, symmetry-invariant and minimal",
     "The disorientation between two orientations is a symmetrically equivalent misorientation with the smallest rotation angle over all equivalents of both crystals, and every function that reports "
     "a disorientation or its angle agrees with that minimum. The angle is zero exactly for equivalent orientations, never NaN, unchanged when either orientation is replaced by an equivalent one, "
     "symmetric in its arguments, and satisfies the triangle inequality for one Laue class.",
     ["inputs", "configurations"], "all pairs of orientations (identical and equivalent ones included), all pairs of Laue classes, float32 and float64",
     "No test computes a disorientation.",
     ["ebsdtorch/s2_and_so3/laue_fz_ori.py", "ebsdtorch/s2_and_so3/laue_fz_misori.py"],
     [("double-coset enumeration", "ebsdtorch/s2_and_so3/laue_fz_misori.py"), ("real-part maximisation", "ebsdtorch/s2_and_so3/laue_fz_ori.py:disori_angle_laue")],
     ["returned misorientations and angles"], RM + "brute-force double-coset oracle and metric-axiom monitors", NOTE)

prop("C07", "Direction fundamental sectors tile the sphere",
     "For each Laue class every direction has a symmetrically equivalent representative in the fundamental sector, the sector covers exactly the published share of the sphere, and directions away from sector "
     "boundaries have exactly one representative. Reducing a direction returns a unit vector of its own orbit inside the sector, the same for every equivalent direction, and listing equivalents returns the whole orbit.",
     ["inputs", "configurations"], "every direction incl. poles, mirror planes and sector boundaries; all eleven Laue classes; float32 and float64",
     "No test exercises the sphere sectors.",
     ["ebsdtorch/s2_and_so3/laue_fz_s2.py"],
     [("sector inequalities", "ebsdtorch/s2_and_so3/laue_fz_s2.py:s2_in_fz_laue"), ("orbit search", "ebsdtorch/s2_and_so3/laue_fz_s2.py:s2_to_fz_laue, s2_equiv_laue")],
     ["masks, reduced directions, orbits"], RM + "orbit oracle and tiling counters", NOTE)

prop("C08", "Orientation and direction samplings are valid, complete and uniform",
     "Every sampling routine returns the number of points it promises (the rejection-based zone samplings: approximately), as unit vectors or unit quaternions, uniformly distributed over the sphere, the rotation group or the requested fundamental zone, with "
     "no systematic gap or cluster. Zone samplings contain only points of the zone, about as many as requested; sampled at a given angular resolution, they come within that resolution of orientations anywhere in the zone on average, and never farther than twice it. Seeded random routines reproduce.",
     ["inputs", "configurations"], "all sample counts, resolutions, Laue classes and modes the routines accept",
     "Tests only use one cubochoric random sampling as input data and never look at its distribution.",
     ["ebsdtorch/s2_and_so3/sampling.py", "ebsdtorch/s2_and_so3/laue_fz_ori.py", "ebsdtorch/s2_and_so3/laue_fz_s2.py"],
     [("Fibonacci, super-Fibonacci, Shoemake and cubochoric samplings", "ebsdtorch/s2_and_so3/sampling.py"), ("zone samplings", "ebsdtorch/s2_and_so3/laue_fz_ori.py:sample_ori_fz_laue, sample_ori_fz_laue_angle")],
     ["returned samples"], RM + "distribution monitors (moments, cell counts, covering radius) on observed samples", NOTE)

prop("C09", "Rigid-motion exponential and logarithm are inverse and exact",
     "The exponential of a twist equals the matrix exponential of its 4x4 generator, always yields a rigid motion, and all variants of the exponential (matrix, split, quaternion) agree. "
     "The logarithm inverts the exponential for every rotation angle below pi, including zero and tiny angles, without NaN and without dependence on the rest of the batch.",
     ["inputs", "configurations"], "every twist with rotation angle in [0, pi), any translation, float64 and float32, any batch size",
     "Tests use random twists of one magnitude and one batch size.",
     ["ebsdtorch/lie_algebra/se3.py"],
     [("Rodrigues formula and left Jacobian with small-angle series", "ebsdtorch/lie_algebra/se3.py")],
     ["return values of the exponential and logarithm maps"], RM + "matrix-exponential oracle and round-trip monitor", NOTE)

prop("C10", "Detector geometry is self-consistent",
     "A pattern centre with tilts converts to a rigid motion and back unchanged for both parameterisations. Projecting a detector pixel to the sample frame and back returns the pixel, for every geometry, crop and binning, "
     "and the pixel grid used for simulation is the set of physical pixel (or binned pixel) centres expressed in the sample frame, in row-major order. "
     "The geometry an optimiser perturbs equals the starting geometry at zero perturbation, and no call changes the tensors passed in.",
     ["inputs", "histories", "configurations"], "all pattern centres, tilts, detector shapes, pixel sizes, binnings and sequences of geometry calls",
     "No test builds a geometry; binning and off-axis geometries are never exercised.",
     ["ebsdtorch/ebsd/geometry.py", "ebsdtorch/ebsd/fitting.py"],
     [("pattern centre to SE(3) and back", "ebsdtorch/ebsd/geometry.py:bruker_geometry_to_SE3, bruker_geometry_from_SE3"), ("projection and back-projection", "ebsdtorch/ebsd/geometry.py:EBSDGeometry")],
     ["poses, pixel coordinates, ray directions"], RM + "independent ray-geometry oracle and round-trip monitors", NOTE)

prop("C11", "Deformation projection assigns every pixel the stated deformed direction",
     "For every deformation state (rigid-motion vector with component mask, orientation, inverse deformation gradient) the direction assigned to each detector pixel is the unit vector along the inverse deformation gradient applied to the "
     "orientation applied to the moved pixel position, pixel (or binned pixel) centres in row-major order. The undeformed state sees exactly what the plain detector geometry sees, masked components have no influence, each state of a batch is "
     "treated exactly as if it were alone, and projected patterns are the master-pattern values at those directions.",
     ["inputs", "configurations"], "all detector shapes, pattern centres, tilts and small deformation states, any batch size",
     "No test touches the high-resolution projection.",
     ["ebsdtorch/ebsd/project_hrebsd.py"],
     [("homography application", "ebsdtorch/ebsd/project_hrebsd.py")],
     ["projected coordinates and warped patterns"], RM + "reference homography oracle", NOTE)

prop("C12", "Master-pattern lookup is a pure function of pattern and direction",
     "Looking up directions in a master pattern returns the interpolated intensity of the projected hemisphere at each direction: exact at grid nodes, within the range of neighbouring nodes elsewhere, "
     "taking the northern or southern hemisphere by the sign of z, and independent of direction length, of batching and of any lookup made before. Binning, normalising and contrast enhancement change the stored pattern only "
     "as stated and later lookups always reflect the current pattern.",
     ["inputs", "histories", "configurations"], "all directions, pattern sizes, interpolation settings and sequences of lookup, binning and normalising calls",
     "No stable test constructs a master pattern; history dependence between lookups cannot be sampled by single calls.",
     ["ebsdtorch/ebsd/master_pattern.py", "ebsdtorch/s2_and_so3/sphere.py"],
     [("side-by-side projection and grid sampling", "ebsdtorch/ebsd/master_pattern.py:interpolate")],
     ["interpolated intensities along call histories"], RM + "history monitor against a bilinear reference model", NOTE,
     state=[("master pattern tensor", "current hemisphere images", "ebsdtorch/ebsd/master_pattern.py")])

prop("C13", "Experimental pattern sets keep every per-pattern record aligned",
     "Whatever sequence of setting, reading, cleaning and indexing operations is applied, patterns, positions, orientations, deformation states and indexing results stay attached to the pattern they were set for, "
     "for full and partial index sets, and reading back returns what was last written. Combining per-phase results assigns every pattern the phase and orientation with the best metric. "
     "Cleaning steps act on each pattern as stated and keep the pattern count, order and shape.",
     ["inputs", "histories"], "all sequences of operations with full, partial, repeated and permuted index sets, and any number of phases",
     "No test constructs the class.",
     ["ebsdtorch/ebsd/experiment_pats.py"],
     [("per-pattern tensors indexed by flat pattern id", "ebsdtorch/ebsd/experiment_pats.py:ExperimentPatterns")],
     ["values read back along call histories"], RM + "operation histories against a sequential dictionary model", NOTE,
     state=[("patterns, coordinates, orientations, deformation", "per-pattern records", "ebsdtorch/ebsd/experiment_pats.py")])

prop("C14", "Chunked nearest-neighbour search equals exhaustive search",
     "Whatever the order, number and size of the chunks in which data and queries are supplied, the search returns for every query the k best data rows under the requested metric with their true scores (to the precision of the requested arithmetic), sorted best first and "
     "without duplicates or invented rows.",
     ["inputs", "histories", "configurations"], "all data and query sets, all chunkings incl. ragged last chunks, all metrics, k from one to the data size",
     "No stable test runs a search; chunk boundaries and merges are history-dependent.",
     ["ebsdtorch/utils/knn.py"],
     [("running top-k merge across chunks", "ebsdtorch/utils/knn.py:ChunkedKNN")],
     ["indices and scores returned after each chunk history"], RM + "chunk-history monitor against a brute-force model", NOTE,
     state=[("running top-k tables", "best indices and scores so far", "ebsdtorch/utils/knn.py")])

prop("C15", "Dictionary indexing returns the best-matching dictionary orientation",
     "For every experimental pattern, dictionary indexing reports the dictionary orientations whose simulated patterns have the highest normalised correlation with it, in order, independent of how patterns and dictionary are chunked; "
     "a noise-free simulated pattern of a dictionary orientation is indexed to that orientation or a symmetric equivalent. The principal-component variant returns the same winner when enough components are kept.",
     ["inputs", "configurations"], "all pattern sets, orientation grids, signal masks, binnings, batch sizes and Laue classes",
     "The two indexing tests cannot even be collected here; no stable test indexes a pattern.",
     ["ebsdtorch/ebsd/indexing.py", "ebsdtorch/utils/knn.py"],
     [("dictionary simulation loop", "ebsdtorch/ebsd/indexing.py:dictionary_index_orientations"), ("covariance accumulation and projection", "ebsdtorch/ebsd/indexing.py:pca_dictionary_index_orientations")],
     ["orientations and scores stored in the pattern set"], RM + "end-to-end monitor against brute-force correlation", NOTE)

prop("C16", "Orientation refinement never returns a worse match",
     "Refining orientations, by grid search or by gradient, never lowers the correlation between a pattern and the simulation of its phase at its stored orientation (within the chosen arithmetic), changes nothing but the stored orientations, does not depend on the batch size or on other phases, "
     "and brings slightly perturbed orientations of noise-free patterns closer to the truth; stored orientations stay unit quaternions. The local search grid is centred on the identity, contains it, and stays within the requested angular range.",
     ["inputs", "configurations"], "all starting orientations, detector geometries, grid extents, batch sizes and phases",
     "No test refines an orientation.",
     ["ebsdtorch/ebsd/refining.py"],
     [("local cubochoric grid", "ebsdtorch/ebsd/refining.py:get_local_orientation_grid"), ("accept-if-better update", "ebsdtorch/ebsd/refining.py")],
     ["orientations and correlations before and after"], RM + "before/after correlation monitor", NOTE)

prop("C17", "Pattern-centre fitting is independent of batching and finds the best match",
     "The spatial pattern-centre fit returns for every pattern the dictionary orientation with the best shifted correlation over the whole dictionary, with the same result for every dictionary and pattern batch size, and leaves its inputs unchanged. "
     "The pixel grids and geometries it builds agree with the detector geometry used everywhere else.",
     ["inputs", "configurations"], "all pattern and dictionary sizes, batch sizes, detector shapes and binnings",
     "No test runs the fitter.",
     ["ebsdtorch/ebsd/fitting.py"],
     [("FFT cross-correlation with running best", "ebsdtorch/ebsd/fitting.py:spatial_fft_pc_fitter")],
     ["best orientations, shifts and scores"], RM + "batch-metamorphic monitor and brute-force correlation model", NOTE)

prop("C18", "Streaming statistics equal batch statistics",
     "Feeding observations to the streaming covariance in any order and in batches of any sizes yields the mean-centred covariance of all observations, with sorted orthonormal eigenvectors; "
     "streaming principal components stay orthonormal, converge to the leading subspace, and transform and inverse transform are consistent.",
     ["inputs", "histories"], "all observation streams, batch splits, offsets and scales",
     "No test feeds a stream.",
     ["ebsdtorch/utils/pca_covmat.py", "ebsdtorch/utils/pca_online.py"],
     [("pairwise mean/covariance merge", "ebsdtorch/utils/pca_covmat.py:update_covmat, OnlineCovMatrix"), ("Oja and Krasulina updates", "ebsdtorch/utils/pca_online.py")],
     ["covariance, eigenvectors, components after each stream"], RM + "stream-history monitor against batch statistics", NOTE,
     state=[("count, mean, covariance", "running sufficient statistics", "ebsdtorch/utils/pca_covmat.py")])

prop("C19", "Contrast enhancement follows the clipped local equalisation contract",
     "Given images with intensities in [0, 1], adaptive contrast enhancement returns an image of the same shape with values in [0, 1], treats every image of a batch independently, is monotone in the input within a tile, leaves its input unchanged and equals the standard clipped, "
     "tile-interpolated histogram equalisation for every grid and clip limit.",
     ["inputs", "configurations"], "all image shapes, tile grids, clip limits and value distributions incl. constant images",
     "No test runs the contrast enhancement.",
     ["ebsdtorch/preprocessing/clahe.py"],
     [("tiling, clipping and bilinear blending", "ebsdtorch/preprocessing/clahe.py")],
     ["enhanced images"], RM + "reference equalisation model", NOTE)

prop("C20", "Neighbour averaging of patterns is a weighted mean over the local window",
     "Non-local averaging replaces each pattern by a convex combination of the patterns in its square scan neighbourhood, weighting similar patterns more, with the weights of the published formula for the given or fitted coefficient and noise: results stay within the neighbourhood's value range, identical patterns are unchanged, "
     "patterns outside the window have no influence, and nothing depends on how the scan is chunked.",
     ["inputs", "configurations"], "all scan shapes incl. edges and corners, window radii, coefficients, noise levels and pattern sizes",
     "No test runs the averaging.",
     ["ebsdtorch/preprocessing/nlpar.py"],
     [("window gathering and weight computation", "ebsdtorch/preprocessing/nlpar.py")],
     ["averaged patterns"], RM + "convexity, locality and reference-model monitors", NOTE)

prop("C21", "Masks, blurring and resampling keep size, range and mass",
     "The radial mask selects exactly the pixels within the stated radius of the stated centre. Gaussian blurring keeps image size, constants and value range and is linear and shift-equivariant; blur-and-downsample "
     "returns the stated reduced size and keeps constants.",
     ["inputs", "configurations"], "all image shapes (odd and even), radii, centres, blur widths and scale factors",
     "No test touches the preprocessing helpers.",
     ["ebsdtorch/preprocessing/radial_mask.py", "ebsdtorch/preprocessing/resampling.py"],
     [("radial mask", "ebsdtorch/preprocessing/radial_mask.py"), ("FFT/convolution blur with padding", "ebsdtorch/preprocessing/resampling.py")],
     ["masks and filtered images"], RM + "reference-model and metamorphic monitors", NOTE)

prop("C22", "Spherical harmonic transforms are exact and invertible",
     "The forward transform of a band-limited function on the sampling grid returns its spherical harmonic coefficients in the documented normalisation, the inverse transform evaluates them, and the two are mutually inverse and linear, "
     "for complex and real signals, every bandwidth and batch size, each in agreement with directly evaluated spherical harmonics.",
     ["inputs", "configurations"], "all bandwidths, coefficient sets, batch shapes, real and complex transforms, float32 and float64",
     "Tests check round trips at three small bandwidths; normalisation, linearity, single harmonics and batching are not checked.",
     ["ebsdtorch/harmonics/sht.py"],
     [("Driscoll-Healy grid and quadrature", "ebsdtorch/harmonics/sht.py"), ("associated Legendre recursion", "ebsdtorch/harmonics/sht.py")],
     ["coefficients and reconstructed signals"], RM + "direct spherical-harmonic reference model", NOTE)

prop("C23", "Wigner d values are those of the rotation group",
     "Every Wigner d-matrix element the library tabulates, for any angle it accepts, any degree and any order pair, equals the mathematical value; the resulting matrices are orthogonal, satisfy the symmetry relations, and "
     "table indices map one-to-one to (degree, order, order) triples. Both range-extension schemes stay finite and accurate at high degree.",
     ["inputs", "configurations"], "all degrees up to several hundred, all order pairs, angles from 0 to pi, both precisions",
     "One test checks a single value.",
     ["ebsdtorch/harmonics/wigner_d_logspace.py", "ebsdtorch/harmonics/wigner_d_xnum.py"],
     [("log-space recursion", "ebsdtorch/harmonics/wigner_d_logspace.py"), ("extended-exponent recursion", "ebsdtorch/harmonics/wigner_d_xnum.py")],
     ["tabulated values"], RM + "exact-arithmetic reference oracle and unitarity monitor", NOTE)

prop("C24", "Rotational cross-correlation peaks at the true rotation",
     "The cross-correlation of two spherical functions over the rotation group equals their directly computed overlap at every rotation of its grid, so that correlating a function with a rotated copy of itself peaks at that rotation; "
     "the fast and reference implementations agree.",
     ["inputs", "configurations"], "all bandwidths, function pairs and rotations",
     "No test computes a correlation.",
     ["ebsdtorch/harmonics/sht_cc.py"],
     [("Fourier-domain sum over d(pi/2) products", "ebsdtorch/harmonics/sht_cc.py")],
     ["correlation volumes"], RM + "direct Wigner-D summation oracle", NOTE)

prop("C25", "Electron Monte Carlo conserves electrons",
     "Every simulated electron is accounted for exactly once: counts are non-negative integers, the number of backscattered events recorded in the energy, depth and direction bins equals the number of electrons that left the sample in those bins, never exceeds the number launched, "
     "a run stops after the step that reaches its limit and one with the same seed reproduces, in both the PyTorch and the OpenCL implementation; recorded yield grows with atomic number and sample tilt as physics demands.",
     ["inputs", "configurations"], "all electron counts, beam energies, tilts, materials, bin settings and batch sizes",
     "No test runs the simulation.",
     ["ebsdtorch/simulation/monte_carlo.py"],
     [("accumulator scatter", "ebsdtorch/simulation/monte_carlo.py:bse_sim_mc")],
     ["accumulator contents"], RM + "conservation monitor over the accumulator", NOTE)

prop("C26", "Space-group operators form the tabulated groups",
     "For each of the 230 space groups the generated symmetry operators form a group modulo lattice translations, of the tabulated order, with proper lattice-preserving integer rotations and with the point-group part of the correct Laue class; "
     "atom orbits are invariant under all operators, contain no duplicates, and have a multiplicity that divides the group order.",
     ["inputs", "configurations"], "all 230 space groups, both origin settings where defined, all atom positions incl. special positions",
     "No test touches the space-group code.",
     ["ebsdtorch/crystallography/groups.py", "ebsdtorch/crystallography/unit_cell.py"],
     [("generator strings and closure", "ebsdtorch/crystallography/groups.py")],
     ["operator sets and atom orbits"], RM + "group-axiom monitor over the full finite domain", NOTE)

prop("C27", "Unit-cell geometry is metric-consistent",
     "Lengths, angles, dot and cross products computed in the direct, reciprocal or Cartesian frame agree with each other and with the lattice parameters; transforming a vector between any two frames and back is the identity, and direct and reciprocal metrics are inverse. "
     "Volume, density and average atomic number follow from the cell contents.",
     ["inputs", "configurations"], "all seven crystal systems, all lattice parameters, all vectors and frames, any batch size",
     "No test constructs a cell.",
     ["ebsdtorch/crystallography/unit_cell.py"],
     [("metric and structure matrices", "ebsdtorch/crystallography/unit_cell.py")],
     ["matrices, lengths, angles, transformed vectors"], RM + "independent lattice-geometry model", NOTE)

prop("C28", "Reflection lists are complete and physically consistent",
     "Enumerating reflections down to a minimum spacing returns every allowed reflection exactly once with its true spacing and none below the limit, for orthogonal and oblique cells; lattice and glide/screw extinctions coincide with vanishing structure factors, "
     "and symmetrically equivalent reflections have equal magnitudes.",
     ["inputs", "configurations"], "all crystal systems, centrings, space groups, atom sets and resolution limits",
     "No test enumerates reflections.",
     ["ebsdtorch/crystallography/unit_cell.py", "ebsdtorch/crystallography/diffraction.py"],
     [("index limits and filters", "ebsdtorch/crystallography/unit_cell.py"), ("structure factor sum", "ebsdtorch/crystallography/diffraction.py")],
     ["reflection lists, spacings, structure factors"], RM + "brute-force enumeration and structure-factor model", NOTE)

prop("C29", "Dynamical diffraction inputs are physical and reproducible",
     "The Bloch-wave structure matrix built for a crystal is consistent with its Fourier coefficients: Hermitian without absorption, with each off-diagonal entry equal to the coefficient of the reflection difference, independent of other beams; "
     "computed master patterns are finite, non-negative, invariant under the crystal's symmetry, reproducible, and leave their inputs unchanged.",
     ["inputs", "configurations"], "all crystals, energies, beam lists and depth settings",
     "No test runs the diffraction code.",
     ["ebsdtorch/crystallography/diffraction.py", "ebsdtorch/crystallography/ebsd_master.py"],
     [("difference lookup tables", "ebsdtorch/crystallography/diffraction.py"), ("scattering matrix / lgh integrals", "ebsdtorch/crystallography/ebsd_master.py")],
     ["structure matrices and intensities"], RM + "independent structure-matrix model and invariance monitors", NOTE)

prop("C30", "Scattering factors and their special functions are accurate",
     "The exponential integrals agree with their mathematical definition to near machine precision over their whole domain, electron wavelength and interaction constants follow from relativistic kinematics, and elastic scattering factors of every element are positive, decrease with scattering angle, "
     "follow the published parameterisations, approach the nuclear limit, are damped by thermal vibration, come with the absorptive part (core and phonon) that the published formulas and the thermal diffuse scattering integral give (positive in the forward direction, growing with vibration, absent without it), and do not depend on how elements, angles and voltages are batched or on the precision beyond rounding.",
     ["inputs", "configurations"], "all real arguments, all tabulated elements, scattering angles, thermal factors and voltages",
     "No test evaluates a scattering factor.",
     ["ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py", "ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py", "ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py"],
     [("rational approximations of exponential integrals", "ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py"), ("tabulated coefficients", "ebsdtorch/crystallography/scattering_factors/")],
     ["function values"], RM + "high-precision (mpmath) oracle and physical-law monitors", NOTE)

prop("C31", "Incident-direction grids cover the asymmetric sphere correctly",
     "The incident-direction grid for a crystal consists of unit directions lying on the hemisphere its flag says, at the grid position its indices say, without duplicates, and applying the crystal's point symmetry to the grid covers the whole sphere.",
     ["inputs", "configurations"], "all 230 space groups, all sampling types and grid sizes",
     "No test builds a direction grid.",
     ["ebsdtorch/crystallography/kvectors.py"],
     [("sampling-type table and masks", "ebsdtorch/crystallography/kvectors.py:kvectors_grid")],
     ["directions and indices"], RM + "projection oracle and coverage monitor", NOTE)

prop("C32", "Image similarity measures are correct and symmetric",
     "Mutual-information measures equal the value computed from the joint histogram of the two images: symmetric, non-negative, maximal for an image with itself, invariant under relabelling of grey levels, zero-bounded for independent images, finite for constant images, and the same "
     "for every batching, chunking and implementation that claims to compute the same quantity.",
     ["inputs", "configurations"], "all image pairs, bin counts incl. values on bin edges, batch shapes and normalisations",
     "No test evaluates a similarity.",
     ["ebsdtorch/utils/mutual_information.py"],
     [("joint histogram accumulation", "ebsdtorch/utils/mutual_information.py")],
     ["similarity values"], RM + "brute-force joint-histogram oracle", NOTE)

prop("C33", "Library calls do not change their inputs or global state",
     "No computation of the library modifies a tensor passed to it, the random state of unrelated code, the default precision, the gradient mode or the thread settings, unless the operation is documented to update the object it is called on; results of one call are not changed by later calls.",
     ["inputs", "histories"], "all public operations in any order, on contiguous, strided and expanded inputs",
     "Tests never look at their inputs after a call.",
     ["ebsdtorch/s2_and_so3", "ebsdtorch/lie_algebra", "ebsdtorch/ebsd", "ebsdtorch/utils", "ebsdtorch/preprocessing", "ebsdtorch/harmonics", "ebsdtorch/crystallography"],
     [("functional tensor code", "ebsdtorch/")],
     ["argument tensors and torch global state around every call"], RM + "mutation and global-state sanitizer wrapped around every public call", NOTE)

prop("C34", "Results depend only on inputs, not on batching or memory contents",
     "Row-wise operations return the same values (to rounding) for a row whatever the batch it is in (with one or more batch dimensions, a single row or no rows included), its position, the batch shape and memory layout; repeating a deterministic call gives the same result, and no result depends on uninitialised memory. Precision of the result follows the precision of the input (conversions, rotations, symmetry, projections and similar elementwise functions).",
     ["inputs", "histories", "configurations"], "all row-wise public operations, batch compositions, memory layouts, repeated calls and heap states",
     "Tests call each function once on one contiguous batch.",
     ["ebsdtorch/s2_and_so3", "ebsdtorch/lie_algebra", "ebsdtorch/ebsd", "ebsdtorch/utils", "ebsdtorch/preprocessing", "ebsdtorch/harmonics", "ebsdtorch/crystallography"],
     [("masked writes into uninitialised outputs", "ebsdtorch/")],
     ["outputs under batch permutation, splitting, layout change and poisoned allocations"], RM + "poisoned-allocation (uninitialised memory) sanitizer and batch-metamorphic monitor", NOTE)

prop("C35", "Utilities: factorisation, progress reporting and file reading are faithful",
     "Splitting a number into two nearly equal factors always returns two positive integers whose product is the number and whose ratio is at most its largest prime factor, from a correct and repeatable prime factorisation; iterating with a progress report yields exactly the underlying items in order, "
     "as they are asked for, and writes only to the given sink; reading a master-pattern file returns both stored hemispheres, summed over the atomic sites and weighted by the energy distribution of the Monte Carlo data, with the right crystal class, and leaves the file alone; importing any module of the library has no side effect.",
     ["inputs", "configurations"], "all positive integers, sized iterables and sinks, all valid pattern files, all modules in any import order",
     "No test touches the utilities.",
     ["ebsdtorch/utils/factorize.py", "ebsdtorch/utils/progressbar.py", "ebsdtorch/io/read_master_pattern.py"],
     [("elliptic-curve factorisation", "ebsdtorch/utils/factorize.py"), ("generator wrapper", "ebsdtorch/utils/progressbar.py"), ("HDF5 reader", "ebsdtorch/io/read_master_pattern.py")],
     ["return values, yielded items, sink contents"], RM + "exhaustive small-domain and generated-file monitors", NOTE)
