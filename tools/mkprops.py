"""Writes properties.jsonl (kept as a script so that the list stays uniform)."""
import json
ZP = "src/zernpy/zernikepol.py"
CZ = "src/zernpy/calculations/calc_zernike_pol.py"
FC = "src/zernpy/calculations/find_pols_coeffs.py"
FZ = "src/zernpy/calculations/fit_zernike_pols.py"
PS = "src/zernpy/zernpsf.py"
CP = "src/zernpy/calculations/calc_psfs.py"
CN = "src/zernpy/calculations/calc_psfs_numba.py"
DI = "src/zernpy/utils/intmproc.py"
PL = "src/zernpy/plotting/plot_zerns.py"
PR = "src/zernpy/props/properties.py"
P = []


def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


add("C01", "Every polynomial reports the right, unique OSA, Noll and Fringe index",
    "For every polynomial with valid orders (m, n), the reported OSA/ANSI, Noll and Fringe indices are the positions of (m, n) in the "
    "three published orderings, and each of the three index maps is a bijection from the valid orders onto an unbroken range "
    "starting at 0 (OSA) or 1 (Noll, Fringe; for Fringe over complete n+|m| shells). All reported orders and indices are plain integers.",
    ["inputs"], "all valid (m, n) with n <= 54 (and index functions beyond that)",
    "Tests compare about a dozen low-order polynomials; parity-dependent branches (n mod 4, sign of m) are not distinguished by a sample.",
    [ZP], [("OSA/Noll/Fringe index formulas", ZP + " get_osa_index, get_noll_index, get_fringe_index"),
           ("index tuple of an instance", ZP + " get_indices")], observe=["ZernPol.get_indices", "ZernPol.get_*_index"])
add("C02", "Index conversions are mutually inverse and never return garbage",
    "Converting any index to orders or to another indexing scheme and back returns the starting value, and every conversion agrees with the "
    "polynomial constructed from that index. An index that belongs to no supported polynomial is rejected with ValueError instead of "
    "yielding orders of a different polynomial, and the generated list of polynomials up to a radial order is exactly the OSA sequence.",
    ["inputs"], "all indices of the three schemes, in and out of the supported range, and all max orders",
    "Tests convert a handful of low indices; off-by-one errors and search-limit effects appear only at particular shells or at the limits.",
    [ZP], [("search of orders by an index", ZP + " index2orders"), ("pairwise conversions", ZP + " osa2noll, noll2osa, osa2fringe, fringe2osa"),
           ("ordered generation", ZP + " generate_polynomials")])
add("C03", "Construction accepts exactly the documented specifications, all equivalent",
    "A polynomial is constructed if and only if exactly one documented index keyword or one radial plus one azimuthal order keyword is given with "
    "plain-integer values denoting a valid polynomial of radial order at most 54; every other specification raises ValueError. "
    "All accepted spellings and schemes denoting the same (m, n) give polynomials with identical orders and indices.",
    ["inputs", "configurations"], "all keyword combinations and values (valid, boundary, wrong parity, |m|>n, negative, too high, wrong type)",
    "The keyword alias tree and the rejection conditions form a product space of which the tests visit a few points.",
    [ZP], [("keyword decision tree", ZP + " ZernPol.__init__"), ("order sanity checks", ZP + " ZernPol.__init__")])
add("C04", "Radial values equal the exact Zernike radial polynomial",
    "For every supported polynomial and every radius in [0, 1] the radial value equals the exact Zernike radial polynomial R(|m|, n) up to "
    "floating-point rounding of its coefficients, independent of the sign of m. The default way and the exact-equation way of calculation "
    "agree wherever both are offered, and the exact way returns zeros together with a warning above its documented order limit.",
    ["inputs"], "all (m, n) with n <= 54, all radii in [0, 1], scalar and array input, both calculation ways",
    "Tests compare calculation ways with each other at a few radii and orders, so common-mode errors and wrong rows of a per-order table pass.",
    [ZP, CZ, FC], [("tabulated and recursive radial polynomials", CZ + " radial_polynomial"), ("exact equation", CZ + " radial_polynomial_eq"),
                   ("coefficients recursion with memory", FC + " find_coeffs_orders"), ("selection of a way by order", ZP + " radial")],
    state=[("coefficient tables", "memoised coefficients per (m, n)", FC)])
add("C05", "Radial derivatives equal the derivative of the exact radial polynomial",
    "For every supported polynomial and every radius in [0, 1] the radial derivative equals d/dr of the exact radial polynomial up to floating-point "
    "rounding, including at r = 0 and r = 1. The default and exact-equation ways agree where both are offered, and the exact way returns zeros with a "
    "warning above its documented order limit.",
    ["inputs"], "all (m, n) with n <= 54, all radii in [0, 1], scalar and array input, both calculation ways",
    "Tests check two ways against each other with tolerances and sampled radii; special branches (m=0, |m|=n, m=1) differ per order.",
    [ZP, CZ, FC], [("tabulated and recursive derivatives", CZ + " radial_derivative"), ("exact equation", CZ + " radial_derivative_eq"),
                   ("derivative coefficients", FC + " find_coeffs_orders_dr")])
add("C06", "Full polynomial = normalisation x radial x angular, orthonormal on the disk",
    "The polynomial value is the product of the normalisation sqrt(n+1) (m=0) or sqrt(2(n+1)), the radial value and cos(m*theta) for m >= 0 or "
    "sin(|m|*theta) for m < 0, and the angular derivative is d/dtheta of the angular part. Consequently any two polynomials are orthogonal over the unit "
    "disk and each one has unit mean square.",
    ["inputs"], "all pairs of supported polynomials, all radii and angles",
    "Tests sample single values; a wrong sign convention or factor for one family of (m, n) breaks orthonormality only for untested pairs.",
    [ZP, CZ], [("normalisation", CZ + " normalization_factor"), ("angular part and derivative", CZ + " triangular_function, triangular_derivative"),
               ("product", ZP + " polynomial_value")])
add("C07", "Evaluation is pure: results never depend on history, inputs are never changed",
    "The result of evaluating any polynomial (value, radial part, derivative, angular part) depends only on the polynomial and the arguments, never on which "
    "polynomials or methods were evaluated before in the process, or are evaluated by another thread at the same time. Evaluation never modifies its input arrays, and a returned array is never "
    "shared with an input or with a later result.",
    ["histories", "inputs", "schedules"], "all sequences and interleavings of evaluation calls over several polynomials and methods, including caller-side mutation of returned arrays",
    "The coefficient memory makes results potentially history dependent; tests run one fixed history and never mutate returned arrays.",
    [FC, CZ, ZP], [("coefficient memory", FC + " find_coeffs_orders, find_coeffs_orders_dr"), ("use of the memory", CZ + " radial_polynomial_coeffs(_dr)")],
    state=[("coefficient dictionaries", "global memo of the coefficients", FC)])
add("C08", "Coordinates outside the unit disk are rejected; shape and type rules are kept",
    "Radii below 0 or above 1 (also a single bad element) are rejected with ValueError by every evaluation method, while angles are accepted for any value, "
    "with a warning outside [0, 2pi] and unchanged results. Scalars give scalars, arrays/lists/tuples give arrays of the same shape with elementwise the same values "
    "as scalar calls, and array r and theta with different shapes raise ValueError.",
    ["inputs"], "all combinations of input kinds (int, float, list, tuple, arrays of several shapes), in-range, boundary and out-of-range values",
    "Tests try only a few invalid values on one method; the kind-by-method-by-position product is not covered.",
    [ZP], [("radius check", ZP + " _check_radii"), ("angle check", ZP + " _check_angles"), ("shape check", ZP + " polynomial_value")])
add("C09", "A sum of polynomials is the weighted sum of its members on any grid",
    "The sum of polynomials equals the sum of coefficient times value for every member, at scalar, vector and mesh coordinates, including zero coefficients at any "
    "position; a requested surface has one row per radius and one column per angle for any relation of their lengths. Unequal or empty sequences and members that "
    "are not polynomials raise ValueError.",
    ["inputs"], "all coefficient/polynomial sequences (zeros, repeats, orders) and coordinate shapes, with and without the surface flag",
    "Tests use a couple of vectors; orientation of the surface depends on which vector is longer, and zero coefficients take separate branches.",
    [ZP], [("summation", ZP + " sum_zernikes, _sum_zernikes_meshgrid")])
add("C10", "Polar coordinate generators cover the whole unit disk",
    "Generated radii start at 0, end at 1, never leave [0, 1], and generated angles start at 0, end at 2pi and never leave [0, 2pi], both non-decreasing with the requested step "
    "or number of points. Steps that cannot produce such vectors raise ValueError, and a generated surface carries exactly these vectors and matching values.",
    ["inputs"], "all step values and numbers of points",
    "End-point handling depends on floating-point rounding of the step; tests use only default steps.",
    [ZP], [("step-based generator", ZP + " gen_polar_coordinates"), ("equal mesh", ZP + " gen_equal_polar_mesh"), ("surface", ZP + " gen_zernikes_surface")])
add("C11", "Fitting vectors recovers the composing amplitudes",
    "For phases composed from distinct polynomials on a sufficient set of polar points, fitting the same polynomials returns their amplitudes in the given order, "
    "rounded to the requested digits, for paired coordinate vectors and for radius-by-angle vectors alike. The fit is linear, does not change its inputs, and repeated or no "
    "polynomials raise ValueError.",
    ["inputs"], "all polynomial subsets and orders, amplitudes, point sets (paired or gridded)",
    "Tests fit one random set with one coordinate layout; the coefficient-to-polynomial pairing and layout order are not varied.",
    [FZ, ZP], [("least squares system", FZ + " fit_zernikes"), ("vector interface", ZP + " fit_polynomials_vectors")])
add("C12", "Circular crop of an image selects the right pixels with the right coordinates",
    "Fitting an image uses exactly the pixels within the requested crop radius of the image centre, with radius and counterclockwise angle measured from that centre in units of the "
    "largest inscribed circle, and the returned cropped image is the input there and zero elsewhere. Composed phases sampled on that geometry are recovered to the rounding of the "
    "coordinates, the input is unchanged, and bad radii, sizes, dimensions or polynomial lists raise ValueError.",
    ["inputs"], "all image sizes (odd, even, rectangular), crop radii in [0.5, 1], strict or not",
    "Tests fit one or two image sizes; centre and radius rules differ by parity, rectangularity and strictness.",
    [FZ, ZP], [("crop geometry", FZ + " crop_phases_img"), ("image interface", ZP + " fit_polynomials")])
add("C13", "Generated phase images are the polynomials' sum on the disk, zero outside",
    "A generated phase image has the requested height and width, equals the weighted sum of the polynomials at every pixel of the inscribed (plus one pixel) disk and is exactly zero "
    "outside it. Random generation returns, for any random state, the image consistent with the returned amplitudes and polynomials, with at least one significant amplitude "
    "and all amplitudes within 1.5, rounded to the requested digits.",
    ["inputs", "histories"], "all widths, heights, polynomial lists, amplitudes, and states of the random generator",
    "Tests generate a default square image; width/height swaps or background offsets need rectangular images and non-zero-at-centre polynomials.",
    [ZP], [("pixel loop", ZP + " generate_phases_image, generate_random_phases")])
add("C14", "PSF configuration is validated, atomic and consistent",
    "Each setter of the PSF object accepts exactly the documented ranges and raises ValueError otherwise, and after a rejected call the whole observable configuration is "
    "the one before the call. After an accepted call every derived quantity (wave number, amplitude per polynomial, kernel size, numbers of nodes) corresponds to the last accepted values, "
    "also if the caller changes the handed-over lists or arrays later. The estimated kernel size is odd, doesn't depend on signs of coefficients, orientations and order of the polynomials "
    "or the unit of length, and smaller pixels or additional polynomials never make it smaller.",
    ["histories", "inputs"], "all sequences of setter calls with valid, boundary and invalid arguments, for one or several polynomials",
    "Tests check isolated invalid calls and never look at the state after a rejection or after re-configuration.",
    [PS], [("constructor", PS + " ZernPSF.__init__"), ("physical properties", PS + " set_physical_props"), ("calculation properties", PS + " set_calculation_props")],
    state=[("configuration", "NA, wavelength, coefficients, pixel size, kernel size, nodes", PS)])
add("C15", "Every kernel pixel is the scalar diffraction integral for the configuration",
    "The non-normalised kernel value at each pixel equals the squared modulus of the pupil diffraction integral of the configured aberration at that pixel's polar position for the configured "
    "NA, wavelength and pixel size, computed with the configured numbers of nodes (trapezoidal rule on the radius, Simpson rule on the angle; a lone piston is calculated as the closed Airy form by the plain "
    "calculation); normalised kernels have maximum one with the same shape. With enough nodes the value converges to the true integral, which for no aberration is the Airy pattern.",
    ["inputs", "configurations"], "all polynomials, coefficients, physical parameters, node numbers and kernel pixels",
    "Tests check that calculation runs and a maximum is one; a wrong node set, weight or sign keeps such tests passing.",
    [CP, CN, PS], [("radial and angular quadrature", CP + " radial_integral, get_psf_point_r"), ("kernel loop", CP + " get_psf_kernel"),
                   ("several polynomials", CP + " get_psf_kernel_zerns"), ("accelerated engine", CN)])
add("C16", "All calculation engines produce the same kernel",
    "For the same complete configuration, the plain, the accelerated (compiled) and the parallel kernel calculation return the same kernel up to rounding (for a lone piston, which the plain calculation "
    "takes from the closed Airy form, up to the discretisation error). A single polynomial gives the same kernel as a one-term or zero-padded combination, and polynomials unsupported by an engine "
    "(orders above 10 in the accelerated one) are rejected explicitly rather than computed differently. Where the optional numba library isn't installed, every request (accelerated ones included) gives "
    "the kernel of the plain calculation.",
    ["inputs", "configurations"], "all polynomials up to order 10 and combinations, physical parameters, node numbers, environments with and without numba",
    "Every engine repeats the polynomial table and the integration; tests only compile and run the accelerated one.",
    [CN, CP, PS], [("compiled polynomial table", CN + " zernpol_value"), ("compiled kernels", CN + " get_psf_kernel_comp"),
                   ("parallel points", CP + " get_psf_point_r_parallel"), ("dispatch", PS + " calculate_psf_kernel, get_kernel_parallel")])
add("C17", "Kernels have the symmetries of their aberrations",
    "Changing the sign of all coefficients reflects the kernel through its centre; kernels of even-order aberrations are centre-symmetric, those of cosine polynomials are "
    "mirror-symmetric about the horizontal axis, those of odd sine polynomials about the vertical axis, and those of m=0 are the same in all four quadrants. "
    "Turning the aberration by 90 degrees turns the kernel by 90 degrees.",
    ["inputs"], "all polynomials, coefficients and kernel pixels",
    "Tests never look at the spatial layout of the kernel; transposed or shifted pixel coordinates are not observable by maxima.",
    [CP, CN], [("pixel polar coordinates", CP + " get_psf_kernel, get_psf_kernel_zerns"), ("compiled pixel coordinates", CN + " get_psf_kernel_comp")])
add("C18", "Kernel life cycle: stored kernel, size and flags follow the last calculation",
    "A calculated kernel is square with odd size equal to the configured or estimated one, is stored, and stays unchanged until the next calculation, crop or load; "
    "display and warning options never change numbers, and the normalisation option only scales. An estimated size depends only on the current configuration, not on earlier calls. "
    "Only calls on an object change it (also when several objects, files, pools of workers and threads are in use); a calculation that fails or is interrupted leaves the stored kernel "
    "as it was, and the object usable by every way of calculation. Copies (copy, deepcopy, pickle) carry the same configuration and kernel, and live independently afterwards.",
    ["histories", "configurations"], "all sequences of configuration, calculation (all option combinations), crop, save and load",
    "Tests call one straight sequence; stale size or kernel after re-configuration, and option-dependent numbers, are not examined.",
    [PS, CP], [("calculation dispatch", PS + " calculate_psf_kernel"), ("size estimate", CP + " get_kernel_size")])
add("C19", "Cropping a kernel removes exactly the negligible border",
    "Cropping a kernel larger than 3x3 removes complete outer rings as long as every value of the ring is below the given part of the maximum, and never any other pixel: the result is the centred odd-sized "
    "square sub-kernel whose values are untouched. A fraction outside (0, 0.5) raises ValueError and leaves the kernel as it was; kernels of 3x3 and smaller are left as they are.",
    ["inputs"], "all kernels (arbitrary values, odd sizes) and fractions",
    "Tests crop one kernel without checking which pixels remain; asymmetric borders and equal-to-threshold values are not sampled.",
    [PS], [("ring loop", PS + " crop_kernel")])
add("C20", "Saved PSFs reload exactly; files are never overwritten unasked",
    "Saving a calculated kernel and reading it, into the same or any other PSF object, restores the kernel bit for bit together with polynomials, coefficients, physical "
    "parameters and sizes. Saving never replaces an existing file unless overwriting was requested, always tells the path used, and failed or missing loads leave the object unchanged. Kernels of different polynomials or of different amplitudes saved in one folder do not share a file.",
    ["histories", "inputs"], "all sequences of configure/calculate/save/read over several objects and paths (strings, Path, default, missing, existing)",
    "Tests save and read one object once; cross-object loads, repeated default saves and no-overwrite behaviour are history dependent.",
    [PS, CP], [("saving", PS + " save_json; " + CP + " save_psf"), ("loading", PS + " read_json; " + CP + " read_psf")])
add("C21", "Parallel dispatch returns each result once, in order, on any schedule",
    "The parallel dispatcher returns one result per parameter, equal to the function applied to that parameter and in the order of the parameters, for any number of workers, any number of "
    "parameters and any order and timing in which workers finish. Repeated computations with updated parameters use exactly the new parameters. A computation interrupted in the caller (for example by Ctrl-C) never leaks its results into a later one.",
    ["schedules", "inputs"], "all numbers of workers and parameters, all completion orders, all sequences of update and compute",
    "Tests run with whatever schedule the OS happens to give and uniform job times.",
    [DI], [("distribution and collection", DI + " DispenserManager.compute"), ("parameters update", DI + " update_params"), ("worker loop", DI + " IndiWorker.run")],
    state=[("queues and triggers", "per-worker data queue and events", DI)])
add("C22", "Dispatchers are isolated and always terminate",
    "Several dispatchers alive at once never exchange parameters, results or shutdown; closing one stops exactly its own workers and leaves the others usable, closing twice is "
    "harmless, and computing after closing is refused with a warning. A function that raises for some parameter makes the computation fail with an error instead of waiting forever, and so does a worker process that dies during the computation, a result or a parameter that cannot be pickled.",
    ["schedules", "histories", "fault_sequences"], "all interleavings of create/compute/update/close over several dispatchers, and any subset of failing parameters",
    "Tests never create two dispatchers, never close one while another lives, and never let a job fail.",
    [DI], [("life cycle", DI + " __init__, close, __del__"), ("failure report", DI + " FailedJob")],
    state=[("workers", "child processes of an instance", DI)])
add("C23", "Convolution equals mirror-boundary convolution scaled to the image range",
    "The convolved image (of non-negative values) equals the two-dimensional convolution of the image with the sum-normalised kernel with mirrored borders, optionally rescaled so its maximum is the image maximum, "
    "in the image's own type and shape. The image and the kernel stay unchanged, a blank image stays blank, and images that are not two-dimensional are rejected.",
    ["inputs"], "all images (types, shapes, contents) and kernels",
    "Tests convolve one disk image and look only at the maximum; kernel flips and border modes are invisible on symmetric data.",
    [CP, PS], [("convolution", CP + " convolute_img_psf"), ("interface", PS + " convolute_img")])
add("C24", "Names, comparison and text identify the polynomial consistently",
    "Equality holds exactly for polynomials with the same orders however they were constructed, ordering is the strict total order of OSA indices, comparing with anything else raises ValueError, and the text form states the "
    "right orders and indices for every polynomial. Sorting, minimum, maximum and searching in lists agree with the order, and copies and pickles equal their original. Conventional names (full and short) are those published for the orders, empty where there is none, and never shared by two polynomials.",
    ["inputs"], "all pairs of polynomials n <= 54 and all construction ways",
    "Tests compare a few pairs and names; swapped names for a +m/-m pair or missing cases need the complete table.",
    [ZP, PR], [("comparison", ZP + " __eq__, __gt__"), ("names", PR), ("text", ZP + " __str__")])
add("C25", "Plots show the computed surface on its own coordinates",
    "Every plotting helper draws exactly the values of the sum of polynomials on the corresponding radii and angles (each datum at its own position, titles and ranges matching), in 2D and 3D, on "
    "the given figure, and displays of a PSF object show its stored kernel. Inconsistent plotting arguments raise ValueError, and plotting never changes the plotted data.",
    ["inputs", "configurations"], "all polynomials, custom or default coordinates, both projections, all flags",
    "Tests do not plot at all.",
    [ZP, PL], [("2D and 3D plots", PL + " plot_sum_fig, plot_sum_fig_3d, subplot_sum_on_fig, subplot_sum_on_fig_3d"), ("interface", ZP + " plot_profile, plot_sum_zernikes_on_fig")])
add("C26", "The sample disk of the shown convolution is round, centred and complete",
    "For any radius and maximum intensity visualize_convolution shows a centred disk in a square image of odd size: the intensity depends only on the distance from the centre, is the maximum near the "
    "centre, stays at least 3/4 of it up to the radius, never grows outwards and is zero from 5/4 of the radius on (never cut by the frame); radii below one pixel count as one. The second figure "
    "shows exactly the convolution of this disk with the stored kernel.",
    ["inputs"], "all radii (also fractional) and maximum intensities representable in 16 bits",
    "Tests never draw or inspect the disk; intensity overflow, half-pixel shifts and cut edges depend on the radius and the intensity.",
    [CP, PS], [("disk", CP + " get_bumped_circle"), ("display", PS + " visualize_convolution")])
add("C27", "Warnings tell misleading results, each when due, and can be silenced",
    "A kernel calculation warns exactly when it uses the default physical properties, when the frame cuts the kernel (border above 5 % of its maximum, normalised or not) and when a compiled kernel "
    "is larger than 85 pixels; setters warn about amplitudes above ten wavelengths (largest modulus), about a kernel smaller than the estimation for the current physical properties, about a size "
    "set before these, and about needlessly many nodes. suppress_warnings silences a calculation completely and never changes the kernel. A polynomial tells once in its life that its order is slow, and "
    "every time that the exact formula isn't available (zeros are returned). An acceleration asked for explicitly where numba isn't installed is told. No warning is given otherwise, late, or for another object.",
    ["histories", "inputs"], "all sequences of setters and calculations with every combination of options, interleaved objects",
    "Tests never look at warnings; a missing, stale, repeated or unsuppressed warning depends on the history of the objects and on the option in use.",
    [PS, CP, CN, ZP], [("calculations", PS + " calculate_psf_kernel"), ("frame", CP + ", " + CN), ("polynomials", ZP + " polynomial_value, radial, radial_dr")])
with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
