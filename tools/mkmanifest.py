"""Writes MANIFEST.json from the list of claimed checks."""
import json
T = "model-based: TLA+ specification checked with TLC; "
NOTE = {
 "C01": ("ZernIndex.tla successor walks of the three schemes; every walk state replayed on the index functions and instances",
         "All states of the three index walks (n<=54, Fringe shells<=54) are model-checked against closed forms/inverses and compared with the code one by one: complete for the supported range."),
 "C02": ("ZernIndex.tla walks give all (scheme, index, orders) triples; conversions, round trips and rejections replayed",
         "Complete over all supported indices of the three schemes (plus the shells beyond, sampled for Fringe); assumes plain-int arguments."),
 "C03": ("ZernCtor.tla decision table over keyword sets and values; every row replayed on the constructor",
         "All keyword sets of size <=3 with all kinds, all (m,n) in -60..60 x -3..60, boundary index values; bool/numpy integers are out of scope."),
 "C04": ("ZernRadial.tla exact big-integer coefficients; values of the code compared with their rational evaluation",
         "Coefficients are verified by TLC (closed form, edge value, slope, orthogonality mod p); every polynomial n<=44 (and |m|>=2n-62 above) at end points and seeded radii; tolerance = rounding bound from the condition sum."),
 "C05": ("ZernRadial.tla exact coefficients and edge slopes; derivatives of the code compared with the exact ones",
         "As C04, for derivatives; n<=42 and |m|>=2n-60 above in the quick tier."),
 "C06": ("AngTable.tla exact trigonometry + ZernRadial.tla (orthogonality mod p); products and Gram matrix of the code compared",
         "Angular part exact at 24 angles for |m|<=54 (function identity for other angles trusted to libm), products n<=40 (+ edge families), orthonormality of all pairs up to n=16 (26 thorough)."),
 "C07": ("Memo.tla (memory soundness, ownership of arrays) and MemoThreads.tla (two threads); all histories of length 3 replayed in forked pristine processes, schedules of the threads enforced line by line",
         "All action histories of the model up to depth 3 (4 thorough) for several groups of polynomials, whole caller-visible heap compared after each step, plus a long random history."),
 "C08": ("Domain.tla decision table of argument kinds/classes/positions; rows replayed on all five methods",
         "Rows of the table (seeded subset of 16000 in quick, all in thorough) replayed with random interior values; NaN, empty and set arguments out of scope."),
 "C09": ("SumSurf.tla formal sums and layouts; every state replayed on sum_zernikes with exact values",
         "All term sequences up to length 2 (3) over zero/non-zero coefficients, repeats, non-members, 15 coordinate layouts; polynomial choice seeded."),
 "C10": ("PolarGen.tla walk of a clipped step vector in ticks (liveness: terminates); rows replayed on the generators and surfaces",
         "All steps of three tick grids in both coordinates, random steps, all small mesh sizes; a repeated end point from float rounding is tolerated."),
 "C11": ("FitModel.tla design matrices (layouts, rank) ; composed phases replayed on the vector fit",
         "Subsets of polynomials whose design matrix is of full rank modulo a prime; amplitudes from a seeded set; recovery to the rounding."),
 "C12": ("CropGeom.tla and CropLines.tla integer geometry (mask, centre, radius, recalibration); masks and recovered amplitudes compared",
         "All image sizes 3..12 (20) squared and large images row by row, every memory layout, crop radii, both strictness modes; pixels within the rounding of the border are left undecided by the model."),
 "C13": ("PhaseGeom.tla integer geometry of generated phase images; all sizes replayed pixel by pixel",
         "All sizes in 1..9 (and larger sampled) with seeded polynomials; random generation over many seeds of the generator."),
 "C14": ("PSFConfig.tla configuration machine, PSFCtor.tla constructor table, PSFOwn.tla ownership of handed-over containers; transition tour over all setter calls incl. rejected ones replayed with full state projection",
         "Every transition of the configuration machine (single and several polynomials) executed on real objects, state compared after each step; every row of the constructor table."),
 "C15": ("Quadrature.tla exact node/weight tables (exactness checked in TLC); kernels compared pixelwise with the spec's sums",
         "Seeded configurations over all polynomials n<=10 with small node numbers, single and several polynomials, plus convergence to the Airy pattern."),
 "C16": ("Engines.tla dispatch table + Quadrature.tla sums as the common reference; all engines replayed",
         "All 66 polynomials n<=10 in plain vs accelerated vs parallel point engines on 3x3 kernels, several-polynomial kernels, kernels up to 15 pixels, dispatch of rejections, the same requests in a process without numba."),
 "C17": ("KernelSym.tla dihedral action on aberrations, pixels and quadrature nodes; kernels compared under every symmetry",
         "All symmetries for all (m,n), n<=10 (numbers of nodes divisible by 8, for which the quadrature itself is symmetric, checked in TLC); kernels of 15 and 17 pixels."),
 "C18": ("PSFLife.tla life-cycle machine and PSFWorld.tla (several objects, copies, files, pools, failing calculations), PSFThreads.tla (two threads); tours and behaviours replayed with projection of kernel, size and flags",
         "Every transition of the machine for small kernels; the estimated size is compared with that of a fresh object."),
 "C19": ("KernelCrop.tla ring-removal machine on integer kernels; all kernels of the family replayed",
         "All side patterns of rings for sizes 3..9 and thresholds incl. equality; arbitrary contents seeded."),
 "C20": ("PSFSave.tla files/objects machine; transition tours replayed in a scratch directory and a scratch copy of the package",
         "Every transition for one object over two locations and two objects over one location; locations are given str/Path, package folder, cwd fallback, missing directory; kernel equality bit for bit; file contents compared after each step."),
 "C21": ("Dispenser.tla protocol (all interleavings, liveness, refines DispAbs.tla); DispSched.tla schedules enforced on real processes by gates; DispTrace.tla validates event traces recorded from real runs",
         "All interleavings of the protocol model for <=3 workers and <=4 jobs (the variant without the wait for the trigger must be rejected by TLC); completion orders of the model enforced on real processes; recorded traces accepted by the specification; lists of some hundred jobs."),
 "C22": ("DispLife.tla life-cycle machine (several managers, failing jobs, closing, exception kinds), WorkerNumber.tla numbers of workers; tours replayed on real processes",
         "Every transition of the life-cycle machine on real processes, failing schedules for every position, worker-number table, PSF pools."),
 "C23": ("Convolution.tla exact integer mirror convolution; images and kernels replayed",
         "All unit impulses of small images and kernels (a basis, linearity) plus seeded integer images of several dtypes up to 300 pixels; one grey level tolerated for integer types."),
 "C24": ("ZernNames.tla comparison relations and name grammar; all pairs and all texts replayed",
         "All pairs n<=10 (20), complete table of names, text of all polynomials n<=54, sorting and searching in lists, copies and pickles; spaces in short names ignored."),
 "C25": ("PlotModel.tla plotting dispatch table; drawn artists read back from matplotlib figures",
         "Every row of the dispatch table; QuadMesh/Poly3D/image data read back; tolerates drawing style; finite subset of polynomials per row."),
 "C26": ("DiskGeom.tla integer geometry of the sample disk (classes of distances); all pixels of the displayed disks compared",
         "Whole, half-integer and random radii up to 8 (14) pixels in sixteenths, some up to 48 (128), intensities of 8 and 16 bits; the slope of the edge is left free between the bounds."),
 "C27": ("Warnings.tla machine of emitted warning kinds (setters, calculations, evaluations); tours over all transitions replayed on interleaved objects, warnings counted per step",
         "Every transition of the machine for single and several polynomials and 14 radial orders, with numba and in a process without it; kinds are told apart by their number per step only; several polynomials have no default amplitudes."),
}
import os, re
src = open("/verif/harness/run.py").read()
mods = dict(re.findall(r'"(C\d\d)": "(c_\w+)"', src))
checks, na = [], []
for pid in sorted(NOTE):
    f = "/verif/harness/checks/%s.py" % mods[pid]
    if os.path.exists(f) and "def check_%s(" % pid in open(f).read():
        tech, note = NOTE[pid]
        checks.append({"property": pid, "quick_cmd": "/opt/venv/bin/python harness/run.py %s --tier quick" % pid,
                       "thorough_cmd": "/opt/venv/bin/python harness/run.py %s --tier thorough" % pid,
                       "technique": T + tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": pid, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Language: TLA+ with TLC. No hooks in /repo are needed: all observations go through the public API. Known and fixed findings: known_findings.jsonl."},
          open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
