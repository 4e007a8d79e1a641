"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
SC = "pySC/core/simulated_commissioning.py"
BEAM = "pySC/core/beam.py"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        anchors["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        anchors["observe_at"] = list(observe)
    anchors["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=anchors))


prop("C01", "Magnet fields always equal the declared error equation",
     "After any sequence of registrations, error assignments, systematic/random multipole assignments and setpoint "
     "changes, every updated magnet's field components equal setpoint x (1 + calibration error) + field offset + "
     "systematic multipoles scaled by the magnet's own excitation + the dipole term of its bending-angle error and of its "
     "combined-function gradient change. The children of a split magnet follow the master's setpoints, calibration and "
     "relative bending error (scaled to the child's own angle and length) with the child's own multipoles, and corrector "
     "elements get the matching kick and field order. Re-running an update without changing inputs changes nothing, and "
     "magnets that were not updated keep their fields.",
     ["histories", "inputs"],
     "all operation sequences up to a depth over a lattice with plain, bending, combined-function, split, sextupole and "
     "thin corrector magnets, and all small shapes of error vectors (shorter/longer than the field)",
     "tests check a single update of one magnet; wrong accumulation, missing terms or stale children only show up over "
     "sequences and combinations of error sources",
     [SC, "pySC/utils/classdef_tools.py"],
     [("update of fields from setpoints and errors", f"{SC}: update_magnets, _update_magnets"),
      ("padding of unequal multipole vectors", "pySC/utils/classdef_tools.py: add_padded"),
      ("assignment of multipole errors", f"{SC}: set_systematic_multipole_errors, set_random_multipole_errors")],
     [("PolynomA/PolynomB", "actual magnet field", "lattice elements of SC.RING"),
      ("SetPointA/B, CalErrorA/B, PolynomA/BOffset, SysPol*From*", "sources of the field", "lattice elements of SC.RING")],
     ["SC.RING element fields after each operation"])

prop("C02", "Corrector setpoints: absolute, relative, additive, clipped, read back",
     "Setting dipole correctors absolutely, relatively (to the current value) or additively leaves each addressed corrector at exactly the "
     "requested kick angle in the addressed plane, limited in magnitude to that corrector's limit for that plane with the "
     "sign kept, and reading back returns that value. A positive kick always deflects towards positive horizontal/vertical "
     "position, for thick and thin correctors. Other planes, other field orders, other magnets and the caller's arrays are "
     "unchanged, and the magnet's field is updated.",
     ["histories", "inputs"],
     "all operation sequences up to a depth over correctors with different limits, lengths and types; all ways of passing "
     "ordinates/setpoints (scalar, integer, list, array, one value for many)",
     "tests set one corrector once; sign, clipping, accumulation and aliasing errors depend on the history and the mix of magnets",
     [SC, "pySC/utils/classdef_tools.py"],
     [("corrector setpoint change and clipping", f"{SC}: set_cm_setpoints"),
      ("read-back", f"{SC}: get_cm_setpoints"),
      ("argument normalisation", "pySC/utils/classdef_tools.py: check_input_and_setpoints")],
     [("SetPointA/B[0], CMlimit", "corrector setting and its limit", "lattice elements")],
     ["SC.get_cm_setpoints", "tracked deflection of a particle"])

prop("C03", "Magnet setpoints: absolute, relative to design, additive, limits, compensation",
     "Setting a multipole component absolutely, relative to the design value or additively to the current value gives "
     "exactly the requested setpoint in the addressed component (skew or normal, given order) of the addressed magnets, and "
     "no other setpoint changes. Skew-quadrupole setpoints are limited in magnitude to the magnet's limit with sign kept. With dipole "
     "compensation, changing the normal gradient of a bending magnet that is a horizontal corrector changes its corrector "
     "kick by bending angle x relative gradient change (within its limit), and nothing is compensated otherwise.",
     ["histories", "inputs"],
     "all operation sequences up to a depth over quadrupoles, combined-function magnets, sextupoles and skew quadrupoles",
     "tests exercise single calls; the current/design distinction, order/skewness mix-ups and compensation drift are history dependent",
     [SC], [("multipole setpoint change", f"{SC}: set_magnet_setpoints"),
            ("compensation kick", f"{SC}: _dipole_compensation")],
     [("SetPointA/B, NomPolynomA/B, SkewQuadLimit", "settings and design values", "lattice elements")],
     ["SC.RING setpoints and fields after each operation"])

prop("C04", "Cavity fields follow setpoints, calibration and offsets",
     "After any sequence of cavity registrations, error assignments and setpoint changes, each updated cavity's voltage, "
     "frequency and phase equal setpoint x (1 + calibration error) + offset. Absolute, relative and additive setpoint "
     "changes act on exactly the addressed property of the addressed cavities relative to the current setpoint, accept "
     "integer and float values alike, and invalid requests change nothing.",
     ["histories", "inputs"],
     "all operation sequences up to a depth over three cavities, three properties, three methods",
     "tests cover single calls with floats",
     [SC], [("cavity update", f"{SC}: update_cavities"), ("cavity setpoints", f"{SC}: set_cavity_setpoints")],
     [("VoltageSetPoint/Offset/CalError, Frequency..., TimeLag...", "cavity state", "lattice elements")],
     ["SC.RING cavity fields"])

prop("C05", "Registration bookkeeping is complete, merged and all-or-nothing",
     "After any sequence of registrations of BPMs, cavities, magnets and supports, the registered ordinates of each kind "
     "are exactly the sorted set of all ordinates (or start/end pairs) ever registered, and each element's declared "
     "uncertainties are the union of all declarations with the latest winning, independently of registrations of other elements or kinds. "
     "Registration initialises the element's error fields to no-error and its setpoints and nominal values to the current fields. "
     "A registration with an unknown option or type is rejected and leaves no trace.",
     ["histories", "inputs"],
     "all sequences of registration calls up to a depth, overlapping/duplicate/unsorted ordinates, one or many options, "
     "shared support end points",
     "tests register each kind once or twice; loss of earlier registrations needs specific orders and overlaps",
     [SC, "pySC/core/classes.py", "pySC/utils/classdef_tools.py"],
     [("registration", f"{SC}: register_bpms, register_cavities, register_magnets, register_supports"),
      ("pair bookkeeping", "pySC/utils/classdef_tools.py: update_double_ordinates")],
     [("SC.ORD", "registered ordinates", "pySC/core/classes.py: Indices"),
      ("SC.SIG", "declared uncertainties", "pySC/core/classes.py: Sigmas")])

prop("C06", "Random errors are exactly the declared ones, fresh and truncated",
     "Applying errors gives every declared uncertainty component its own independent random value, equal to the declared "
     "sigma times a standard normal draw truncated at the declared (or default) cut-off, and stores it in the corresponding error field; components "
     "declared zero or not declared stay error-free. BPM noise levels are copied, the injected beam is displaced from its design "
     "by the static sigma and the circumference is scaled by its relative error. Applying again redraws all of these instead "
     "of accumulating (the circumference scaling excepted), and all dependent fields (magnets, cavities, alignments) are updated.",
     ["inputs", "histories", "configurations"],
     "all patterns of declared uncertainties with/without individual cut-offs and all assignments of a small alphabet of "
     "random draws, including draws beyond the cut-off; repeated application",
     "tests use unseeded random numbers and can only look at shapes",
     [SC, "pySC/utils/classdef_tools.py", "pySC/utils/sc_tools.py"],
     [("error application", f"{SC}: apply_errors, _apply_support_alignment_error"),
      ("sigma with cut-off", "pySC/utils/classdef_tools.py: randn_cutoff"),
      ("truncated normal draw", "pySC/utils/sc_tools.py: randnc")])

prop("C07", "Support structures place the elements they carry",
     "With nested structures, every registered magnet's and BPM's support offset is the sum over section, plinth and girder of the straight-line "
     "interpolation between that structure's start and end offsets at the element, its roll the sum of the rolls of the "
     "structures that contain it, and its pitch/yaw the slope of the innermost containing structure. Elements outside all "
     "structures are not displaced, and structures that wrap around the injection point are treated like any other. Explicit "
     "pitch/yaw of a structure tilts it about its centre.",
     ["configurations", "inputs"],
     "all placements (nested, adjacent, disjoint, wrapping) of up to three structures on a small lattice and all small patterns "
     "of their end-point offsets and rolls",
     "tests check one arrangement's shape only",
     [SC, "pySC/utils/classdef_tools.py"],
     [("interpolation", f"{SC}: support_offset_and_roll; pySC/utils/classdef_tools.py: s_interpolation"),
      ("propagation to elements", f"{SC}: update_supports"),
      ("drawing of structure errors", f"{SC}: _apply_support_alignment_error")])

prop("C08", "Element misalignments act as exact rigid-body coordinate changes",
     "The entrance and exit coordinate changes of a misaligned magnet describe the rigid displacement (x, y, z) and rotation "
     "(roll, pitch, yaw) of its total (own plus support) misalignment, so a misaligned magnet without field or a magnet "
     "displaced along a symmetry of its field leaves trajectories unchanged to first order. With no misalignment they are "
     "the identity. Children of a split magnet get the master's coordinate changes.",
     ["inputs", "configurations"],
     "all combinations of a small alphabet of offsets and rotations on straight and bending elements of several lengths",
     "tests compare three fixed cases with stored numbers",
     ["pySC/utils/sc_tools.py", SC],
     [("transformation", "pySC/utils/sc_tools.py: update_transformation, rotation, _translation_vector, _r_matrix"),
      ("propagation", f"{SC}: update_supports")],
     [("T1, T2, R1, R2", "entrance/exit coordinate changes", "lattice elements")])

prop("C09", "A BPM reading is the true position seen through that BPM's declared errors",
     "Each single-shot BPM reading equals the particle-averaged true position at that BPM, rotated by the BPM's total roll, "
     "minus its total offset, times one plus its calibration error, plus its noise divided by the beam signal, with orbit-mode noise only in closed-orbit "
     "mode. Readings are ordered by turn then by registered BPM regardless of the order of the requested list, unregistered BPMs are "
     "ignored, and a request without any registered BPM is rejected.",
     ["inputs", "configurations"],
     "all patterns of a small alphabet of true positions, BPM errors, noise draws, BPM subsets/orders, turns, particles and the three tracking modes",
     "tests mostly check shapes and one or two values",
     [BEAM, "pySC/utils/at_wrapper.py"],
     [("reading pipeline", f"{BEAM}: bpm_reading, _real_bpm_reading, all_elements_reading"),
      ("subset handling", f"{BEAM}: _only_registered_bpms")])

prop("C10", "Beam loss and averaging: lost beam reads NaN, averages use what was seen",
     "A BPM reads NaN exactly when its (sum-error scaled) surviving fraction is below the configured beam-lost level, or no "
     "particle reaches it, and otherwise averages only over surviving particles; a lost shot or turn never contributes to a "
     "position average. Multi-shot positions are averages weighted by the surviving signal, the reported transmission is the "
     "signal averaged over all shots with lost ones counting zero, and pseudo-orbit mode averages the turns the same way. Reported errors are the "
     "signal-weighted spread of the shots, unavailable when a shot was lost.",
     ["fault_sequences", "inputs"],
     "all patterns of lost particles over particles x BPMs x turns x shots up to small sizes and all levels of the beam-lost threshold",
     "tests use lossless tracking or a single loss pattern",
     [BEAM], [("loss criterion", f"{BEAM}: _real_bpm_reading"), ("averaging", f"{BEAM}: bpm_reading")])

prop("C11", "Injected bunches and transmission follow the injection settings",
     "Generated bunches have the requested number of particles, a common per-shot centroid of the injected trajectory plus "
     "truncated jitter, and particle deviations whose covariance is the configured beam matrix also when planes are correlated; a single "
     "particle sits on the centroid, and the user's post-processing is applied. The turn-by-turn transmission is the "
     "surviving fraction per turn and the number of turns is the count of turns above the beam-lost level; tracking-mode "
     "selection only accepts known modes and forces one particle and one turn in closed-orbit mode.",
     ["inputs", "fault_sequences", "histories"],
     "all small patterns of particle survival, random draws, beam matrices and sequences of mode changes",
     "tests use zero or diagonal beam matrices and check shapes",
     [BEAM, "pySC/core/classes.py"],
     [("bunch generation", f"{BEAM}: generate_bunches"), ("transmission", f"{BEAM}: beam_transmission"),
      ("mode selection", "pySC/core/classes.py: Injection.trackMode")])

prop("C12", "Design lattice, copies and inputs are never altered by operating the machine",
     "No sequence of registrations, error applications, setpoint changes, readings or model calculations alters the user's "
     "input lattice or the stored design lattice, and a deep copy of the machine and its original never influence each "
     "other. Tracking, orbit, optics and model helpers never modify the lattice or coordinates they are given, and arrays passed by the "
     "caller are never modified.",
     ["histories", "inputs"],
     "all operation sequences up to a depth interleaved over an original and its copy, with all mutable state compared",
     "tests check isolated attributes of one copy; aliasing shows only for particular fields after particular operations",
     [SC, "pySC/utils/at_wrapper.py", "pySC/lattice_properties/response_model.py"],
     [("copying", f"{SC}: __init__, very_deep_copy"), ("wrappers without side effects", "pySC/utils/at_wrapper.py"),
      ("model lattice", "pySC/lattice_properties/response_model.py: SCgetModelRING")])

prop("C13", "Threading and stitching report success only with reproducible transmission",
     "Threading or stitching returns normally only if its last several consecutive readings reached every requested BPM in all "
     "turns, and otherwise ends with an error after at most the allowed number of steps. While threading, "
     "only correctors upstream of the last BPM reached (and only those listed) are changed; wrong-size matrices, references, turn numbers "
     "or insufficient starting transmission are rejected before any corrector is moved, and the caller's arrays are not modified.",
     ["fault_sequences", "configurations", "inputs"],
     "all sequences of per-injection beam reach (no beam, partial, full) up to a deviation bound, and all small machines",
     "tests never run threading with a failing beam",
     ["pySC/correction/orbit_trajectory.py"],
     [("threading", "pySC/correction/orbit_trajectory.py: first_turn, _get_last_cm, _wiggling"),
      ("stitching", "pySC/correction/orbit_trajectory.py: stitch"),
      ("validation", "pySC/correction/orbit_trajectory.py: _check_ords")])

prop("C14", "Orbit feedback and balancing converge to the reference or fail loudly",
     "Iterative correction and two-turn balancing apply exactly minus the regularised pseudo-inverse of the response times "
     "the deviation from the reference each step, to the listed correctors (and cavities if dispersion is included) only, "
     "and return normally only when the rms readings of the last steps are stable within the tolerance. Losing beam at "
     "any step or from the start, or not becoming stable within the allowed steps (more than one), raises an error. On a noise-free linear machine whose model response is exact the "
     "feedback reaches the correctable reference and reports success.",
     ["fault_sequences", "configurations", "inputs"],
     "all sequences of reading outcomes up to a deviation bound and all small linear machines, references, corrector/BPM subsets",
     "tests only run the algorithm on one lattice and do not examine failure or convergence decisions",
     ["pySC/correction/orbit_trajectory.py", "pySC/utils/sc_tools.py"],
     [("feedback", "pySC/correction/orbit_trajectory.py: correct, balance"),
      ("stopping rule", "pySC/correction/orbit_trajectory.py: _is_stable_or_converged")])

prop("C15", "Measurement procedures leave the machine as they found it",
     "Response and dispersion measurements, RF scans, alignment scans, tune scans, transmission and BPM readings "
     "restore every setpoint, cavity setting, injected trajectory and tracking configuration they varied (apart from the correction they are documented to apply), also when the beam is "
     "lost during any subset of their measurements.",
     ["fault_sequences", "histories"],
     "all patterns of beam loss over the individual readings of each procedure up to a deviation bound, starting from non-nominal settings",
     "tests start from nominal settings with full transmission, where a wrong restore is invisible",
     ["pySC/correction/bba.py", "pySC/correction/rf.py", "pySC/correction/tune.py", "pySC/correction/loco.py",
      "pySC/lattice_properties/response_measurement.py"],
     [("restores", "response_measurement.py: response_matrix, dispersion; loco.py: measure_closed_orbit_response_matrix; "
                   "bba.py: _data_measurement_tbt, _scale_injection_to_reach_bpms; rf.py: correct_rf_phase/frequency; tune.py: tune_scan")])

prop("C16", "RF corrections move the cavities by the fitted zero crossing or not at all",
     "RF phase and frequency corrections change only the addressed cavities' phase or frequency setpoint, by exactly the "
     "zero crossing of the measured energy-drift curve, phase steps being folded into half a wavelength; measurements that are not "
     "significant cause no change, and too few usable points, no crossing or unsuitable settings raise an error with the cavities unchanged. "
     "Reported phase errors lie within half an RF period.",
     ["fault_sequences", "inputs"],
     "all small patterns of lost or noisy measurement points and machine phase/frequency errors",
     "tests do not run the RF corrections at all outside the example",
     ["pySC/correction/rf.py"],
     [("phase", "pySC/correction/rf.py: correct_rf_phase, _fold_phase"), ("frequency", "pySC/correction/rf.py: correct_rf_frequency"),
      ("reported errors", "pySC/correction/rf.py: phase_and_energy_error")])

prop("C17", "Beam-based alignment applies only trustworthy offsets to the right BPM and plane",
     "A BPM offset is changed by a measured alignment result exactly when the result is a number, within the outlier limit "
     "and significant at the confidence level; all others stay unchanged. On a noise-free linear machine the measured "
     "result is the distance between BPM reading and magnet centre. The pseudo alignment reassigns exactly "
     "the flagged BPM planes, to the magnet centre plus a truncated random residual of the given or computed rms size.",
     ["inputs", "fault_sequences", "configurations"],
     "all patterns of result classes (NaN, outlier, insignificant, good) over BPMs and planes; small machines with all offset patterns and lost-beam patterns",
     "tests do not cover the acceptance logic",
     ["pySC/correction/bba.py"],
     [("acceptance", "pySC/correction/bba.py: apply_bpm_offsets, is_bba_errored"), ("pseudo alignment", "pySC/correction/bba.py: fake_bba"),
      ("evaluation", "pySC/correction/bba.py: trajectory_bba, _data_evaluation")])

prop("C18", "Pseudo-inverse honours truncation, regularisation and damping for every matrix",
     "For every matrix, including rank-deficient, wide and tall ones, the regularised inverse equals the sum over its largest "
     "kept non-zero singular values of damping x s/(s^2+alpha^2) times the singular vector pair, equal to the Moore-Penrose inverse by default. "
     "The requested number of smallest singular values is removed, zero singular values never produce non-finite output, and the input is unchanged.",
     ["inputs"],
     "all integer matrices with small entries up to 3x3 and all option combinations",
     "tests try three sample matrices",
     ["pySC/utils/sc_tools.py"], [("pseudo-inverse", "pySC/utils/sc_tools.py: pinv")])

prop("C19", "Truncated random numbers: shape, truncation by redraw, independence",
     "A truncated normal generator returns exactly the requested shape (a scalar for the empty shape), every value within the "
     "cut-off, each accepted draw used unchanged, and values beyond the cut-off replaced by fresh draws rather than clipped. Negative shapes are rejected.",
     ["inputs", "fault_sequences"],
     "all sequences of accepted/rejected draws up to a bound for all small shapes and cut-offs",
     "tests sample random numbers",
     ["pySC/utils/sc_tools.py"], [("truncation", "pySC/utils/sc_tools.py: randnc")])

prop("C20", "Statistics are weight, order, period and missing-data consistent",
     "Weighted and circular means, weighted rms values and errors equal their textbook definitions, are unchanged under permutation "
     "of the data and common scaling of the weights, and circular ones under shifts by whole periods. Missing values are ignored "
     "by the NaN-aware variants exactly as if absent, weights are not used when an error is zero or NaN, and small samples count as at least two.",
     ["inputs"],
     "all small arrays over a small alphabet of values, errors and missing-data patterns, over all axes",
     "tests compare a few fixed samples",
     ["pySC/utils/stats.py"], [("estimators", "pySC/utils/stats.py")])

prop("C21", "Model lattice, response and dispersion reflect setpoints only and are pure",
     "The model lattice equals the design lattice with the current magnet setpoints (dipole terms zero) and cavity setpoints "
     "and without any error or misalignment, and building it or any model response leaves the machine unchanged. "
     "Model response columns are the finite-difference change of positions per kick in the given corrector and BPM order, planes and "
     "turns, positive kicks giving positive deflection, for thick and thin correctors, in trajectory and orbit mode; model dispersion is the change per frequency step.",
     ["histories", "configurations", "inputs"],
     "all small corrector/BPM orders and subsets, planes, turns, modes, after operation sequences",
     "tests check shapes and one value",
     ["pySC/lattice_properties/response_model.py"],
     [("model lattice", "response_model.py: SCgetModelRING"), ("model response", "response_model.py: SCgetModelRM, SCgetModelDispersion")])

prop("C22", "Measured responses equal the change of readings per change of setting",
     "Measured response matrices, dispersion and LOCO response columns equal the change of the BPM readings divided by the actual "
     "change of the corrector kick or RF frequency, in the order of the given correctors, planes, BPMs and turns, also when a corrector "
     "limit forces the opposite or smaller step. The LOCO Jacobian equals the change of the model response per change of each magnet, and is "
     "followed by the exact corrector and BPM gain derivatives.",
     ["configurations", "inputs", "fault_sequences"],
     "all small corrector/BPM subsets, kick amplitudes, limits, step numbers and loss patterns",
     "response measurement has no test at all",
     ["pySC/lattice_properties/response_measurement.py", "pySC/correction/loco.py"],
     [("measured response", "response_measurement.py: response_matrix, dispersion"),
      ("LOCO", "pySC/correction/loco.py: measure_closed_orbit_response_matrix, calculate_jacobian")])

prop("C23", "The MATLAB-named interface does what the native interface does",
     "Every MATLAB-named function gives the same result and the same machine state as the native operation it stands for, with plane "
     "numbers 1/2 meaning horizontal/vertical, type 1/2 meaning skew/normal, orders starting at one and field columns in A, B order; "
     "invalid plane or type numbers are rejected without effect.",
     ["inputs", "histories"],
     "all functions with all combinations of their small arguments, on machines in non-trivial states",
     "the module has no tests (names whose native counterpart is an unfinished port - orbit BBA, aperture sections, closed-orbit search with feedback, error ramping - are left out)",
     ["pySC/matlab_index.py"], [("facade", "pySC/matlab_index.py")])

prop("C24", "RF/radiation switching and circumference scaling change only what they should",
     "Any sequence of cavity and radiation switching ends in the state of the last request for each, off winning over on in one "
     "call, touching only cavities respectively radiation-capable magnets and rejecting unknown requests without effect. Circumference scaling reaches the "
     "requested absolute or relative circumference by stretching all drifts by a common factor and nothing else.",
     ["histories", "inputs"],
     "all sequences of switch requests (all subsets of modes) up to a depth from all mixed initial states; all small lattices and scalings",
     "tests try single calls",
     ["pySC/core/lattice_setting.py", "pySC/utils/sc_tools.py"],
     [("switching", "pySC/core/lattice_setting.py"), ("scaling", "pySC/utils/sc_tools.py: scale_circumference")])

prop("C25", "Injection fits recover the injected trajectory from BPM readings",
     "The injection correction computed by the trajectory fit is minus the position and angle of the injected beam in both planes, and is applied to the injected "
     "trajectory; the drift fit returns (without applying it) minus the position and angle of the beam passing the injection point on the straight line between the last BPM of the first and the "
     "first BPM of the second turn. This holds for every injection error on a linear machine without BPM errors; lost beam raises an error and leaves the injection "
     "settings unchanged, and longitudinal coordinates are never touched.",
     ["inputs", "fault_sequences"],
     "all sign/zero patterns of the four transverse injection coordinates, BPM subsets and loss patterns",
     "one test checks one pattern loosely",
     ["pySC/correction/injection_fit.py"],
     [("drift and trajectory fits", "pySC/correction/injection_fit.py")])

prop("C26", "Tune scan and tune and chromaticity fits apply the best setting they report",
     "A tune scan leaves the quadrupoles at the relative setting it reports, which is the first scanned point reaching the target or else the best "
     "scanned point, reports each point's true transmission, and fails when no beam survives anywhere. The "
     "chromaticity and tune fits only change the given magnet families, each by a common step on top of its own previous settings, and leave the best setting they found: "
     "reachable targets are reached.",
     ["fault_sequences", "inputs"],
     "all transmission patterns over small grids, full and early-stopping scans; sextupole and quadrupole families with all small setting patterns and targets",
     "one test runs one chromaticity fit; the scan and the tune fit have none",
     ["pySC/correction/tune.py", "pySC/correction/chroma.py"],
     [("scan", "pySC/correction/tune.py: tune_scan"), ("tune fit", "pySC/correction/tune.py: fit_tune"), ("chromaticity fit", "pySC/correction/chroma.py: fit_chroma")])

prop("C27", "Structure verification only diagnoses",
     "Verifying a machine never changes it, accepts every machine built by valid registrations, and rejects exactly "
     "the documented inconsistencies (supports without girders, unequal field lengths, combined function without bend, wrong injection shapes), warning about each further suspicious circumstance.",
     ["histories", "configurations"],
     "all combinations of registrations and single corruptions of a small machine",
     "tests run it on one machine",
     [SC], [("verification", f"{SC}: verify_structure")])

prop("C28", "Reporting and plotting leave machine and global settings unchanged",
     "Plotting a machine, successfully or not, leaves the machine and the plotting defaults as they were, and procedures with their plots switched on give the same results and machine as without. Switching "
     "debug logging on and off restores the loggers' levels and handlers and closes the log files, also after errors and when nested.",
     ["histories", "configurations"],
     "all plotting functions and option combinations on machines in non-trivial states; nested debug contexts with and without exceptions",
     "tests call plots without examining state",
     ["pySC/plotting/plot_lattice.py", "pySC/plotting/plot_support.py", "pySC/plotting/plot_phase_space.py",
      "pySC/plotting/plot_apertures.py", "pySC/utils/logging_tools.py"],
     [("plots", "pySC/plotting"), ("debug context", "pySC/utils/logging_tools.py: DebugMode")])

prop("C29", "LOCO parameter selection, fits and corrections address the right parameters",
     "A lattice fit uses exactly the selected parameter groups and, for exactly linear data, recovers the "
     "underlying parameters, weights only changing their relative importance; applying the result changes each addressed magnet (or each member of each "
     "family) by minus its own fitted value and nothing else.",
     ["inputs", "configurations"],
     "all selections of parameter groups, all small linear problems with integer parameters, individual and family corrections",
     "one test exercises one lattice",
     ["pySC/correction/loco.py"],
     [("fits", "pySC/correction/loco.py: loco_correction_lm, loco_correction_ng, objective, _get_parameters_mask"),
      ("correction", "pySC/correction/loco.py: set_correction")])

prop("C30", "Aperture searches return true stability boundaries; orbit in magnets is exact",
     "The dynamic aperture search returns, for each requested angle and momentum, a radius within the requested accuracy of a boundary between surviving and lost launches "
     "(launched around and returned relative to the closed orbit where requested), and the area of the polygon they span; the momentum aperture search returns for each requested element an interval, within the requested accuracy, "
     "whose inner momentum survives and whose outer one is lost when launched at that element on its closed orbit. Neither changes ring or arguments. "
     "The orbit in magnets is the closed orbit minus the transverse offset of each magnet, and missing where no closed orbit exists.",
     ["inputs", "fault_sequences"],
     "all survival tables (boundaries, islands, graded survival) x angles x bounds x momenta x accuracies x orbits; all small orbit and offset patterns",
     "no test calls these functions; a search is only judged by the boundary the tracking really has",
     ["pySC/lattice_properties/apertures.py", "pySC/lattice_properties/magnet_orbit.py"],
     [("dynamic aperture", "pySC/lattice_properties/apertures.py: SCdynamicAperture"), ("momentum aperture", "pySC/lattice_properties/apertures.py: SCmomentumAperture"),
      ("orbit in magnets", "pySC/lattice_properties/magnet_orbit.py: SCgetCOD")])

prop("C31", "Error ramp passes through common fractions of all errors",
     "While the errors are ramped up, every machine that is measured carries one common fraction of every applied error (magnets, supports, BPMs, cavities, injection, circumference); "
     "the fractions increase by equal steps up to the full errors. A failing feedback restarts the ramp with twice the steps from the original machine, beyond one hundred steps the ramp fails with "
     "an exception, and a successful ramp returns the machine with its full errors.",
     ["histories", "fault_sequences"],
     "all single (and pairs of) feedback failures over all steps of ramps with different step numbers on machines with all or some kinds of errors",
     "no test runs the ramp; the intermediate machines are only visible to an observer of each measurement",
     ["pySC/correction/ramp_errors.py"],
     [("ramp", "pySC/correction/ramp_errors.py: SCrampUpErrors")])

prop("C32", "Lattice helpers return what the data say",
     "Reading a multipole table returns the normalised columns in (A, B) form, and the order and type of its nominal component when there is exactly one; name patterns select exactly the elements whose family name "
     "matches any of them, in lattice order; equally spaced selection returns evenly spread distinct elements in their order starting with the first (exactly the requested number where the spacing divides evenly); the beta beat is the relative r.m.s. deviation of the machine's from the design beta function.",
     ["inputs"],
     "all small tables and formats, name sequences and patterns, selection sizes, gradient patterns",
     "tests use one table and one pattern",
     ["pySC/utils/sc_tools.py", "pySC/correction/loco.py"],
     [("helpers", "pySC/utils/sc_tools.py: read_multipoles, ords_from_regex"), ("LOCO helpers", "pySC/correction/loco.py: model_beta_beat, select_equally_spaced_elements")])

prop("C33", "Reports draw the data of the machine and of the measurement",
     "What a report draws is what the machine and the measurement hold, at the place and on the axis its labels name: readings, trajectories and apertures at the elements they belong to and turn after turn; "
     "phase space of surviving particles relative to the actual RF length, with injection point and closed orbit; offsets and rolls of every support, magnet and BPM, in both planes, also for supports across the end of the ring; "
     "corrector settings and their distribution; optics and apertures of the chosen ring within the chosen range; transmission, tune scan maps, measurements, fits and the applied step of RF corrections, readings before and after "
     "injection fits, orbit in magnets, aperture bounds, alignment results of each BPM (failed ones apart), beta beating. Missing data are not drawn, and asking for a plot does not change or abort the procedure.",
     ["inputs", "fault_sequences"],
     "all small option sets, machine states, loss patterns, support arrangements, element orders; the drawn points are read back from the figures",
     "tests at most call plots without looking at what they show",
     ["pySC/plotting", "pySC/core/beam.py", "pySC/correction/bba.py", "pySC/correction/rf.py", "pySC/correction/tune.py", "pySC/correction/injection_fit.py"],
     [("plots", "pySC/plotting: plot_lattice, plot_cm_strengths, plot_support, plot_phase_space, plot_synoptic"), ("readings", "pySC/core/beam.py: bpm_reading, all_elements_reading, beam_transmission with plots"),
      ("corrections", "pySC/correction/{bba,rf,tune,injection_fit,loco}.py and lattice_properties: plotting options")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
