"""Writes /verif/properties.jsonl (kept as a script only so the JSON stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})
BS="cuprates_transport/bandstructure.py"; CO="cuprates_transport/conductivity.py"; SC="cuprates_transport/scattering.py"
AD="cuprates_transport/admr.py"; PM="cuprates_transport/fitting_admr_parallel_multiT.py"; PO="cuprates_transport/fitting_admr_parallel_oneT.py"
SO="cuprates_transport/fitting_admr_series_oneT.py"; SM="cuprates_transport/fitting_admr_series_multi_T.py"

prop("C01", "Transport results depend only on the current settings, not on history",
 "Whenever a transport run completes, the electric, thermoelectric and thermal tensors and the extreme scattering rates it reports are those that a freshly created computation with the same current settings (band parameters, discretisation, magnetic field amplitude and angles, temperature, energy grid, time grid, solver tolerances, scattering models and parameters) would report. No sequence of earlier setting changes, runs, derived-quantity queries or copies, in whatever order, may alter them.",
 ["histories", "configurations"],
 "All finite sequences of setting changes (through every public route), runs, queries and copies over one or more computations that started from the same band.",
 "Every test builds one object, runs it at most once and compares one rounded number; no test changes a setting after a run, so stale caches, stale grids and left-over state cannot show.",
 [CO, SC, BS],
 [("property setters for Bamp/Bphi/Btheta/T/N_time/N_epsilon/dfdE_cut_percent", CO), ("runTransport resets time grid and phi before integrating", CO), ("scattering_params setter re-exports parameters as attributes", SC), ("erase_Fermi_surface on band parameter change", BS)],
 [("_B_vector", "cached field vector", CO), ("epsilon_array", "cached energy grid", CO), ("time_array/dtime_array", "cached time grid", CO), ("phi", "cached in-plane angle", SC)],
 ["Conductivity.sigma", "Conductivity.alpha", "Conductivity.beta", "Conductivity.gamma_tot_max", "Conductivity.gamma_tot_min"])

prop("C02", "An interrupted or failed run leaves no trace in later results",
 "If a computation (band discretisation, transport run or angular sweep) is cut short by an interrupt, an allocation failure or an error from a numerical kernel, the error reaches the caller. Afterwards, any later run on the same objects either raises an error or delivers exactly what it would have delivered had the failed run never been started; simply retrying a failed transport run or sweep succeeds.",
 ["crash_points", "fault_sequences", "histories"],
 "Every numerical-kernel call inside a run is a possible interruption point, with every error kind, at any position in a history of runs and setting changes.",
 "Tests never interrupt anything; a run stopped halfway through the energy loop or the angle loop is not reachable from them.",
 [CO, BS, AD],
 [("energy loop re-discretises the band object and returns it to the Fermi level", CO), ("discretize_fermi_surface replaces Fermi-surface arrays", BS), ("runADMR publishes the map", AD)],
 [("bandObject", "left on another energy surface while the energy loop runs", CO)],
 ["Conductivity.sigma", "ADMR.rhozz_array", "ADMR.rzz_array", "BandStructure.kf/vf/dkf/dos_k"])

prop("C03", "Fermi-surface data are never stale with respect to the band parameters",
 "At every moment, each Fermi-surface quantity a band exposes (points, velocities, weights, densities of states, mass, filling, doping) is either absent or is the value belonging to the band's current parameters, energy scale and last requested energy; changing a parameter by any public route, including fixing the doping, discards the old ones. A parameter read back is the value last set, whatever that value is, and adjusting the chemical potential to a doping gives a potential that realises that doping regardless of what was done before.",
 ["histories", "crash_points"],
 "All sequences of parameter assignments, discretisations at any energy and with either algorithm, doping and mass queries, doping adjustments and interrupted discretisations on one or several bands.",
 "Tests only discretise once per object with fixed parameters; none reads anything after a parameter change.",
 [BS],
 [("erase_Fermi_surface", BS), ("__setitem__/band_params/energy_scale setters", BS), ("set_mu_to_doping (method and function)", BS)],
 [("kf, vf, dkf, dks, dkz, dos_k, dos_epsilon, mass, n, p", "derived Fermi-surface data", BS)],
 ["BandStructure attributes", "BandStructure.__getitem__"])

prop("C04", "Each cell of an angular sweep equals a stand-alone run at that field angle",
 "After a completed angular sweep, the out-of-plane resistivity stored for every azimuth and polar angle is that of the inverse of the summed conductivities of all bands, each computed on its own at exactly that field direction, and the normalised map is that resistivity divided by its value at the normalisation angle for the same azimuth. This holds whatever sweeps, angle changes, parameter changes or interrupted sweeps came before, and the two maps always have the shape of the current angle grid.",
 ["histories", "fault_sequences", "configurations"],
 "All angle grids, normalisation angles, one or several bands, and all histories of sweeps, reconfigurations and interruptions.",
 "The only sweep test checks nothing but that no exception is raised.",
 [AD, CO],
 [("runADMR loops", AD), ("Bphi/Btheta setters", CO)],
 [("rhozz_array", "map of rho_zz", AD), ("rzz_array", "normalised map", AD)],
 ["ADMR.rhozz_array", "ADMR.rzz_array"])

prop("C05", "Sweep bookkeeping and written tables describe the sweep that was run",
 "After any number of sweeps, the total filling is the sum of the current fillings of the bands and the total hole doping is one minus it; the default output name carries that doping. A written sweep table read back contains the current angle grid as first column, one resistivity column per azimuth in order, and the field, energy scale, band parameters and resolution actually used. A sweep that fails leaves the maps and the totals of the last completed one.",
 ["histories", "configurations"],
 "All sequences of sweeps, parameter changes and table writes, with one or several bands.",
 "No test looks at totals or at a written file, and none runs two sweeps.",
 [AD],
 [("update_total_doping", AD), ("file_name_func", AD), ("fileADMR", AD)],
 [("total_filling", "sum of band fillings", AD), ("total_hole_doping", "1 - total filling", AD)],
 ["ADMR.total_filling", "ADMR.total_hole_doping", "ADMR.file_name_func()", "files written by ADMR.fileADMR"])

prop("C06", "Independent computations never influence each other",
 "Computations that were created separately, even from the same parameter dictionary or the same band, give the results they would give alone, under any interleaving of their operations, be they interleaved in one thread or run in concurrent threads. The dictionaries, lists and band objects a caller passes in are never modified, and modifying them or one computation afterwards never changes another computation.",
 ["schedules", "histories"],
 "All interleavings of two or more computations' operations, at statement granularity when they run in different threads, and all later modifications of the shared inputs.",
 "All tests are single-threaded and use one computation at a time.",
 [BS, CO, SC, AD, PM],
 [("deepcopy of band_params / scattering_params / bandObject / params_dict", BS + ", " + CO + ", " + SC + ", " + PM), ("serialised calls into the non-reentrant ODE solver", CO)],
 [("ODEPACK common blocks", "process-wide solver state", CO)],
 ["Conductivity.sigma per thread", "caller's params dict after use"])

prop("C07", "The misfit of a candidate depends on that candidate alone",
 "For every fitting class, the misfit returned for a candidate parameter vector is the sum of squared differences (or, for the residual-vector fits, the differences) between the measured curves and the curves simulated with exactly those parameter values, including values that are zero. It does not depend on which or how many candidates the same evaluator processed before, in what order, nor on evaluations that failed.",
 ["histories", "inputs", "fault_sequences"],
 "All sequences of candidate evaluations, repeated and failed ones included, on one evaluator and on copies of it shipped to worker processes, over all four fitting modules.",
 "No test runs any fitting module at all (the only one fails on a misspelt attribute).",
 [PM, PO, SO, SM],
 [("Fitness.compute_fitness / update_parameters", PM), ("SimADMR.update_params", PM), ("compute_diff2/generate_admr", PO), ("compute_diff/produce_ADMR_object", SO)],
 [("params_dict / member", "current candidate", PM + ", " + PO)],
 ["Fitness.compute_fitness", "FittingADMRParallel.compute_diff2", "FittingADMR.compute_diff"])

prop("C08", "A parallel fit gives the same answer under every worker schedule",
 "Given the state of the random generator, a parallel fit explores the same candidates and returns the same best parameters, misfit and simulated curves for every number of workers, assignment and batching of candidates to workers, completion order, worker speed and clock behaviour as an evaluation of the candidates one at a time. It runs on hosts that report any number of processors, or none.",
 ["schedules", "configurations"],
 "All pool sizes, chunkings, assignments, completion orders, delays and clock jumps, for both parallel fitting modules.",
 "No test starts a pool.",
 [PM, PO],
 [("fit_admr_parallel", PM), ("fit_admr_parallel", PO), ("deferred updating through the pool's map", PM)],
 [("worker copies of the evaluator", "one pickled copy per batch", PM)],
 ["returned object's params_dict / member", "rzz_sim_dict"])

prop("C09", "A parallel fit returns the best candidate with every free parameter applied",
 "When a parallel fit returns, every declared free parameter (band, scattering, or any other parameter that can be set for a band or a measurement condition) has in the returned parameter set a value inside its declared bounds, shared parameters have the same value at every temperature, and undeclared parameters are untouched. That parameter set is the lowest-misfit candidate evaluated in the whole fit, each declared parameter took effect in the simulations that were compared, and the returned simulated curves are the ones computed with it.",
 ["schedules", "histories", "configurations"],
 "All fits over any choice of free parameters, temperatures, bands, normalised or absolute data and any worker schedule.",
 "No test starts a fit.",
 [PM, PO],
 [("update_parameters / update_conditions", PM), ("SimADMR.update_params", PM), ("export of res.x at the end of fit_admr_parallel", PM + ", " + PO)],
 None, ["returned object's params_dict / member", "rzz_sim_dict", "rhozz_sim_dict"])

prop("C10", "A failing worker ends the fit with an error, promptly and without leaks",
 "If evaluating a candidate raises in a worker, or a worker process dies, the fit ends with an error within a bounded number of further steps instead of hanging or returning a result. All workers are released however the fit ends, no result file is produced by a failed fit, and running the fit again afterwards gives the same answer as if no failure had happened.",
 ["fault_sequences", "schedules"],
 "Every worker, every candidate and every kernel call inside an evaluation as the point of failure, by exception, memory exhaustion or sudden death, under any schedule.",
 "No test starts a pool or injects a failure.",
 [PM, PO],
 [("worker pool creation and release in fit_admr_parallel", PM + ", " + PO)],
 None, ["exception raised by fit_admr_parallel", "pool lifecycle", "result directory"])

prop("C11", "Saving results is all-or-nothing and never silently incomplete",
 "When saving a fit result (JSON) or a sweep table returns normally, the complete file is in place; when it fails because the disk is full, errors out, or writes short, the error reaches the caller. In every case, including the process being killed at any moment, the destination holds either its previous content or the complete new content, and other existing files are untouched.",
 ["crash_points", "fault_sequences"],
 "Every I/O operation of every save as the point of a kill, an I/O error, a full disk or a short write, over any sequence of saves to the same or different names.",
 "No test saves a result file, and none injects I/O faults.",
 [PM, PO, SO, SM, AD],
 [("save_member_to_json", PM + ", " + PO + ", " + SO + ", " + SM), ("fileADMR", AD)],
 None, ["files on disk"])

prop("C12", "A saved fit result can be reloaded to resume with identical outcome",
 "The parameters written by saving a fit result are exactly those of the fit object, at full precision, and loading them back (in the same or a new process) gives an object whose parameters, simulated curves and misfit are identical to the saved one's. This holds for every history of evaluations, saves and loads, whatever was saved under that name before.",
 ["histories", "configurations"],
 "All sequences of evaluating, saving, modifying and loading over the fitting classes.",
 "No test saves or loads a member.",
 [PM, PO, SO, SM],
 [("save_member_to_json / load_member_from_json", PO + ", " + SO + ", " + SM), ("save_member_to_json", PM)],
 None, ["JSON files", "member / params_dict after load"])

prop("C13", "Measured curves are loaded completely and correctly or not at all",
 "The measured matrices used by a fit contain, for each azimuth row and each simulated polar angle, the interpolation of that azimuth's and temperature's own data file, sorted by angle and normalised as declared, whatever order the file's rows or the data dictionary's entries are in and however the operating system fragments the reads. If reading any file fails, the error reaches the caller and no partly filled matrices are used; loading again, any number of times, gives the same matrices and angle grids.",
 ["fault_sequences", "histories", "inputs"],
 "All fragmentations and failures of reads, all row orders of the files, any number of reloads, over the four fitting modules.",
 "No test ever loads a data file.",
 [PM, PO, SO, SM],
 [("DataADMR.load_data / FitAnglesADMR.create_angles", PM), ("load_and_interp_data", PO + ", " + SO + ", " + SM)],
 None, ["rzz_data_matrix", "rhozz_data_matrix", "Btheta_array", "Bphi_array"])

prop("C14", "A serial fit runs to completion and delivers the optimiser's answer",
 "When the optimiser of a serial fit stops, the fit completes without error for every supported method: the fit object's parameters, the saved file and the comparison figure all describe the optimiser's final parameter values, for every kind of free parameter (band, scattering, or measurement condition) and at every temperature. A fault while saving is reported, leaves the parameters found in the fit object, and saving can be retried.",
 ["histories", "fault_sequences", "configurations"],
 "All methods, free-parameter choices and I/O failures during the final save, after any sequence of earlier fits on the same object.",
 "The only fitting test fails before it starts a fit.",
 [SO, SM],
 [("runFit", SO + ", " + SM), ("save_member_to_json", SO), ("fig_compare", SO)],
 None, ["member / member_dict", "JSON file", "PDF file"])

# ---- properties of a pure function of the input: listed, not claimed by this technique ----
W="A handful of rounded numbers for one cuprate band are compared; no other input is tried."
prop("N01", "The conductivity is the Chambers solution of the Boltzmann equation",
 "For every band, field and scattering rate, the conductivity tensor converges, as grids are refined, to Chambers' formula; for free electrons with isotropic scattering it converges to the Drude tensor.",
 ["inputs"], "All bands, fields, scattering rates.", W, [CO], [("chambers_func, solve_movement", CO)])
prop("N02", "The conductivity tensor obeys Onsager symmetry and is dissipative",
 "Reversing the field transposes the conductivity tensor, its symmetric part is positive definite, and rotating field and crystal together rotates it.",
 ["inputs"], "All bands and fields.", W, [CO], [("velocity_product", CO)])
prop("N03", "Fermi-surface points lie on the constant-energy surface with area weights",
 "Every point produced by either discretisation lies on the requested constant-energy surface to grid accuracy, weights sum to its area, and velocities are the gradient of the dispersion divided by the reduced Planck constant.",
 ["inputs"], "All band models, resolutions and energies.", W, [BS], [("marching_cube, marching_square", BS)])
prop("N04", "Doping and filling count the occupied states of the zone",
 "Filling is twice the occupied fraction of the declared zone, decreases when the band is raised, and doping is one minus filling, also summed over bands.",
 ["inputs"], "All band models and resolutions.", W, [BS], [("update_filling, doping", BS)])
prop("N05", "Electron orbits conserve energy and the momentum along the field",
 "Along every integrated trajectory the band energy and the wave-vector component along the field stay constant to solver tolerance.",
 ["inputs"], "All bands, fields, durations.", W, [CO], [("movement_equation", CO)])
prop("N06", "Scattering rates add up model by model and are periodic in the zone",
 "The total rate is the sum of the selected models' rates as documented, is positive, and is periodic under reciprocal-lattice translations in the plane.",
 ["inputs"], "All model selections and parameters.", W, [SC], [("tau_tot_func", SC)])
prop("N07", "Finite-temperature coefficients reduce to the zero-temperature ones",
 "As temperature goes to zero, the conductivity tends to its zero-temperature value and the Seebeck coefficient obeys Mott's relation.",
 ["inputs"], "All bands and temperatures.", W, [CO], [("chambers_func energy loop", CO)])
prop("N08", "Compiled kernels give the same numbers with and without parallel threads",
 "Dispersion and velocity evaluated by multi-threaded compiled kernels equal the single-threaded and the uncompiled evaluation.",
 ["inputs", "schedules"], "All inputs and all thread schedules inside the compiled runtime.", W, [BS], [("energy_velocity_definition", BS)])
prop("N09", "Figures show the quantities they label",
 "Every curve, colour scale and annotation of a figure shows the quantity its label names for the current settings.",
 ["inputs"], "All figures and settings.", "Figure tests only check that nothing raises.", [BS, CO, AD], [("fig* methods", BS + ", " + CO + ", " + AD)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
