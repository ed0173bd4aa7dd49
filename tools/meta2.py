M = P + "mc_diffstarpop_mgash.py"
K = P + "kernels/"
prop("C18", "Single Monte Carlo draws are the population's Gaussian with its quenched odds",
     "A Monte Carlo galaxy's unbounded parameters are the population mean plus each width times its own independent standard normal for its own sequence, and it is flagged quenched exactly when its uniform draw falls below its quenched fraction. Centrals use the central fraction and ignore infall; satellites use the satellite fraction. The bounded form is the transform of the unbounded form for the same key, and draws of the main sequence carry unquenched parameters.",
     ["inputs", "random draws"], "every halo, population parameter and underlying uniform or normal draw symbolic",
     "Tests check shapes and finiteness of a few seeded draws; the relation must hold for every draw.",
     [M, K + "diffstarpop_mgash.py"],
     [("mc_diffstar_params_singlegal / mc_diffstar_u_params_singlegal_kernel", M), ("mc_diffstarpop... kernels", K + "diffstarpop_mgash.py")],
     note=RE + " jax.random bits are uninterpreted functions of key, shape and slot.")
prop("C19", "A Monte Carlo population is one independent single draw per halo",
     "Row i of a Monte Carlo population is the single-galaxy draw for halo i with its own key, so galaxies never share randomness and are unaffected by the other halos. The reported main-sequence and quenched histories are those of the reported parameters of each sequence for that halo's own mass history, cosmic age and baryon fraction, the peak time used is the halo's own, and every entry point reports the same draw for the same key.",
     ["inputs", "random draws"], "populations of symbolic halos, draws and population parameters",
     "Tests check shapes and finiteness for a few populations.",
     [M, K + "diffstarpop_mgash.py"],
     [("mc_diffstar_sfh_galpop / mc_diffstar_params_galpop", M), ("mc_diffstar_sfh_singlegal", M)],
     note=RE + " jax.random bits are uninterpreted functions of key, shape and slot.")
prop("C20", "Population losses compare the predicted distributions with the data",
     "The predicted distributions count every halo twice, as main-sequence and as quenched galaxy weighted by its own fractions, at the stellar mass formed by the observation time, and are normalised to one; specific-rate distributions are mixed over halo mass with the given abundances, per stellar-mass bin. The loss is a thousand times the mean squared difference from the target, never negative and zero for a match; combined losses add their parts on their own data, and the gradient wrappers report the value and the gradient of the same loss in parameter order.",
     ["inputs"], "symbolic halos, draws, population parameters and target data",
     "Tests check that the loss and its gradient are finite at one point.",
     [P + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py"],
     [("loss kernels", P + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py")],
     note=RE + " diffsky's weighted triweight histogram is encoded from its installed source.")
FH = D + "fitting_helpers/"
SYM = "path-forking symbolic execution of the real Python functions; every path's assertions decided by z3"
EN = "optimiser, gradient and random draws are nondeterministic stand-ins (any value, NaN and inf included); exact reals; numpy array plumbing trusted. See DESIGN.md for the bounds."
prop("C21", "The restarting optimiser returns its best attempt and honest flags",
     "A minimisation makes attempts, each from a fresh random start around the given point with the given widths, until one reaches the loss tolerance or the allowed number is used. An attempt never starts where the gradient contains a NaN: the start is redrawn up to a thousand times, and an attempt that still finds none counts as failed with a sentinel loss. The returned point, loss and flag are those of the attempt with the lowest loss; NaN losses are ignored, and when every loss is NaN the initial guess is returned with a failure flag.",
     ["histories", "inputs"], "sequences of up to three attempts (thorough: more), each any loss, success flag or unusable start",
     "Tests run a few well-behaved fits; failures and restarts depend on the history of attempts.",
     [FH + "utils.py"],
     [("minimizer_wrapper", FH + "utils.py"), ("return_random_pinit", FH + "utils.py")], technique=SYM, note=EN)
prop("C22", "Adam returns its best finite step; L-BFGS falls back with honest flags",
     "An Adam run visits its steps in order, stops at the first step with a non-finite loss, gradient or parameter, returns the visited point with the lowest loss and records every step before the stop. Warm-up runs feed their best point to the next run and a non-finite warm-up result is replaced by the original start. The minimiser returns the L-BFGS result when it converged and otherwise the Adam result, and its flag says which and whether Adam met a non-finite value.",
     ["histories", "inputs"], "runs of up to 3 steps and 2 warm-ups (thorough: 5 and 3), every iterate, loss and gradient symbolic",
     "Tests run Adam on one smooth loss; the stop, restart and fall-back branches depend on the history of values.",
     [FH + "utils.py"],
     [("_jax_adam_wrapper", FH + "utils.py"), ("jax_adam_wrapper_v2", FH + "utils.py"), ("minimizer", FH + "utils.py")], technique=SYM, note=EN)
EM = RE + " The scipy optimiser is a stand-in returning any point; numpy code is traced through an exact numpy look-alike."
prop("C23", "Fits use the caller's data, exclude flagged snapshots, and report the optimum",
     "Fitting a history minimises a loss that is never negative, equals the weighted squared residuals of mass, delayed-average rate and specific rate plus a penalty for quenching before the peak of star formation, and for a perfect match is that penalty alone. Targets are the caller's history and its integral with the caller's floors and delay; snapshots cut by time, mass or the delay do not count. The optimiser gets the gradient of this loss and starts from a finite, clipped guess; the fit returns the bounded form of its point, its loss and its flag.",
     ["inputs"], "symbolic histories of 3-4 snapshots (thorough: more), halo parameters, cuts, delay, floor, fit parameters and optimiser results",
     "Tests fit a hundred smooth model histories with default options and check finiteness.",
     [FH + "diffstar_fitting_helpers.py"],
     [("diffstar_fitter", FH + "diffstar_fitting_helpers.py"), ("get_loss_data_default", FH + "diffstar_fitting_helpers.py"), ("get_weights", FH + "diffstar_fitting_helpers.py"), ("loss_default_clipssfrh", FH + "diffstar_fitting_helpers.py")], note=EM)
DL = D + "data_loaders/"
prop("C24", "A catalogue block is exactly the matching rows of the whole catalogue",
     "Loading or extracting a block of a catalogue with given start and end rows gives exactly those rows of the full catalogue, whatever the block, including an omitted end and empty blocks; only the requested columns are loaded and the time table is never cut. Each galaxy's extracted history is its own mass summed over its metallicity bins, separately for the total and the in-situ part, and zero for a galaxy without a recorded history.",
     ["inputs", "configurations"], "symbolic block limits, table values and missing histories for catalogues of 4 galaxies (thorough: 7)",
     "Tests load one small file from its first row.",
     [DL + "utils.py", DL + "extract_galacticus_sfh_data.py", DL + "load_galacticus_sfh.py"],
     [("load_flat_hdf5", DL + "utils.py"), ("extract_galacticus_sfh_tables / extract_galacticus_mah_tables", DL + "extract_galacticus_sfh_data.py"), ("load_galacticus_sfh_data_block", DL + "load_galacticus_sfh.py")],
     technique=SYM, note="h5py is an in-memory stand-in with the same indexing rules; exact reals; bounds in DESIGN.md.")
prop("C25", "Simulation loaders return every galaxy's own history, mass and fit",
     "Loading a simulation catalogue returns, galaxy by galaxy in stored order, the identifiers, times and star formation rates as stored in the file for the requested galaxy type or subvolumes, the log mass obtained by integrating that galaxy's own rate, and, where halo masses are given, a never-decreasing peak-mass history whose last value is the present-day mass. Halo fits keep their stored values in named fields; a halo without a usable fit (negative loss or too few points) gets -1 in every field. Model-catalogue rates times the time step give back the mass formed in it.",
     ["inputs"], "catalogues of 2 galaxies and 3 snapshots (thorough: 3 and 5), every stored value and threshold symbolic",
     "Tests skip these loaders because the simulation files are not present.",
     [DL + "load_smah_data.py", DL + "load_galacticus_sfh.py"],
     [("load_bolshoi_data ... load_SMDPL_DR1_data, load_tng_data", DL + "load_smah_data.py"), ("load_smdpl_diffmah_fits", DL + "load_smah_data.py"), ("load_galacticus_sfh_target_data", DL + "load_galacticus_sfh.py")],
     note=RE + " numpy and h5py file reads are an in-memory stand-in; numpy code is traced through an exact numpy look-alike.")
prop("C26", "Fit records survive writing, collating and loading",
     "The text record of a galaxy's fit has one field per header column: halo id, the model's parameters in model order, loss and success code; a galaxy without a fit has -99 for every parameter, loss -1 and success -1. Records collated from any number of files into a fit catalogue and read back give, for each galaxy, its own id and code exactly and its own parameters and loss to five decimals, by column name and, from the fit loader, as main-sequence and quenching parameters in model order. A table that does not have one column per name is refused.",
     ["inputs", "configurations"], "3 galaxies (thorough: 4), each fitted or not, in one or two files; every id, parameter, loss and code symbolic",
     "Tests never write a record or read one back.",
     [FH + "diffstar_fitting_helpers.py", DL + "load_smah_data.py", DL + "utils.py"],
     [("get_header / get_outline / get_outline_nofit", FH + "diffstar_fitting_helpers.py"), ("write_collated_data", FH + "diffstar_fitting_helpers.py"), ("load_fit_sfh", DL + "load_smah_data.py")],
     technique=SYM, note="h5py and text files are in-memory stand-ins; written numbers come back within half a unit of the last digit of their format; rounding to single precision inside the record is covered by the tolerance.")
SC = "scripts/"
prop("C27", "Parallel fitting runs record every galaxy once with its own fit",
     "For any number of parallel ranks, a fitting run ends with one catalogue per input catalogue holding one row per galaxy in catalogue order: its own id and either the fit to its own star formation history and halo with the options given on the command line, or the no-fit record when its halo has no usable fit or is below the mass cuts. Every galaxy is fitted at most once, no two ranks touch a file in an order the barriers do not fix, no rank is left waiting, and only the run's temporary files are removed.",
     ["inputs", "schedules", "configurations"], "up to 3-4 ranks and 2-6 galaxies (thorough: 6 and 9), one or two subvolumes, catalogues symbolic, every schedule the barriers allow",
     "No test runs the scripts; defects appear only for certain rank and galaxy counts or interleavings.",
     [SC + "diffstar_fitting_script_umachine.py", SC + "diffstar_fitting_script_umachine_mgash.py", SC + "galacticus_diffstar_fitter_script.py", SC + "galacticus_diffstar_fitter_script_mgash.py", SC + "history_fitting_script_TNG_mgash.py", SC + "galacticus_analysis/galacticus_diffmah_fitter_script.py"],
     [("rank split, fit loop and collation", SC + "diffstar_fitting_script_umachine.py"), ("rank split, fit loop and collation", SC + "galacticus_diffstar_fitter_script.py"), ("rank split, fit loop and collation", SC + "history_fitting_script_TNG_mgash.py")],
     technique=SYM, note="ranks communicate only by barriers, reductions and files; the fit of one galaxy is an uninterpreted function of its arguments; at least one galaxy per rank for the Galacticus and TNG scripts; the -test mode is outside.")
prop("C28", "Gradients are finite and are the derivatives of the returned values",
     "Automatic differentiation of any returned quantity (bounded parameters, efficiencies, star formation rates, stellar and gas masses, delayed-average rates, interpolated values, quenched fractions, population means and covariances, weighted histograms and losses) gives, with respect to each input a fit varies, the true derivative of that returned value, with no contribution dropped, frozen or double counted. For galaxy and population parameters inside their boxes it is finite everywhere, including at the clips and floors where the value itself stops changing.",
     ["inputs"], "every parameter, halo, time and data value inside its box, away from the points where the value has no derivative",
     "Tests check that one or two gradients are finite at default parameters; a frozen or NaN gradient appears only where a branch or clip is active, and silently stalls fits.",
     [D + "defaults.py", D + "sfh_model.py", D + "utils.py", D + "kernels/main_sequence_kernels.py", D + "kernels/quenching_kernels.py", K + "diffstarpop_mgash.py", FH + "diffstar_fitting_helpers.py"],
     [("calc_sfh_singlegal / calc_sfh_galpop", D + "sfh_model.py"), ("_quenching_kern", D + "kernels/quenching_kernels.py"), ("_diffstarpop_means_covs", K + "diffstarpop_mgash.py"), ("loss_default_clipssfrh", FH + "diffstar_fitting_helpers.py")],
     note=RE + " The derivative is computed symbolically from the encoded value and compared with the encoded gradient; candidate counterexamples are replayed against finite differences.")
prop("C29", "Sigmoids, selection, broadcasting and single-fit helpers",
     "Both copies of the sigmoid go from the first level to the second: halfway at the centre, symmetric about it, always between the levels, in the direction of the speed's sign, constant between equal levels; the inverse undoes it for every value strictly between the levels, and the algebraic form obeys the same. Bounding constants made from any ranges span exactly those ranges with unit slope. Selecting between two draws takes every parameter of a galaxy from its chosen draw; scalars broadcast to the common length, mixed lengths are refused. The satellite trends interpolate their corner levels, and the single fit minimises the caller's loss from the caller's start and returns the optimum.",
     ["inputs"], "symbolic arguments, centres, speeds of either sign, levels, parameters, masks and optimiser results",
     "Tests evaluate these helpers at a handful of points.",
     [D + "utils.py", P + "utils.py", P + "param_utils.py", K + "satquenchpop_model.py", D + "kernels/main_sequence_kernels.py", P + "sumstats/smdpl_smhm_targets.py"],
     [("_sigmoid / _inverse_sigmoid / sigmoid_poly", D + "utils.py"), ("minimizer", P + "utils.py"), ("mc_select_diffstar_params", P + "param_utils.py")],
     note=RE + " The scipy optimiser and h5py are stand-ins.")
PS = "scripts/diffstarpop_scripts/"
prop("C30", "Population-fit target data pair each bin's halos with that bin's statistics",
     "Loss data built from the target files has one row per (time, halo mass) bin with enough sampled halos (50 of the row's kind for distributions, the requested number for mean masses), in time then mass order, holding the requested number of halos of that bin and kind, each with its own parameters, host id and present-day mass and none repeated where there are enough, the age of its time, and that bin's own normalised target. Distributions of specific star formation rate weigh each row by its share of that kind's halos at its time, and their targets are so weighted, noise below zero removed, each stellar mass bin normalised or zero. Saved loss data reads back unchanged, field by field.",
     ["inputs", "configurations"], "2 times, 3 halo mass bins with 49 to 104 halos, halos of open bin and type, symbolic counts, ages, mean masses and halo parameters; draws of 3 to 200 halos",
     "No test runs these functions; a bin paired with another bin's halos, target or weight still gives a finite loss of the right shape.",
     [PS + "fit_get_loss_helpers_mgash.py", PS + "save_loss_data.py"],
     [("get_loss_data_smhm", PS + "fit_get_loss_helpers_mgash.py"), ("get_loss_data_pdfs_mstar / _cen / _sat", PS + "fit_get_loss_helpers_mgash.py"), ("get_loss_data_pdfs_ssfr_central / _satellite, prepare_ragged", PS + "fit_get_loss_helpers_mgash.py"), ("save_loss_data_h5 / load_loss_data_h5", PS + "save_loss_data.py")],
     technique=SYM, note="h5py, random draws and diffmah are stand-ins; draws of 10000 are cut to 130; every time has an eligible bin and every bin a positive total, except in the harnesses with empty bins; bounds in DESIGN.md.")
prop("C31", "A population fit saves the best parameters it visited",
     "The population fitting script minimises the loss asked for, on the target data asked for, from the requested starting parameters (shipped defaults, a named simulation or a file), each step following the gradient at its own point. Whatever the losses, with points of undefined loss or gradient on the way, it saves once, where asked, unbounded parameters that it visited with a defined loss and gradient and whose loss is the least of all such points, together with their bounded form.",
     ["inputs", "histories"], "fits of 1 to 4 steps (thorough: 6), each later loss and gradient finite or not, every loss and optimiser point symbolic, finite at the start; three losses and kinds of start",
     "No test runs the script; keeping the last or a wrong point shows only when the loss is not monotone or becomes undefined.",
     [PS + "fit_mstar_ssfr_pdfs_mgash.py"],
     [("fit loop", PS + "fit_mstar_ssfr_pdfs_mgash.py")],
     technique=SYM, note="the optimiser and the loss are uninterpreted; saved values are compared at the single precision the script stores.")
