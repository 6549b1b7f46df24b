#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Sample identifiers are unique, gap-free and continue after a restart",
 "For any number of levels and any history of target settings, scheduling calls and restarts over the same storage, "
 "each scheduling call dispatches on every level exactly the number of samples missing to the target (none where the target is already met), "
 "under identifiers made of the level number and a consecutive counter, so that no identifier is ever issued twice or skipped. "
 "The identifiers recorded by the storage for a level are exactly, and in the same order, the ones handed to the sampling pool with that level's simulation. "
 "Setting new per-level targets never lowers a target.",
 ["inputs", "histories"], "all level counts, target vectors, already scheduled counts, and sequences of set-target / schedule / restart",
 "Tests schedule a few fixed counts once; they do not look at the identifiers, at repeated scheduling, nor at restarts over a partly filled storage.",
 ["mlmc/sampler.py"],
 [("identifier = level and running counter", "mlmc/sampler.py:Sampler._get_sample_tag"),
  ("dispatch loop", "mlmc/sampler.py:Sampler.schedule_samples"),
  ("target update keeps the maximum", "mlmc/sampler.py:Sampler.set_level_target_n_samples"),
  ("counters restored from the storage", "mlmc/sampler.py:Sampler.__init__")],
 [("_n_scheduled_samples", "per level number of identifiers issued so far", "mlmc/sampler.py"),
  ("_n_target_samples", "per level target", "mlmc/sampler.py")],
 ["SamplingPool.schedule_sample", "SampleStorage.save_scheduled_samples"])

prop("P02", "A sample's random seed is a fixed function of its identifier",
 "The seed a sample is computed with is determined by its identifier alone (the first 32-bit word of the identifier's MD5 digest), whichever sampling pool runs it, in whatever order, on the first run, after a restart or when a failed sample is renewed; a seed passed explicitly is used unchanged. "
 "Fine and coarse results of one sample come from a single simulation call that gets this one seed and the configuration of the sample's own level.",
 ["inputs", "histories", "schedules"], "all identifiers, levels, pools and orders of execution",
 "Tests run each pool once with a random simulation and compare only loose statistics; nothing compares the seed of the same identifier across pools or runs.",
 ["mlmc/sampling_pool.py", "mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py"],
 [("seed from identifier", "mlmc/sampling_pool.py:SamplingPool.compute_seed"),
  ("single simulation call", "mlmc/sampling_pool.py:SamplingPool.calculate_sample"),
  ("seed stored with the job", "mlmc/sampling_pool_pbs.py:SamplingPoolPBS.schedule_sample"),
  ("seed used by the job", "mlmc/tool/pbs_job.py:PbsJob.calculate_samples")],
 None, ["LevelSimulation._calculate"])

prop("P03", "A sampling pool returns every sample exactly once",
 "Over any history of handing samples to a local sampling pool and polling it, every sample comes back from polling exactly once - as successful with its own result or as failed with its own error text - under its own identifier and level, and within a level in the order of completion. "
 "The reported number of running samples equals the number handed over minus the number returned so far. "
 "Both hold also when samples complete at any moment during a poll.",
 ["histories", "schedules", "inputs"], "all sequences of schedule/poll, all levels, all interleavings of a completing sample with a poll",
 "Tests wait until everything has finished and then poll; a completion during a poll, or several polls over several levels, are not produced.",
 ["mlmc/sampling_pool.py"],
 [("result queues per level", "mlmc/sampling_pool.py:OneProcessPool._process_result"),
  ("polling drains the queues", "mlmc/sampling_pool.py:OneProcessPool._queues_to_list"),
  ("poll result", "mlmc/sampling_pool.py:OneProcessPool.get_finished"),
  ("hand-over", "mlmc/sampling_pool.py:OneProcessPool.schedule_sample, ProcessPool.schedule_sample")],
 [("_queues/_failed_queues", "finished, not yet returned samples per level", "mlmc/sampling_pool.py"),
  ("_n_running", "handed over minus returned", "mlmc/sampling_pool.py")],
 ["OneProcessPool.get_finished"])

prop("P04", "A bad sample is reported as failed and nothing else is disturbed",
 "A sample whose simulation raises an exception, or whose workspace cannot be prepared, or whose fine or coarse result vector does not have the length prescribed by the result format, is reported as failed with the error text and never as successful; the exception does not leave the pool and other samples are unaffected. "
 "A sample whose simulation returns well-formed result vectors is reported as successful with exactly the returned fine and coarse values, in that order. "
 "The prescribed length is the sum over the quantities of array size times number of times times number of locations.",
 ["inputs", "fault_sequences"], "all simulations (including raising ones), all result formats, all result lengths, any position of the bad sample among others",
 "Tests have simulations that raise at random and only compare counts; wrong result lengths and multi-quantity formats are not covered.",
 ["mlmc/sampling_pool.py", "mlmc/tool/pbs_job.py"],
 [("guarded simulation call and format check", "mlmc/sampling_pool.py:SamplingPool.calculate_sample"),
  ("routing by error text", "mlmc/sampling_pool.py:OneProcessPool._process_result"),
  ("routing in a batch job", "mlmc/tool/pbs_job.py:PbsJob.calculate_samples")],
 None, ["SamplingPool.calculate_sample", "OneProcessPool.get_finished"])

prop("P05", "The in-memory storage returns exactly what was stored",
 "After any sequence of saves, the data read back for a level are the fine/coarse result pairs of all successful samples saved to that level, values unchanged and in the order saved, arranged as components x samples x (fine, coarse); level zero gives the fine part only. "
 "Asking for a limited number of samples gives the first ones. "
 "The reported numbers of collected samples, and of finished (successful plus failed) samples, per level are the numbers saved.",
 ["inputs", "histories"], "all levels, batch sizes, numbers of batches, result lengths and values",
 "Tests store constant arrays of ones or zeros in one or two batches, so order, pairing, level mix-ups and repeated appends are invisible.",
 ["mlmc/sample_storage.py"],
 [("append of a batch", "mlmc/sample_storage.py:Memory._save_successful"),
  ("failed bookkeeping", "mlmc/sample_storage.py:Memory._save_failed"),
  ("read", "mlmc/sample_storage.py:Memory.sample_pairs_level, sample_pairs, _level_chunks"),
  ("counts", "mlmc/sample_storage.py:Memory.n_finished, get_n_collected")],
 [("_results", "per level array of fine/coarse pairs", "mlmc/sample_storage.py"), ("_n_finished", "per level count", "mlmc/sample_storage.py")],
 ["SampleStorage.sample_pairs", "SampleStorage.sample_pairs_level"])

prop("P06", "The HDF5 storage returns exactly what was stored, in chunks and reopened",
 "After any sequence of saves and reopenings of the file, the data read back for a level are the fine/coarse result pairs of all successful samples saved to that level, values unchanged and in the order saved, arranged as components x samples x (fine, coarse); level zero gives the fine part only. "
 "The chunks of a level are disjoint, in order, and together cover exactly all collected samples; asking for a limited number of samples gives the first ones. "
 "The n-th stored result belongs to the n-th stored collected identifier.",
 ["inputs", "histories"], "all levels, batch sizes, numbers of batches, result lengths, chunkings and reopenings",
 "Tests store constant arrays in one or two batches and read them in one piece; several chunks per level and reopening in the middle of a run are not exercised.",
 ["mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"],
 [("append", "mlmc/tool/hdf5.py:LevelGroup._append_dataset, append_successful"),
  ("chunk iteration", "mlmc/tool/hdf5.py:LevelGroup.chunks, collected; mlmc/sample_storage.py:SampleStorage.chunks"),
  ("read", "mlmc/sample_storage_hdf.py:SampleStorageHDF.sample_pairs_level, sample_pairs"),
  ("reopen", "mlmc/tool/hdf5.py:HDF5.load_from_file, add_level_group")],
 None, ["SampleStorageHDF.sample_pairs", "SampleStorageHDF.chunks"])

prop("P07", "Scheduled, collected, failed and unfinished samples are tracked consistently",
 "For every level and after any sequence of saves and reopenings, the HDF5 storage reports as scheduled exactly the identifiers saved as scheduled, in order; as the number of collected samples the number of successful ones saved; as failed those saved as failed since failures were last cleared; as finished the collected plus the failed ones; and as unfinished the scheduled ones that are neither collected nor failed. "
 "Clearing failures forgets the failed samples and changes nothing else. "
 "Renewing failed samples hands exactly the failed identifiers back to the pool, each with its own level's simulation, and then clears them.",
 ["inputs", "histories"], "all levels, identifier sets, orders of saving, clearing, renewing and reopening",
 "Tests check only counts after one linear run; unfinished identifiers and clearing after a reopen are not compared with a reference.",
 ["mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py", "mlmc/sampler.py"],
 [("identifier data sets", "mlmc/tool/hdf5.py:LevelGroup.append_scheduled, append_failed, append_successful"),
  ("difference of sets", "mlmc/tool/hdf5.py:LevelGroup.get_unfinished_ids, get_finished_ids, get_failed_ids"),
  ("clearing", "mlmc/tool/hdf5.py:LevelGroup.clear_failed_dataset"),
  ("renewal", "mlmc/sampler.py:Sampler.renew_failed_samples")],
 None, ["SampleStorageHDF.unfinished_ids", "SampleStorageHDF.failed_samples", "SampleStorageHDF.n_finished", "SampleStorageHDF.load_scheduled_samples"])

prop("P08", "The mean estimate is the multilevel Monte Carlo estimator",
 "For any stored samples and any quantity, the estimate on a level is the arithmetic mean over the level's used samples of fine minus coarse (of fine alone on level zero) and its variance is the unbiased sample variance of the same differences (infinite for a single sample); the overall mean is the sum of the level means and its variance is the sum over levels of level variance divided by the number of used samples. "
 "The numbers do not depend on how a level's samples are split into chunks. "
 "Every component of the quantity is treated independently and in the same way.",
 ["inputs"], "all numbers of levels, samples, components and chunkings, all values",
 "Tests compare the means of a few quantities with each other within 1e-8 on one storage with one chunk per level; the level variances and their combination are not compared with a reference.",
 ["mlmc/quantity/quantity_estimate.py", "mlmc/quantity/quantity.py"],
 [("accumulation over chunks", "mlmc/quantity/quantity_estimate.py:estimate_mean"),
  ("combination of the levels", "mlmc/quantity/quantity.py:QuantityMean._calculate_mean_var")],
 None, ["estimate_mean(...).mean/.var/.l_means/.l_vars"])

prop("P09", "Samples with missing values are dropped whole, and counted",
 "An estimate leaves out a sample exactly when some component of the quantity is NaN in its fine or its coarse part; the sample is then left out whole (all components, fine and coarse together) and all other samples are used unchanged and in order. "
 "On every level, the number of used samples plus the number of removed samples is the number of collected samples. "
 "When no sample is left on any level the estimate raises an error.",
 ["inputs"], "all positions of NaN over components, samples, fine/coarse, levels and chunks",
 "Tests have NaN only through random outliers of a single scalar quantity and never check which samples were dropped.",
 ["mlmc/quantity/quantity_estimate.py"],
 [("mask", "mlmc/quantity/quantity_estimate.py:mask_nan_samples"), ("counting", "mlmc/quantity/quantity_estimate.py:estimate_mean")],
 None, ["estimate_mean(...).n_samples/.n_rm_samples", "mask_nan_samples"])

prop("P10", "Quantity arithmetic, comparison and selection act sample by sample",
 "For every component, sample and fine/coarse part, an arithmetic operation or numpy function on quantities and constants gives the value the same operation gives on the plain numbers, operands in the written order. "
 "A comparison marks a sample exactly when every component satisfies it in both the fine and the coarse part, and a selection keeps exactly the samples marked by all of its conditions, fine and coarse together and in the original order. "
 "Combining quantities that come from different selections or different storages raises an error.",
 ["inputs", "programs"], "all expressions built from quantities and constants, all sample values, both operand orders",
 "Tests check sample expressions for one storage with random data; most reflected operators, multi-component comparisons and combined selections are compared only through means.",
 ["mlmc/quantity/quantity.py"],
 [("operator overloads", "mlmc/quantity/quantity.py:Quantity.__add__ ... __rmod__, create_quantity"),
  ("numpy functions", "mlmc/quantity/quantity.py:Quantity._method"),
  ("masks", "mlmc/quantity/quantity.py:Quantity._process_mask, select"),
  ("selection identity", "mlmc/quantity/quantity.py:Quantity.set_selection_id, _check_selection_ids")],
 None, ["Quantity.samples"])

prop("P11", "Access to parts of a quantity returns exactly those parts",
 "The vector of a stored sample is laid out quantity by quantity in the order of the result format, inside that time by time, location by location and row by row of the array. "
 "Access by name, time, location and array index or slice, on a quantity or on its estimated mean, returns exactly the corresponding components for every result format, and an item of a composed array, dictionary, time series or field is the quantity it was composed from. "
 "Interpolation in time is piecewise linear between the neighbouring stored times, component by component.",
 ["inputs", "configurations"], "all result formats (number of quantities, shapes, times, locations), keys and compositions",
 "Tests use one result format with two quantities of equal size, so wrong offsets for unequal sizes, other nesting or non-square arrays do not show.",
 ["mlmc/quantity/quantity.py", "mlmc/quantity/quantity_types.py"],
 [("offsets", "mlmc/quantity/quantity_types.py:DictType.get_key, TimeSeriesType.get_key, FieldType.get_key, ArrayType.get_key"),
  ("sizes", "mlmc/quantity/quantity_types.py:*.size"),
  ("root layout", "mlmc/quantity/quantity.py:make_root_quantity"),
  ("composition", "mlmc/quantity/quantity.py:Quantity.QArray, QDict, QTimeSeries, QField, _concatenate"),
  ("mean access", "mlmc/quantity/quantity.py:QuantityMean.__getitem__")],
 None, ["Quantity.__getitem__", "QuantityMean.__getitem__", "Quantity.time_interpolation"])

prop("P12", "Moment functions are evaluated consistently on their domain",
 "Values are mapped to the reference domain by the increasing affine map (of the logarithm in logarithmic mode) that takes the ends of the domain to the ends of the reference domain, the inverse map undoes it, and with safe evaluation exactly the values outside the domain give NaN for every non-constant moment. "
 "Moment i is the same whether evaluated alone or together with the others, for any number of moments, the zeroth moment is one, and linearly transformed moments are exactly the given matrix applied to the original moments. "
 "A moment or covariance quantity holds, for each component of the original quantity, its moments or the products of pairs of its moments, for fine and coarse separately, in the documented order.",
 ["inputs", "configurations"], "all moment families, sizes, domains, log/safe settings, values and indices",
 "Tests evaluate a handful of sizes on fixed grids; single-moment evaluation, unequal domains in logarithmic mode and the layout of covariance quantities are not compared with a reference.",
 ["mlmc/moments.py", "mlmc/quantity/quantity_estimate.py"],
 [("maps", "mlmc/moments.py:Moments.__init__, linear, inv_linear, clip"),
  ("evaluation", "mlmc/moments.py:*._eval_all, eval, eval_single_moment, eval_all"),
  ("transformed moments", "mlmc/moments.py:TransformedMoments._eval_all"),
  ("quantities", "mlmc/quantity/quantity_estimate.py:moment, moments, covariance")],
 None, ["Moments.eval_all", "Moments.eval", "Moments.eval_single_moment"])

prop("P13", "Estimated sample counts follow the optimal allocation for the target variance",
 "For any level variances, positive level costs and positive target, the count estimated for a level is the maximum over the moments of the optimal count sqrt(variance/cost) times the sum over levels of sqrt(variance times cost) divided by the target, rounded to an integer, limited from above by variance times number of levels divided by the target, and never less than two. "
 "Counts are integers, one per level, and do not decrease when the target is decreased.",
 ["inputs"], "all variances, costs, targets, numbers of levels and of moments",
 "Tests run the estimate inside a sampling loop and check only that the loop ends; no test compares a count.",
 ["mlmc/estimator.py"],
 [("formula", "mlmc/estimator.py:estimate_n_samples_for_target_variance")],
 None, ["estimate_n_samples_for_target_variance"])

prop("P14", "Adding samples approaches the estimated counts and never overshoots",
 "One step of adding samples raises the target of a level by the given fraction of the distance between scheduled and estimated count, or straight to the estimate when the remaining distance is smaller than that fraction of the estimate, rounded up; it never lowers a target and never schedules more than the (rounded up) estimate on a level whose target was not higher before. "
 "It returns only after the requested fraction of samples has finished on every level still below its estimate, and reports completion exactly when no level is below its estimate.",
 ["inputs", "histories"], "all estimates, scheduled counts, fractions and finishing orders",
 "Tests iterate one particular estimate with the default fraction and allow a tolerance of one sample.",
 ["mlmc/sampler.py"],
 [("increment rule", "mlmc/sampler.py:Sampler.process_adding_samples"),
  ("waiting", "mlmc/sampler.py:Sampler.set_scheduled_and_wait, ask_sampling_pool_for_samples"),
  ("target update", "mlmc/sampler.py:Sampler.set_level_target_n_samples")],
 None, ["Sampler.process_adding_samples"])

prop("P15", "Level parameters and initial sample counts are geometric sequences",
 "For any number of levels, the level steps form a strictly decreasing geometric sequence from the coarsest to the finest given step (the finest alone for one level), and the initial sample counts form the rounded geometric sequence from the first to the last given count; a vector with one count per level is taken as it is. "
 "Level l's simulation is created with level l's parameters as fine and level l-1's parameters as coarse, level zero with coarse step zero.",
 ["inputs", "configurations"], "all numbers of levels, step ranges and count ranges",
 "Tests use one or two level counts and do not compare the generated sequences.",
 ["mlmc/estimator.py", "mlmc/sampler.py"],
 [("steps", "mlmc/estimator.py:determine_level_parameters, calc_level_params"),
  ("counts", "mlmc/estimator.py:determine_n_samples; mlmc/sampler.py:Sampler.sample_range, set_initial_n_samples"),
  ("level simulations", "mlmc/sampler.py:Sampler._create_level_sim_objects")],
 None, ["determine_level_parameters", "determine_n_samples", "Sampler.set_initial_n_samples", "Simulation.level_instance"])

prop("P16", "Random fields put one realization's values on the right points",
 "In every sample, a field's value at a mesh point of its regions is that field's realization at exactly that point, points outside its regions are zero, a constant field is constant, a dependent field is its function applied to the same realization of its parameter fields, and only the requested outer fields are returned. "
 "The realization is mean plus standard deviation times the standardized field (its exponential in logarithmic mode), evaluated at the points set last. "
 "Fine and coarse inputs of one sample are the leading and the remaining part of one common realization.",
 ["inputs", "configurations", "histories"], "all region maps, point orders, field sets with dependencies, settings and sequences of setting points and sampling",
 "Tests check statistical moments of single fields on one set of points; region placement, dependencies and re-setting points are not covered.",
 ["mlmc/random/correlated_field.py", "mlmc/tool/flow_mc.py"],
 [("placement", "mlmc/random/correlated_field.py:Fields.set_points, Fields.sample"),
  ("dependency", "mlmc/random/correlated_field.py:Field.sample, Fields.__init__"),
  ("scaling", "mlmc/random/correlated_field.py:RandomFieldBase.sample, set_points; GSToolsSpatialCorrelatedField.sample"),
  ("fine/coarse split", "mlmc/tool/flow_mc.py:FlowSim.generate_random_sample, make_fields")],
 None, ["Fields.sample", "FlowSim.generate_random_sample"])

prop("P17", "Sample workspaces are kept and removed as promised",
 "When a simulation needs a workspace, it runs in a directory of its own named by the sample identifier, holding copies of the common files; afterwards a failed sample's directory is kept among the failed ones, the directories of successful samples among the first five of a level among the successful ones, and the working directory of the sample is removed. "
 "In debug mode successful samples' directories are left in place and starting a pool deletes nothing. "
 "No other file or directory is touched, and simulations without workspace cause no file operations.",
 ["inputs", "histories", "configurations"], "all identifiers, workspace/debug settings, common file lists, successful and failed outcomes",
 "The runs in the tests use simulations without workspace or check only that results arrive.",
 ["mlmc/sampling_pool.py", "mlmc/tool/pbs_job.py"],
 [("create", "mlmc/sampling_pool.py:SamplingPool.handle_sim_files, change_to_sample_directory, copy_sim_files"),
  ("keep/remove", "mlmc/sampling_pool.py:SamplingPool.move_successful_rm, move_failed_rm, move_dir, remove_sample_dir"),
  ("output directory", "mlmc/sampling_pool.py:SamplingPool._create_dir")],
 None, ["file system below the working directory"])

prop("P18", "Every sample given to the batch pool goes to exactly one submitted job",
 "Over any history of scheduling, polling, failed and successful submissions, every scheduled sample is listed, with its level and seed, in exactly one successfully submitted job; samples of a failed submission stay queued for the next one, and after more than the allowed number of consecutive failures an error is raised. "
 "A job is submitted as soon as the collected weight exceeds one or the number of samples exceeds one thousand, and on every poll if any sample is waiting. "
 "Different submitted jobs have different job identifiers, also across restarts that keep the output directory, and the stored sample-to-job map names the job that contains the sample.",
 ["histories", "fault_sequences", "inputs"], "all sequences of schedule/poll, task sizes, submission outcomes and restarts",
 "The tests for the batch pool need a PBS server and are excluded from every run.",
 ["mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py"],
 [("collecting and submitting", "mlmc/sampling_pool_pbs.py:SamplingPoolPBS.schedule_sample, execute"),
  ("job files", "mlmc/tool/pbs_job.py:PbsJob.save_scheduled, save_sample_id_job_id, write_pbs_id"),
  ("job numbering", "mlmc/sampling_pool_pbs.py:SamplingPoolPBS._get_job_count")],
 None, ["qsub calls", "job files"])

prop("P19", "Polling the batch pool accounts for every sample of every job",
 "When a job has finished, each of its samples is returned by the next poll exactly once: with its stored result if it succeeded, with its error if it failed, and as failed when the job left no record of it; jobs not reported as finished contribute exactly their sample counts to the number of running samples. "
 "A job runs each of its samples once with the level's simulation and records each as successful or failed. "
 "A failing status query never loses a job. After a restart that keeps the output directory, unfinished samples of jobs that have ended are returned by the first poll in the same way.",
 ["histories", "fault_sequences", "inputs", "crash_points"], "all job contents, orders and subsets of finished jobs, points at which a job died, failing status queries",
 "The tests for the batch pool need a PBS server and are excluded from every run.",
 ["mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py"],
 [("job status", "mlmc/sampling_pool_pbs.py:SamplingPoolPBS._qstat_pbs_job"),
  ("collecting", "mlmc/sampling_pool_pbs.py:SamplingPoolPBS._get_result_files; mlmc/tool/pbs_job.py:PbsJob.read_results"),
  ("running a job", "mlmc/tool/pbs_job.py:PbsJob.calculate_samples")],
 None, ["SamplingPoolPBS.get_finished"])

prop("P20", "Cost per sample is total run time over number of measured samples",
 "For any history of sampling and polling, the cost the storage reports for a level is the total measured run time of that level's samples divided by the number of measured samples, each sample counted once however often the pool is polled; a level without measured samples reports zero. "
 "In the HDF5 storage the totals continue across reopening.",
 ["histories", "inputs"], "all numbers of polls, batch sizes, levels and run times",
 "Tests only require the costs to be positive.",
 ["mlmc/sampling_pool.py", "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"],
 [("measuring", "mlmc/sampling_pool.py:OneProcessPool._save_running_time, get_finished"),
  ("accumulating", "mlmc/sample_storage.py:Memory.save_n_ops, get_n_ops; mlmc/sample_storage_hdf.py:SampleStorageHDF.save_n_ops, get_n_ops")],
 None, ["SampleStorage.get_n_ops"])

prop("P21", "Simulation inputs are prepared faithfully from mesh and template",
 "For any mesh, exactly the elements outside boundary regions are taken, in mesh order, each with its own identifier, region number and the average of its nodes as its point, a flat direction being left out of the points. "
 "In a template (without nested placeholders) every occurrence of a known placeholder is replaced by its value, everything else is left as it is, and exactly the placeholders that occurred are reported as used. "
 "The extracted result is the negated sum of the outflow fluxes at the initial time, and an inflow or a missing outflow raises an error.",
 ["inputs"], "all meshes, region names, templates, parameter sets and balance records",
 "The only tests using this code need external programs and are not part of the stable set.",
 ["mlmc/tool/flow_mc.py", "mlmc/tool/gmsh_io.py"],
 [("mesh", "mlmc/tool/flow_mc.py:FlowSim.extract_mesh"),
  ("template", "mlmc/tool/flow_mc.py:substitute_placeholders"),
  ("result", "mlmc/tool/flow_mc.py:FlowSim._extract_result")],
 None, ["FlowSim.extract_mesh", "substitute_placeholders", "FlowSim._extract_result"])

prop("P22", "Reconstructed densities converge to the sampled distribution",
 "The density reconstructed from estimated moments by maximum entropy is normalized, reproduces the given moments up to the requested tolerance, and approaches the density of the sampled quantity as the number of moments and samples grows.",
 ["inputs"], "all distributions, moment counts and tolerances",
 "Tests compare a handful of distributions with loose tolerances.",
 ["mlmc/tool/simple_distribution.py", "mlmc/estimator.py"],
 [("optimization", "mlmc/tool/simple_distribution.py:SimpleDistribution.estimate_density_minimize")],
 None, ["SimpleDistribution.density"])

prop("P23", "Random fields have the prescribed covariance",
 "The realizations of a random field have the prescribed mean and the prescribed stationary covariance between every pair of points up to the accuracy of the chosen approximation.",
 ["inputs", "configurations"], "all point sets, correlation lengths and exponents",
 "Tests compare sample statistics on a few grids with loose tolerances.",
 ["mlmc/random/correlated_field.py"],
 [("decomposition of the covariance matrix", "mlmc/random/correlated_field.py:SpatialCorrelatedField.svd_dcmp")],
 None, ["RandomFieldBase.sample"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
