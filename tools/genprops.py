#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))
THIN = "cfg spinchain_sim: src/sim.rs thins the literal 2e7-update equilibration so that a whole batch can be simulated"
NOTEST = "No existing test runs any command-line mode: the 28 tests only construct spins and chains inside the library. "

prop("C01", "Every trajectory log is complete and belongs to exactly one run",
 "When a batch of trajectories (default, Langevin, response or energy-profile mode) reports success, every run i of the batch has its own log file numbered offset+i, and that file holds exactly that run's rows: the initial row, then one row (one block of rows in energy-profile mode) for every time step up to and including the first that reaches the final time, or in stroboscopic mode one at every whole drive period in that range. Rows are in time order, none is lost, duplicated, torn or mixed with another run's. This holds for every number of runs and threads, every time step, period, start and final time, and every interleaving of the threads.",
 ["schedules", "inputs", "configurations"], "all thread interleavings, thread counts, run counts, time grids and drive periods",
 NOTEST + "Which thread runs which trajectory, and what the main thread may already have done, depends on the schedule.",
 ["src/obs.rs", "src/spinchain.rs", "src/spinchain_langevin.rs"],
 [("run_sim / run_langevin / run_sim_response / run_ext worker loops, thread pool and progress-bar join", "src/obs.rs"), ("per-run log file created at construction, one row per log call", "src/spinchain.rs SpinChain::new, log, log_ext; src/spinchain_langevin.rs")],
 ["log<N>.dat"], [("offset", "number of the first log of the batch", "config.toml")], THIN)

prop("C02", "Sample files gain exactly the requested rows, and keep what they held",
 "When a sampling mode (Monte-Carlo, second-order Magnus Monte-Carlo, Magnus histogram, dynamic histogram, or time evolution at given drive periods) reports success, its data file has gained exactly one whole row per requested sample, with the documented number of finite columns, and everything the file held before is still there, unchanged and first. No row is lost, duplicated, torn or mixed with another, for every number of samples and threads and every interleaving of the workers, the writer and process exit.",
 ["schedules", "inputs", "histories"], "all interleavings of workers, background writer and process exit; all sample and thread counts; all sequences of invocations",
 NOTEST + "Rows travel over a channel to a background thread, so whether they are all written before the process exits depends on the schedule.",
 ["src/obs.rs", "src/writers.rs"],
 [("workers send rows, one background thread appends them", "src/writers.rs write_in_bg; src/obs.rs run_mc, run_mc_magnus, gen_hist_dynamics, run_tau"), ("sample count divided among the threads", "src/obs.rs")],
 ["mc_live.dat", "dyn-hist-t-*.dat", "hist_mc_magnus.dat", "evt*.dat"], hook=THIN)

prop("C03", "Profile files hold the exact per-site average over all samples",
 "When a profile mode (Monte-Carlo or dynamic) reports success, each profile file has exactly one row per site, in site order, and each value is the mean over exactly the requested number of samples (points, or runs) of that site's local energy and spin components. No sample is lost, counted twice or credited to another site or to another of the profile files, for every number of samples and threads and every arrival order at the accumulating thread.",
 ["schedules", "inputs"], "all interleavings of the workers and the accumulator; all sample, site and thread counts",
 NOTEST + "Contributions of all workers are interleaved on one channel per file; only the schedule decides their order and grouping.",
 ["src/writers.rs", "src/obs.rs"],
 [("accumulating thread counts size*points messages and divides", "src/writers.rs profile_in_bg"), ("workers send one message per site and sample", "src/obs.rs run_mc_profile, run_dyn_profile")],
 ["mc_profile.dat", "dyn_profile-*-tau.dat"], hook=THIN)

prop("C04", "Completed batches are numbered consecutively and never overwritten",
 "Over any sequence of invocations in one directory, each successful batch of n runs advances the stored offset by exactly n and writes only the n log files that start at the offset it found, so that the log files of every earlier successful batch keep their content byte for byte. This still holds when any of the invocations in between is killed at an arbitrary point or fails.",
 ["histories", "crash_points", "fault_sequences"], "all sequences of batch modes, run counts and kill points",
 NOTEST + "The guarantee spans several processes and the moments at which they may die.",
 ["src/obs.rs", "src/main.rs", "src/spinchain.rs"],
 [("offset advanced and stored after the batch", "src/obs.rs end of run_sim, run_langevin, run_sim_response, run_ext, run_dyn_profile"), ("log number = offset + run index", "src/obs.rs")],
 ["config.toml", "log<N>.dat"], [("offset", "first free log number", "config.toml")], THIN)

prop("C05", "A crash or I/O error never loses or resets the configuration",
 "Whatever operation a process dies in or sees fail (kill, power loss, full disk, read, write or rename error), the configuration file afterwards holds either its complete previous content or the complete content of a finished update. It is never left empty, truncated or replaced by defaults, and a configuration that exists but cannot be read or parsed is reported and left untouched.",
 ["crash_points", "fault_sequences", "inputs"], "every file operation of every mode as kill or error point; every kind of error; arbitrary unreadable content",
 NOTEST + "The window is a few system calls wide and needs a kill or a failing disk.",
 ["src/spinchain.rs", "src/obs.rs"],
 [("configuration read, or defaults written when there is none", "src/spinchain.rs read_config"), ("offset written back after a batch", "src/obs.rs")],
 ["config.toml"], hook=THIN)

prop("C06", "Success is reported only when every output is complete",
 "If any output of an invocation could not be produced completely (a log, sample, profile, average or configuration write failed, or a worker or thread could not be started or died), the process ends with a failure status and a batch does not advance the offset. Conversely harmless disturbances such as interrupted or partial system calls, slow threads and spurious wake-ups change neither the outputs' completeness nor the success status.",
 ["fault_sequences", "schedules"], "every failing file or thread operation in every mode, under every interleaving",
 NOTEST + "Errors arise inside worker threads; whether they reach the exit status depends on fault and schedule.",
 ["src/obs.rs", "src/writers.rs", "src/main.rs"],
 [("worker panics, background writers and the main thread's joins", "src/obs.rs, src/writers.rs")],
 ["exit status", "all output files"], hook=THIN)

prop("C07", "Every invocation terminates",
 "With a valid configuration every command-line mode ends after a bounded number of steps, either successfully or with a reported error, under every fair interleaving of its threads. That includes the cases where a worker, a writer or a thread start fails part-way, and every ratio of drive period to time step. (The microcanonical histogram is excepted: it waits for a random start with the requested energy.)",
 ["schedules", "fault_sequences", "configurations"], "all interleavings, thread counts, failing workers and period/time-step ratios",
 NOTEST + "A missing wake-up or a message that never arrives only shows under particular schedules or failures.",
 ["src/obs.rs", "src/writers.rs"],
 [("joins on progress bars, pools and background threads; channel disconnection", "src/obs.rs, src/writers.rs"), ("accumulator waits for an exact message count", "src/writers.rs profile_in_bg")],
 ["process exit"], hook=THIN)

prop("C08", "Averages equal the row-by-row mean over the complete log rows",
 "The averaging mode writes, for each row position after the first line, the mean over all matching log files that have a complete row there; the two-point mode writes the mean of each row multiplied column-wise by the same file's row at time zero. The result does not depend on directory order or on how reads are split up, an incomplete last row left by a killed run contributes nothing, and the log files themselves are not changed.",
 ["histories", "crash_points", "inputs", "fault_sequences"], "all sets of log files, including ones torn by a kill at any byte; all directory orders and read splittings",
 NOTEST + "Torn files arise only from crashes of earlier invocations.",
 ["src/obs.rs"],
 [("row-wise accumulation over globbed files", "src/obs.rs average, two_point_average")],
 ["avg.dat", "two-point.dat"], hook=None)

prop("C09", "Running a mode changes no setting but the offset",
 "After any invocation every setting in the configuration file has the value the user gave it, except that a successful batch advances the offset and the stored inverse temperature may be refreshed from the energy density. Command-line overrides, and settings that a mode adjusts for its own use, apply to that invocation only and are never stored.",
 ["histories", "inputs", "configurations"], "all sequences of modes and overrides over all configurations",
 NOTEST + "It is a property of sequences of invocations, each rewriting the file the next one reads.",
 ["src/obs.rs", "src/main.rs", "src/config.rs"],
 [("configuration serialised back after a batch", "src/obs.rs"), ("overrides applied to the in-memory configuration", "src/main.rs")],
 ["config.toml"], hook=THIN)

prop("C10", "Sampling, fitting and analysis modes leave trajectory logs alone",
 "A mode that does not produce trajectory logs (Monte-Carlo sampling and Monte-Carlo profiles, histograms, single-trajectory sampling, temperature fits, averaging and two-point averaging) creates, truncates or modifies no trajectory log file, whether it succeeds, fails or is killed at any point. Data from earlier batches is therefore still complete afterwards.",
 ["histories", "crash_points", "fault_sequences"], "all sequences of modes, and every point at which they can die",
 NOTEST + "It relates the files of one invocation to the effects of a later one.",
 ["src/obs.rs", "src/spinchain.rs"],
 [("chains constructed without a log file", "src/obs.rs, src/spinchain.rs SpinChain::new")],
 ["log<N>.dat"], hook=THIN)

prop("C11", "Spins are finite unit vectors at all times",
 "From initialisation through any sequence of time steps and Monte-Carlo updates, in every mode and for every valid configuration including extreme temperatures, vanishing fields and any random draws, each spin is a finite vector of length one. Every spin, magnetisation and energy value that is logged is finite.",
 ["inputs", "configurations", "histories"], "all random streams, temperatures, couplings, fields and update histories",
 "Tests sample a handful of default configurations; failures need extreme temperature, an exactly vanishing local field or a boundary random draw.",
 ["src/spin.rs", "src/spinchain.rs", "src/spinchain_langevin.rs"],
 [("rotation normalises", "src/spin.rs rotate"), ("inverse-transform sampling of the bond angle", "src/spinchain.rs SpinChain::new, src/spinchain_langevin.rs")],
 ["log rows", "public spins"], hook=THIN)

prop("C12", "Logged trajectories obey the equations of motion",
 "Between consecutive time steps of a trajectory the spins evolve by precession in their local field, dS/dt = S x (J S_left + J S_right - B), with periodic neighbours, the run's own couplings and static fields everywhere and the configured drive (circular, elliptic, uniaxial, static or none, with its period) on the subsystem only, accurate to second order in the time step and advancing time by exactly one step. In response mode the same holds, except that the static field acts only for negative times. It holds for every chain length, subsystem size, disorder, drive and time, whichever thread executes the run.",
 ["inputs", "configurations", "histories", "schedules"], "all initial states, couplings, fields, drives, chain lengths and step histories",
 "The only dynamics test is one non-interacting default chain in a constant field.",
 ["src/spinchain.rs", "src/spin.rs", "src/obs.rs"],
 [("even/odd/even splitting with local precession", "src/spinchain.rs update, even_omega, odd_omega, h_ext"), ("rotation about the local field", "src/spin.rs rotate")],
 ["log rows", "public spins"], hook=THIN)

prop("C13", "Energy is conserved without a time-dependent drive",
 "Without a drive, or with a static one, the total energy of a chain stays constant along every trajectory, for any number of steps, any couplings and static fields and any chain length; when additionally nothing breaks rotational symmetry about an axis, the total magnetisation along that axis is constant too up to the integrator's accuracy.",
 ["inputs", "configurations", "histories"], "all initial states, couplings, static fields, chain lengths and durations",
 "No test follows the energy of an interacting chain.",
 ["src/spinchain.rs", "src/spin.rs"],
 [("each sub-step rotates spins about their own local field", "src/spinchain.rs update; src/spin.rs rotate")],
 ["log rows", "public total energy"], hook=THIN)

prop("C14", "Monte-Carlo updates sample the Boltzmann distribution",
 "Each Monte-Carlo update (plain, lab-frame Magnus, rotating-frame Magnus, and the bath-free update used before Langevin runs) changes at most one spin, to an unbiased random direction, and accepts with the Metropolis probability min(1, exp(-beta dE)), where dE is the change of that sampler's energy function for the actual neighbours, couplings, and fields. In the long run the sampled energies and magnetisations have the canonical mean values at the configured temperature, for every thread and random stream, and the runs of a batch start from states equilibrated in this way.",
 ["inputs", "configurations", "schedules", "histories"], "all states, couplings, fields, temperatures, random streams and threads",
 "One test checks that a clean chain gets cold; acceptance probabilities, fields and boundaries are never checked.",
 ["src/spinchain.rs", "src/spinchain_langevin.rs"],
 [("local energy difference and acceptance test", "src/spinchain.rs metropolis_update, metropolis_update_maglab, metropolis_update_rot_magnus; src/spinchain_langevin.rs metropolis_update")],
 ["mc_live.dat", "public spins"], hook=THIN)

prop("C15", "Initial states have the requested temperature",
 "A freshly initialised chain is a sequence of unit spins in which the angle between neighbours follows the canonical distribution at the configured inverse temperature, so that its mean energy density is the configured one for clean isotropic couplings, and the direction in which a spin tilts away from its neighbour is uniform. This holds at every temperature, for ordinary and Langevin chains, and for every chain of a batch.",
 ["inputs", "configurations"], "all random streams, temperatures and chain lengths",
 "One (unreliable) test compares the mean energy of ten default chains at a single temperature.",
 ["src/spinchain.rs", "src/spinchain_langevin.rs", "src/spin.rs"],
 [("inverse-transform sampling and rotation by the sampled angle", "src/spinchain.rs SpinChain::new; src/spin.rs rot_perp"), ("temperature solved from the energy density", "src/spinchain.rs solve_beta")],
 ["public spins"], hook=None)

prop("C16", "Langevin dynamics couple the ends, and only the ends, to a thermal bath",
 "In Langevin mode the interior spins precess as in the closed chain, while the two end spins of the open chain feel, besides precession, a damping torque of the configured strength and a random field that together respect fluctuation-dissipation at the configured temperature. With zero coupling the motion is that of the isolated open chain and conserves its energy; at zero temperature the energy of an undriven chain does not increase.",
 ["inputs", "configurations", "histories"], "all initial states, couplings, temperatures, damping strengths and random streams",
 "The only Langevin dynamics test follows an interior spin with all couplings off.",
 ["src/spinchain_langevin.rs"],
 [("damping and noise added to the end sites' precession field", "src/spinchain_langevin.rs update, even_omega, odd_omega")],
 ["public spins", "log rows"], hook=None)

prop("C17", "Temperature fits reproduce the target energy",
 "Each fitting mode that reports success appends one whole row whose inverse temperature is one at which the sampled energy density equals the requested target, within statistical error, whenever the target is attainable in the search range; the observables in the row are canonical averages at that temperature. Earlier rows of the result file are kept.",
 ["inputs", "configurations", "histories"], "all attainable targets, drive periods, chain sizes and random streams",
 NOTEST + "The bisection is driven by random samples.",
 ["src/obs.rs", "src/main.rs"],
 [("bisection over sampled energies", "src/obs.rs find_beta, find_betah, find_beta2, find_beta_rot, find_beta_maglab, estim_*"), ("observables sampled at the result", "src/obs.rs get_obs*")],
 ["betat.dat", "beta.dat", "betat-rot.dat", "betat-maglab.dat"], hook=THIN)

prop("C18", "Runs are statistically independent",
 "The runs of a batch, the samples of different workers and repeated invocations use independent randomness: no two of them share or repeat an initial state, couplings, fields, noise or Monte-Carlo draws, whichever threads execute them and whatever the clock says.",
 ["schedules", "configurations", "histories"], "all assignments of runs to threads, all entropy streams, clocks and sequences of invocations",
 NOTEST + "It needs control over entropy, clock and thread placement.",
 ["src/spinchain.rs", "src/spinchain_langevin.rs", "src/obs.rs"],
 [("thread-local generator seeded from system entropy", "src/spinchain.rs, src/spinchain_langevin.rs thread_rng")],
 ["log<N>.dat", "mc_live.dat", "dyn-hist-t-*.dat"], hook=THIN)

prop("C19", "After a crash or failure the next invocation recovers",
 "Whenever an invocation was killed or failed at an arbitrary point, running the program again in the same directory, without any manual clean-up, succeeds and produces complete outputs as if the interrupted invocation had not been there: logs are complete and correctly numbered, profile and average files are complete, and sample files contain all the rows of completed invocations and of the new one.",
 ["crash_points", "histories", "fault_sequences"], "every kill point in every mode, followed by every mode",
 NOTEST + "It needs the debris of a process killed at an arbitrary operation.",
 ["src/obs.rs", "src/spinchain.rs", "src/writers.rs"],
 [("files recreated or appended to on start; configuration replaced only by whole updates", "src/obs.rs, src/spinchain.rs")],
 ["config.toml", "log<N>.dat", "mc_live.dat", "profile files"], hook=THIN)

prop("C20", "Logged observables are those of the chain at the logged time",
 "Every log row contains the time, the total and subsystem energy densities, the subsystem magnetisation, the total z magnetisation and the two probe spins of the chain at that very time, including the drive at that time; every energy-profile row contains its site's local energy and spin, and the rows of the sampling modes contain the energies, magnetisation and spins of the sampled state. Energies follow H = - sum S J S + sum B.S with the run's own couplings and fields and the normalisations documented by the columns.",
 ["inputs", "configurations", "histories"], "all states, couplings, fields, drives, times, chain and subsystem sizes",
 "No test reads a log row back; energies are only checked for a single spin in a field.",
 ["src/spinchain.rs", "src/spinchain_langevin.rs"],
 [("row formatting", "src/spinchain.rs log, log_ext; src/spinchain_langevin.rs log"), ("energies and magnetisations", "src/spinchain.rs total_energy2, system_energy, m, m_tot")],
 ["log<N>.dat"], hook=THIN)

prop("C21", "Couplings and static fields are drawn as configured",
 "Each chain's exchange couplings are independent normal draws with means (1, 1, lambda) and the configured spread, one independent triple per bond; each site's static field is the configured uniform field, plus the subsystem field on subsystem sites only, plus independent normal noise of the configured spread. With zero spread they are exactly the configured values.",
 ["inputs", "configurations"], "all random streams, spreads, fields, chain and subsystem sizes",
 "One test checks that the mean of the static field is small with zero spread.",
 ["src/spinchain.rs", "src/spinchain_langevin.rs"],
 [("normal draws at construction", "src/spinchain.rs SpinChain::new; src/spinchain_langevin.rs SpinChainLangevin::new")],
 ["public couplings and fields", "log rows"], hook=None)

prop("C22", "Stroboscopic samples are taken at the documented times",
 "The single-trajectory mode records one sample per drive period, at whole periods after the 30-period warm-up, as many as requested; evolution at given drive periods reports each period's state after exactly the requested number of periods; the dynamic profiles are recorded at exactly 500, 1000, ... 4000 periods. Times are met to within one time step whenever the drive period is not shorter than the time step.",
 ["inputs", "configurations", "schedules"], "all drive periods of at least one time step, time steps, sample counts and threads",
 NOTEST + "Accumulated rounding in the time decides on which step a sample falls.",
 ["src/obs.rs"],
 [("step counting and time comparisons", "src/obs.rs gen_single_traj, run_tau, run_dyn_profile")],
 ["hist-st-t-*.dat", "evt*.dat", "dyn_profile-*-tau.dat"], hook=THIN)

prop("C23", "The temperature solver inverts the energy-temperature relation",
 "For every attainable energy density e in (-1, 0) the solved inverse temperature satisfies 1/beta - coth(beta) = e to the solver's accuracy.",
 ["inputs"], "all energy densities",
 "Only the default energy density is exercised, indirectly.",
 ["src/spinchain.rs", "src/spinchain_langevin.rs"], [("fixed-point iteration", "src/spinchain.rs solve_beta")], ["return value"])

prop("C24", "Spin constructors and angle conversions agree",
 "Building a spin from Cartesian components or polar angles, reading its angles back and rebuilding it gives the same unit vector for every direction.",
 ["inputs"], "all directions",
 "Tests check a handful of directions.",
 ["src/spin.rs"], [("constructors, theta, phi", "src/spin.rs")], ["return value"])

prop("C25", "The energy spectrum is the power spectrum of the local energies",
 "The spectrum function returns, for every chain state, the squared magnitude of the Fourier transform of the local energy density.",
 ["inputs"], "all chain states",
 "No test calls it.",
 ["src/spinchain.rs"], [("FFT of local energies", "src/spinchain.rs energy_spectrum")], ["return value"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
