SIMPOOL = ("process pools (in-process workers: dill round trip of tasks and results, private generators, pids and "
           "simulated durations)")
ENV = "operating-system entropy, clock, pids, processor count, process-wide generators"
BASE = ["the simulated pool has multiprocess.Pool's documented semantics (order-preserving map, first error raised, "
        "tasks and results pickled)", "searched seeds only: no claim about seeds not run"]


def m(rule, real, stub=None, assumptions=(), level="exploration", **kw):
    d = {"level": level, "rule": rule, "real": real, "stub": stub or [SIMPOOL, ENV], "assumptions": BASE + list(assumptions)}
    d.update(kw)
    return d


META = {
    "C01": m("a run counts when it drove at least one worker pool (or a purely sequential generator-driven object) "
             "through two executions under different schedules, pids, clocks, entropy and ambient generators",
             ["coniii.samplers", "coniii.models", "coniii.solvers (MCH, RegularizedMeanField)", "coniii.ising.automaton",
              "C++ samplers extension"],
             mismatch_is_violation=True, det_runs={"quick": 120, "thorough": 400}),
    "C02": m("a run counts when more than one simulated processor took part; schedules differ by worker assignment, durations "
             "(stalls) and completion order",
             ["coniii.samplers", "coniii.models", "C++ samplers extension"]),
    "C03": m("a run counts when its draws were tested against the whole enumerated state space",
             ["coniii.samplers", "coniii.models", "coniii.utils energy functions", "C++ samplers extension"],
             assumptions=["sampling error: a run alarms only below p = 1e-9; biases smaller than the sampling error of the "
                          "run's draws are not seen", "thinning is chosen from the spectral gap of the textbook Metropolis "
                          "chain"]),
    "C04": m("a run counts when conditional draws were checked position by position, and (law, burst modes) against the enumerated "
             "conditional distribution",
             ["coniii.samplers", "C++ samplers extension"],
             assumptions=["sampling error: a run alarms only below p = 1e-9"]),
    "C05": m("a run counts when a whole parallel tempering object was built, sampled and checked slot by slot",
             ["coniii.samplers.ParallelTempering", "coniii.samplers.Metropolis (Python path)"],
             assumptions=["slot distributions: a run alarms only below p = 1e-9", "law and tally runs use the simulated pool "
                          "without pickling (state runs pickle in one case out of three)"]),
    "C06": m("a run counts when at least one reported energy or history was compared with the states it belongs to",
             ["coniii.samplers (Metropolis, Potts3, WolffIsing, ParallelTempering)", "coniii.models"],
             assumptions=["energies are compared to 1e-7", "histories are refined against single-site-update paths over the "
                          "whole enumerated state space (n <= 5)"]),
    "C07": m("a run counts when at least one injected fault made a call fail",
             ["coniii.samplers", "coniii.models", "coniii.solvers (MCH, RegularizedMeanField)", "C++ samplers extension"],
             assumptions=["interrupts arrive while waiting for workers or inside the energy function, not between two arbitrary "
                          "bytecodes", "a worker killed by a signal is not modelled: multiprocess.Pool itself never returns "
                          "from map in that case"]),
    "C08": m("a run counts when at least one draw was compared with a fresh model (or its parameters read at the energy callback)",
             ["coniii.models", "coniii.samplers", "coniii.ising_eqn (shipped, and generated by coniii.enumerate)",
              "C++ samplers extension"],
             assumptions=["Python-path samplers remember their chains, so their draws are checked by the parameters seen at the "
                          "energy callback instead of by equality with a fresh model"]),
    "C09": m("a run counts when at least one sampling round after the initial one was checked against the record of states "
             "and learning steps",
             ["coniii.solvers (MCH, SparseMCH)", "coniii.models", "coniii.samplers", "coniii.utils histogram approximation",
              "C++ samplers extension"],
             stub=[SIMPOOL, ENV, "in scripted runs, the states drawn in each round (adversarial sampling noise)"],
             assumptions=["errors within 1e-9 of a tolerance are not judged"]),
    "C10": m("a run counts when at least one evaluation of the objective was compared with the reference",
             ["coniii.solvers.RegularizedMeanField", "coniii.mean_field_ising", "coniii.models", "coniii.samplers",
              "C++ samplers extension"],
             stub=[SIMPOOL, ENV, "in half of the runs, scipy's scalar minimiser (adversarial evaluation order)"],
             assumptions=["strengths whose mean-field parameters are not real numbers are not judged"]),
    "C11": m("a run counts when at least one fault struck an I/O call of a generation",
             ["coniii.enumerate", "coniii.enumerate_potts", "coniii.models", "the generated files themselves"],
             stub=["disk: calls that change files pass through a simulated disk (page cache = real scratch directory; durable "
                   "state, unsynced data and metadata order are modelled)", ENV],
             assumptions=["after loss of power, metadata operations survive in order up to some point and unsynced data up to "
                          "some byte", "n <= 5 (pairs), n <= 4 (third order, Potts)"]),
    "C12": m("every run restores at least one checkpoint and carries on; distinct by object kind, pickler and seed",
             ["coniii.samplers", "coniii.models", "coniii.ising.automaton", "C++ samplers extension with its pickle support"],
             assumptions=["Python-path samplers are checkpointed with dill (their energy functions are closures), the others also "
                          "with pickle", "checkpoints are taken between calls, also after calls that failed"]),
    "C13": m("a run counts when at least two callers ran and the running caller was switched more often than there were callers",
             ["coniii.solvers (all but MCHIncompleteData)", "coniii.samplers", "coniii.models", "coniii.utils", "coniii.mean_field_ising",
              "C++ samplers extension", "scipy's optimisers"],
             stub=[SIMPOOL, ENV, "the operating system's thread scheduler (callers are real threads, handed the processor one at a time)"],
             assumptions=["callers are preempted between lines of the package's Python code, at callbacks and at pool boundaries, not "
                          "inside C, numba or scipy code (which hold the interpreter lock or are trusted)",
                          "results are compared exactly, or to 1e-6 where memory alignment changes rounding"]),
    "C15": m("a run counts when at least two arrays had been handed out and were compared again after later calls",
             ["coniii.samplers", "coniii.models", "coniii.solvers (MCH, SparseMCH, Solver.logp)", "C++ samplers extension"],
             assumptions=["the lattice of Ising2D is the object's working state, not a result; it is not kept",
                          "likelihoods are compared to 1e-12 in probability"]),
    "C14": m("a run counts when lattice states were tested against the enumerated law, or block majorities were recomputed",
             ["coniii.ising.automaton"],
             stub=[ENV + "; the compiled update loop is reused between calls with the same code and captured values"],
             assumptions=["sampling error: a run alarms only below p = 1e-9", "lattices up to 3 x 3 are enumerated (shape and spin values "
                          "are checked up to 9 x 9)", "a neighbour reached on both sides of a two-site direction counts twice"]),
}

_PURE = ("pure function of its arguments: no concurrency, time, I/O, randomness or state shared between calls, so there is no "
         "schedule or fault for a simulator to search; deciding it means exploring inputs, which is another technique")
NOT_APPLICABLE = {
    "C20": "deterministic numerical root finding over the inputs: " + _PURE,
    "C21": _PURE, "C22": _PURE,
    "C23": "deterministic optimisation of a function of the data alone: " + _PURE,
    "C24": "deterministic optimisation of a function of the data alone: " + _PURE,
    "C25": _PURE, "C26": _PURE, "C27": _PURE, "C28": _PURE,
}
