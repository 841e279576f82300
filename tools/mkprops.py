"""Writes /verif/properties.jsonl (kept as code so the text is reviewable)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

ALL = ["mpsci/distributions/*.py", "mpsci/fun/*.py", "mpsci/stats/*.py"]
PREC = ("mp.prec / mp.dps", "process-wide mpmath working precision, raised inside most calls",
        "mpmath context used by every module")

add("C01", "The caller's working precision survives every call, however it ends",
    "After any public call ends - by returning, by raising an error of its own, or because an interrupt, a memory "
    "failure or a solver failure strikes at any numeric operation inside it - the mpmath working precision is exactly "
    "what it was before the call. This holds for every public function, every argument including invalid and extreme "
    "ones, every starting precision, and every sequence of such calls.",
    ["crash_points", "fault_sequences", "inputs", "histories"],
    "for every public function, arguments, ambient precision and fault instant (each numeric operation the call performs)",
    "Tests call functions at a few precisions, look only at the value, and never interrupt a call; a leak on one error or early-return path passes unnoticed.",
    ALL, [("extradps decorators and with-blocks", "nearly every public function"),
          ("workprec / extraprec blocks", "distributions/_common.py, distributions/argus.py, stats/_basic.py")],
    [PREC], ["mp.prec and mp.dps before and after each call"])

add("C02", "Calls leave all other process-wide state alone",
    "A public call, whether it succeeds, fails or is interrupted, leaves every other process-wide setting as it found it: "
    "mpmath's rounding, printing and complex-trapping options and its functions, the random-number state, the decimal context, "
    "warning filters, recursion limit, environment variables and working directory. It writes nothing to standard output or "
    "standard error, issues no warnings, creates no files or threads, and does not consume randomness.",
    ["crash_points", "fault_sequences", "inputs", "histories"],
    "for every public function, arguments, outcome and fault instant",
    "Tests assert on return values only; none compares ambient state, and no test interrupts a call.",
    ALL, [("functions only use local variables and the precision context managers", "whole package")],
    [("mpmath context options", "rounding, pretty, trap_complex, patched attributes", "mpmath mp object")],
    ["snapshot of ambient state around each call"])

add("C03", "Results never depend on what was called before",
    "The outcome of a public call (its exact value, or its error) is determined by its arguments and the working precision in "
    "force. After any history of earlier calls - same or other functions, equal or nearly equal arguments, arguments of other "
    "types, the same list with changed contents, other precisions, failing calls - it is bit for bit the outcome the same call "
    "has in a fresh process.",
    ["histories", "inputs", "configurations"],
    "for every call and every finite history of public calls and precision changes before it",
    "Each test makes a few calls in one order at one or two precisions; caches keyed too coarsely or remembered state need a particular earlier call.",
    ALL, [("precision is part of the cache key", "distributions/fishers_noncentral_hypergeometric.py"),
          ("cache of exact integer coefficients", "distributions/nct.py"),
          ("no other module-level mutable state", "whole package")],
    [("memoised noncentral hypergeometric table", "cached support and probabilities", "distributions/fishers_noncentral_hypergeometric.py"),
     ("memoised polynomial coefficients", "cached integer list", "distributions/nct.py")],
    ["return values and exceptions of every call in a history versus a fresh process"])

add("C04", "After interrupted or failed calls the library works as if fresh",
    "After any number of calls were cut short at arbitrary numeric operations by interrupts, memory failures or solver failures, "
    "every later call gives bit for bit the outcome it gives in a fresh process. It also completes with at most a small constant "
    "multiple of the numeric work it needs in a fresh process.",
    ["crash_points", "fault_sequences", "histories"],
    "for every sequence of calls with faults injected at arbitrary operations, followed by fault-free calls",
    "No test interrupts a call; half-updated caches or flags only exist after a fault at a particular operation.",
    ALL, [("caches are filled only with completed results", "distributions/fishers_noncentral_hypergeometric.py, distributions/nct.py"),
          ("precision restored in finally/with", "whole package")],
    [PREC], ["outcomes of fault-free calls after faulted ones, numeric operation counts"])

add("C05", "Arguments are never modified",
    "A public call never modifies an object passed to it - data sequences, weights, counts, tables, groups of samples, "
    "nested lists, or initial-guess records. This holds when the call returns, when it fails, and when it is interrupted at any "
    "numeric operation.",
    ["inputs", "crash_points", "fault_sequences"],
    "for every public function taking containers or records, all contents, every outcome and fault instant",
    "Tests pass fresh literals and do not look at them afterwards; a temporary in-place change that an interrupt leaves behind needs a fault at that moment.",
    ALL, [("inputs are copied by conversion to mpmath numbers", "distributions/_common.py"),
          ("sorted copies instead of in-place sort", "distributions/_common.py, stats/_basic.py")],
    [], ["deep snapshot of arguments before and after each call"])

add("C06", "Returned objects belong to the caller",
    "Changing a returned list, nested list, matrix or record in place never changes what any later call returns, nor the "
    "objects the caller passed in. Conversely, a result the caller keeps never changes because of later calls or because the "
    "caller changes its own inputs (the documented reference an odds-ratio result keeps to the input table is exempt).",
    ["histories", "inputs"],
    "for every history of calls interleaved with in-place changes to earlier results and inputs",
    "No test modifies a returned object and calls again.",
    ALL, [("fresh containers built for each result", "whole package"),
          ("memoised results must be copied before being handed out", "distributions/fishers_noncentral_hypergeometric.py")],
    [("memoised noncentral hypergeometric table", "list object stored in the cache", "distributions/fishers_noncentral_hypergeometric.py")],
    ["later return values, retained results and inputs after caller-side mutation"])

add("C07", "A fault inside a call surfaces or is recovered, never turned into a wrong value",
    "If an interrupt arises at any numeric operation inside a public call, it reaches the caller as that interrupt. If a memory "
    "failure or a failure of an iterative solver, series or quadrature arises there, the call either raises or returns the "
    "correct value (by an alternative method), never an inaccurate, partial or placeholder value.",
    ["crash_points", "fault_sequences", "inputs"],
    "for every public call that succeeds without faults, and every fault kind at every operation where it can arise",
    "Fallback and error-handling paths run only when the numeric engine fails, which no test provokes.",
    ALL, [("fallback solver after a failed root search", "distributions/maxwell.py, distributions/binomial.py"),
          ("failures reported as errors", "fun/_inv_reg_inc_beta.py")],
    [], ["outcome of a call with one injected fault versus the fault-free value"])

add("C08", "Suspended, nested and interleaved calls do not disturb each other",
    "If a public call is suspended at any numeric operation while other public calls run - nested to completion, as from a "
    "signal handler or finaliser, or interleaved with it step by step as independent tasks that each have their own working "
    "precision - then every one of them gives bit for bit the outcome it gives when run alone at the precision it started with.",
    ["schedules", "inputs"],
    "for every set of calls and every schedule that switches between them at numeric operations",
    "Tests run one call at a time.",
    ALL, [("no scratch state outside local variables", "whole package"),
          ("precision saved per activation", "precision decorators and with-blocks")],
    [PREC], ["outcome of each task versus its outcome alone"])

add("C09", "Lazily produced supports are private, stable and precision-neutral",
    "Each iterator over a distribution's support yields the complete, correctly ordered sequence it yields when consumed alone, "
    "however its steps are interleaved with other iterators, other calls, precision changes, faults and in-place changes to "
    "already yielded items. Creating, stepping, abandoning or closing one never changes the caller's working precision.",
    ["schedules", "histories", "inputs"],
    "for every interleaving of iterator creation, steps, closing, other calls and precision changes",
    "Tests turn each support into a list at once, in isolation.",
    ["mpsci/distributions/multivariate_hypergeometric.py", "mpsci/distributions/poisson.py", "mpsci/distributions/logseries.py",
     "mpsci/distributions/negative_binomial.py", "mpsci/distributions/gauss_kuzmin.py", "mpsci/distributions/*.py"],
    [("a new generator or counter per call", "support functions"),
     ("a new list per yielded point", "distributions/multivariate_hypergeometric.py")],
    [], ["items yielded by each iterator, mp.prec around each step"])

add("C10", "Results do not depend on how or at what precision the package was imported",
    "Outcomes of public calls are the same bit for bit whatever working precision was in force when the package was first "
    "imported, whichever of its parts was imported first, and whether an earlier import attempt was interrupted part-way and "
    "retried. Importing leaves the working precision unchanged.",
    ["configurations", "crash_points", "schedules"],
    "for every import-time precision, import order and interruption point of an import",
    "The test run imports the package once, at the default precision, in one order.",
    ALL + ["mpsci/__init__.py"],
    [("no mpmath values computed at module level or in default arguments", "whole package"),
     ("import order inside the packages", "mpsci/__init__.py, mpsci/distributions/__init__.py, mpsci/stats/__init__.py, mpsci/fun/__init__.py")],
    [], ["outcomes of calls after different imports, mp.prec around import"])

add("C11", "A long-running process does not accumulate state",
    "However many distinct calls a process makes, the amount of data the library retains between calls stays bounded: any "
    "internal cache stops growing after a fixed number of entries. This holds also when calls fail or are interrupted.",
    ["histories", "fault_sequences"],
    "for every long history of distinct calls, including failing and interrupted ones",
    "Tests make a handful of calls per function and never look at retained memory.",
    ["mpsci/distributions/fishers_noncentral_hypergeometric.py", "mpsci/distributions/nct.py"] + ALL,
    [("bounded least-recently-used caches", "distributions/fishers_noncentral_hypergeometric.py, distributions/nct.py")],
    [], ["number of objects reachable from the library's modules over a long history"])

add("C12", "The documentation generator never passes off incomplete output as complete",
    "If any file-system operation fails while the documentation sources are being generated, the generator ends with an error, "
    "and every file it has reported as created is complete; if it ends without error from a clean start, it has written a complete page "
    "for every public function and distribution. A source directory that already exists - for instance left by an earlier run that crashed "
    "at any point - is never modified, and a missing or failing git only makes the revision unknown.",
    ["crash_points", "fault_sequences", "histories"],
    "for every disk error, full disk, short write, crash point and restart, and every behaviour of the git command",
    "The generator is not run by the test suite at all.",
    ["doc/myautogen.py"],
    [("directory creation as the guard against overwriting", "doc/myautogen.py"),
     ("report printed only after the file is closed", "doc/myautogen.py"),
     ("git failure handled", "doc/myautogen.py")],
    [], ["files on the simulated disk, printed report, exit status"])

add("C13", "A data source that fails part-way never yields a result",
    "If reading the caller's data fails part-way - an element or the length of a data sequence raises when accessed, at any "
    "access - the public call raises and returns no result computed from partial data. The working precision is restored, and the same call "
    "succeeds with the fault-free value once the source works again.",
    ["fault_sequences", "inputs", "crash_points"],
    "for every function that takes data sequences and every access at which the source fails",
    "Tests pass in-memory lists that cannot fail.",
    ["mpsci/distributions/_common.py", "mpsci/stats/*.py", "mpsci/distributions/*.py", "mpsci/fun/_logsumexp.py", "mpsci/fun/_logbeta.py"],
    [("no exception handler around reading the data", "whole package")],
    [], ["outcome of calls on a failing sequence"])

add("C14", "Results are independent of hash seed, clock, randomness and environment",
    "The same sequence of public calls gives bit for bit the same outcomes in every process: under any hash randomisation seed, "
    "any wall-clock or monotonic clock readings (including jumps), any state of the random generators and any environment "
    "variables, locale or working directory.",
    ["configurations", "histories", "inputs"],
    "for every call sequence and pair of process environments",
    "Tests run under one hash seed, one clock and one environment and compare with tolerances.",
    ALL, [("no use of sets for ordering, clocks or random numbers", "whole package")],
    [], ["event logs of the same seeded history in differently configured processes"])

add("C15", "A fault never makes a call hang or run on",
    "If an interrupt arises at any numeric operation inside a public call, the call ends after at most a handful of further "
    "numeric operations (clean-up), not after more of its work. If a memory failure or a failure of an iterative solver, series "
    "or quadrature arises there - once, or every time that engine function is used from then on - the call still ends, by "
    "returning or raising, within a bounded multiple of the numeric work it needs without the fault: retries and fallbacks are "
    "bounded, and never wait for ever.",
    ["fault_sequences", "crash_points", "inputs"],
    "for every public function, arguments, precision, fault instant and fault kind, single or persistent",
    "Tests never make a solver fail or interrupt a call, so retry loops and clean-up code are not executed at all.",
    ["mpsci/distributions/maxwell.py", "mpsci/distributions/_common.py", "mpsci/distributions/binomial.py",
     "mpsci/fun/*.py", "mpsci/stats/*.py", "mpsci/distributions/*.py"],
    [("fallback solver path", "distributions/maxwell.py"), ("bracketing loops", "distributions/_common.py, fun/_inv_reg_inc_beta.py"),
     ("solver failure handled by a grid of starting values", "distributions/binomial.py")],
    [], ["number of numeric operations from the fault to the end of the call"])

# ---- pure-function guarantees: listed because they are what the library is for; not simulation targets
NA = [
 ("C20", "CDF and survival function are complementary and monotone",
  "For every distribution and valid parameters, the CDF is non-decreasing from 0 to 1 over the support, the survival function is its complement to working precision, and the log and interval-probability variants agree with them.",
  ["mpsci/distributions/*.py"], [("direct formulas and series", "mpsci/distributions/*.py")]),
 ("C21", "Densities and mass functions are non-negative and have total mass one",
  "For every distribution and valid parameters, the density or mass function is non-negative, zero outside the support, and integrates or sums to one; the log variant is its logarithm.",
  ["mpsci/distributions/*.py"], [("direct formulas", "mpsci/distributions/*.py")]),
 ("C22", "Quantile functions invert the distribution functions",
  "For every probability in [0, 1], the inverse CDF and inverse survival function return a point of the support at which the CDF (survival function) equals that probability to working precision.",
  ["mpsci/distributions/*.py"], [("closed forms or bracketed root search", "mpsci/distributions/_common.py")]),
 ("C23", "Moments, mode, median and entropy describe the same distribution",
  "Mean, variance, skewness, kurtosis, raw moments, mode, median and entropy equal the corresponding functionals of the distribution's density or mass function whenever those exist.",
  ["mpsci/distributions/*.py"], [("closed forms", "mpsci/distributions/*.py")]),
 ("C24", "Maximum likelihood fits minimise the negative log-likelihood",
  "For every data set and choice of fixed or initial parameters, the fitted parameters are feasible, respect fixed values, and no nearby feasible parameters have a smaller negative log-likelihood.",
  ["mpsci/distributions/*.py", "mpsci/stats/_boxcox_mle.py", "mpsci/stats/_yeojohnson_mle.py"], [("closed forms or root search on score equations", "mle functions")]),
 ("C25", "Results are accurate to the working precision",
  "A result computed at working precision d agrees to about d digits with the same call evaluated at a much higher precision.",
  ALL, [("guard digits", "precision decorators")]),
 ("C26", "Invalid parameters are rejected",
  "Parameters outside a function's documented domain raise an error and never yield a number.",
  ALL, [("validation helpers", "mpsci/distributions/_common.py")]),
 ("C27", "Special functions and their inverses satisfy their defining identities",
  "Each special function equals its mathematical definition over its whole domain, including limits and infinities, and each inverse composed with its function is the identity.",
  ["mpsci/fun/*.py"], [("formulas, series, root search", "mpsci/fun/*.py")]),
 ("C28", "Fisher's exact test and odds ratios are exact",
  "The p-value of Fisher's exact test is the exact rational probability, and the conditional odds ratio and its interval solve the defining equations.",
  ["mpsci/stats/_fisher_exact.py", "mpsci/stats/_odds_ratio.py"], [("integer arithmetic and root search", "mpsci/stats")]),
 ("C29", "Means, variances, transforms and tests match their definitions",
  "Descriptive statistics, power transforms with their inverses, correlation, ANOVA and goodness-of-fit statistics equal their textbook definitions for all finite data.",
  ["mpsci/stats/*.py"], [("direct formulas", "mpsci/stats/*.py")]),
]
for id, title, st, files, mech in NA:
    add(id, title, st, ["inputs"], "for every valid input and working precision",
        "Tests sample a handful of argument values per function.", files, mech, [], ["return values"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
