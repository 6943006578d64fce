#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json
R = "src/resonanceReconstruction/"
RM = R + "rmatrix/"
SLICE = [R+"src/penetrationShift.hpp", R+"src/phaseShift.hpp", R+"pack.hpp",
         RM+"src/calculatePenetrability.hpp", RM+"src/calculateShiftFactor.hpp",
         RM+"src/calculatePhaseShift.hpp", RM+"src/calculateCoulombPhaseShift.hpp",
         RM+"src/coh3-coulomb.hpp", RM+"src/coh3-extwave.hpp", RM+"src/coh3-asympt.hpp",
         RM+"src/horner.hpp", RM+"src/possibleChannelSpinValues.hpp",
         RM+"src/possibleChannelTotalAngularMomentumValues.hpp",
         RM+"ChannelQuantumNumbers.hpp", RM+"ChannelQuantumNumbers/src/toString.hpp"]
FULL = [RM+"SpinGroup.hpp", RM+"SpinGroup/src/evaluate.hpp", RM+"SpinGroup/src/evaluateTMatrix.hpp",
        RM+"RLMatrixCalculator/ReichMoore.hpp", RM+"RLMatrixCalculator/ReichMoore/src/call.hpp",
        RM+"LMatrixCalculator/Constant.hpp", RM+"LMatrixCalculator/ShiftFactor.hpp",
        RM+"CompoundSystem.hpp", RM+"Reconstructor.hpp",
        RM+"legacy/resolved/SpinGroup/SingleLevelBreitWigner.hpp",
        RM+"legacy/resolved/SpinGroup/MultiLevelBreitWigner.hpp",
        RM+"legacy/unresolved/SpinGroup.hpp", RM+"legacy/CompoundSystemBase.hpp",
        RM+"Channel.hpp", RM+"ChannelRadii.hpp", RM+"ChannelRadiusTable.hpp"]
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe or [], "hook_needed": hook}})

p("C01", "Concurrent callers each get the answer they would get alone",
  "Any number of threads may call the library's functions (penetrability, shift factor, phase shift and Coulomb phase shift of every channel type, the penetration/shift functor, spin and total angular momentum lists, quantum number identifiers, packs) at the same time. Under every interleaving each call has exactly the outcome - the same value, or the same kind of exception - that it has when made alone in a fresh process. No two calls touch common memory without synchronisation.",
  ["schedules", "inputs"], "every interleaving of every set of concurrent calls with any arguments",
  "All ten tests call the functions from one thread, one after another; the order in which two in-flight calls touch memory is never varied.",
  SLICE, [("all intermediate values are automatic or freshly allocated; no function keeps writable static data", "every header of the slice; coh3-coulomb.hpp coulombWaveFunctions allocates its two work arrays per call"),
          ("tables are constexpr or const", "calculatePenetrability.hpp, coh3-asympt.hpp")],
  observe=["return value or exception of every call"])
p("C02", "An answer depends only on its arguments, never on earlier calls",
  "Whatever sequence of calls - successful, rejected or failed for lack of memory, in any number and on any threads - has gone before, a call returns exactly what it returns as the first call of a fresh process. It does not depend on what unused memory happens to contain.",
  ["histories", "inputs"], "every finite history of calls preceding every call; every content of fresh heap and stack memory",
  "Tests call each function a few times in one fixed order and compare with a tolerance; they never return to an earlier argument after a different or a failed call, and never vary the contents of memory.",
  SLICE, [("no state survives a call", "every header of the slice"),
          ("work arrays are initialised before use", "coh3-coulomb.hpp: std::complex value-initialises"),
          ("fixed size of the work arrays MAX_L", "coh3-coulomb.hpp")],
  observe=["return value or exception of every call"])
p("C03", "Out of memory: the right answer or bad_alloc, and nothing else",
  "If any allocation made on behalf of a call fails, that call either still returns its correct answer or reports std::bad_alloc (or the rejection it would have reported anyway) to its own caller. It never returns a wrong or partial answer and never crashes, hangs or terminates the process, and retrying it once memory is available succeeds.",
  ["fault_sequences", "inputs"], "every call, every allocation inside it failing, once or for good, alone or while other callers run",
  "No test makes an allocation fail.",
  [RM+"src/coh3-coulomb.hpp", RM+"src/possibleChannelSpinValues.hpp", RM+"src/possibleChannelTotalAngularMomentumValues.hpp", RM+"ChannelQuantumNumbers/src/toString.hpp", R+"pack.hpp"],
  [("allocations happen through throwing operator new inside value-returning functions without noexcept", "files above")],
  observe=["outcome of every call with an injected allocation failure, and of the retry"])
p("C04", "No call, successful or failed, keeps memory",
  "When a call has ended - by returning, by rejecting its arguments, by failing to converge, or because an allocation failed at any point inside it - all memory it obtained has been released except the result it handed to its caller and tables of fixed size set up once, and nothing is released twice. Repeating any calls any number of times, on however many threads that come and go, therefore does not increase the memory the process holds.",
  ["fault_sequences", "histories"], "every call, every exit path including every allocation failure point, repeated any number of times",
  "Tests never look at memory and never take an exceptional path out of a function that holds memory.",
  [RM+"src/coh3-coulomb.hpp", RM+"src/coh3-extwave.hpp", RM+"src/possibleChannelSpinValues.hpp", RM+"src/possibleChannelTotalAngularMomentumValues.hpp", RM+"ChannelQuantumNumbers/src/toString.hpp", R+"pack.hpp"],
  [("owning containers; work arrays of the Coulomb functions owned by a container", "coh3-coulomb.hpp coulombWaveFunctions")],
  state=[{"name": "Cou0/Cou1", "meaning": "work arrays of the Coulomb functions", "where": "coh3-coulomb.hpp"}],
  observe=["live heap blocks after every call"])
p("C05", "A rejected request is rejected every time and disturbs nobody",
  "A request the library does not support (orbital angular momentum beyond the neutron functions, l = 4, or the Coulomb functions, l = 58; a Coulomb function that cannot be converged) or an exception thrown by a caller's own number type inside a pack is reported as an exception to the caller that made it, every time it is made and whatever else is in flight. The objects that took part are unchanged, and every other call, concurrent or later, has its normal outcome.",
  ["histories", "schedules", "fault_sequences"], "every mix and order of rejected and accepted requests, over any interleaving",
  "No test makes a rejected request and then looks at anything else; the Coulomb failure path is never run.",
  [R+"src/penetrationShift.hpp", R+"src/phaseShift.hpp", R+"pack.hpp", RM+"src/calculatePenetrability.hpp", RM+"src/calculateShiftFactor.hpp", RM+"src/calculatePhaseShift.hpp", RM+"src/coh3-extwave.hpp", RM+"src/coh3-coulomb.hpp"],
  [("default: throw std::exception() in the switch over l", "penetrationShift.hpp, phaseShift.hpp, calculate*.hpp"),
   ("throw when l0 > MAX_L0", "coh3-extwave.hpp omExternalFunction"),
   ("operators are const and build new packs", "pack.hpp")],
  observe=["outcome of every request; participating objects afterwards"])
p("C06", "A stalled or abandoned caller never holds up the others",
  "If a thread stops for an arbitrarily long time, or for ever, in the middle of a call, every other thread's calls still finish, with their normal outcome, within a number of their own steps that does not depend on the stopped thread.",
  ["schedules", "fault_sequences"], "every point inside every call at which its thread may stop, every set of other callers",
  "Tests have one thread.",
  SLICE, [("no locks, no shared writable state: calls are wait-free with respect to each other", "every header of the slice")],
  observe=["completion of the calls of the threads that keep running"])
p("C07", "Calls leave the thread's and process's ambient state alone",
  "A call, however it ends, leaves the floating point rounding mode and trap masks, the C and C++ locales, the signal mask and the formatting state and error state of the standard streams as it found them, never lets other threads see them changed meanwhile where they are shared by the process, and writes nothing to standard output. Its outcome does not depend on a stale errno, on raised floating point flags or on the locale set by other code.",
  ["histories", "fault_sequences", "schedules"], "every call and exit path, in every ambient state, interleaved with calls of other threads that change ambient state",
  "Tests compare return values only.",
  SLICE, [("no function touches fenv, locale, signals or streams", "every header of the slice"),
          ("std::to_string and concatenation instead of streams", "ChannelQuantumNumbers/src/toString.hpp")],
  observe=["fegetround, MXCSR masks, setlocale(LC_ALL), std::locale(), sigprocmask, std::cout/cerr flags, precision, width, fill, state, exceptions, buffered bytes"])
p("C08", "Results and copies belong to the caller alone",
  "A returned list, string, array or pack, and a copy of a quantum number set, functor or pack, never changes because of later calls, of calls in other threads, or of what happens to the object it was obtained or copied from (destruction included). What its owner does with it - modify it, keep it, destroy it - never affects any other call or object.",
  ["histories", "schedules"], "every sequence of calls, copies, modifications and destructions spread over any threads",
  "Tests look at each result once, at once, and never copy or modify objects.",
  [R+"pack.hpp", R+"src/penetrationShift.hpp", RM+"ChannelQuantumNumbers.hpp", RM+"ChannelQuantumNumbers/src/toString.hpp", RM+"src/possibleChannelSpinValues.hpp", RM+"src/possibleChannelTotalAngularMomentumValues.hpp"],
  [("results are returned by value; classes have value semantics and no shared members", "files above")],
  observe=["contents of every retained result and copy at the end of the run"])

p("C09", "Reconstruction at an energy does not depend on what was evaluated before",
  "For a compound system or reconstructor (Reich-Moore with either boundary condition, single- and multi-level Breit-Wigner, unresolved), the cross sections, T matrix elements and energy grid obtained at an energy are exactly those a freshly built identical object gives, whatever energies were evaluated before, in any order, including evaluations that failed.",
  ["histories", "fault_sequences"], "every sequence of evaluations, including failed ones, preceding every evaluation",
  "Tests of these classes evaluate increasing energies once and compare with tolerances; the classes do not even build in this sandbox without stand-ins for the missing njoy libraries.",
  FULL, [("scratch matrices and vectors are completely rewritten by each evaluation", "RLMatrixCalculator/ReichMoore/src/call.hpp, LMatrixCalculator/*/src/call.hpp, SingleLevelBreitWigner/src/precompute.hpp")],
  state=[{"name": "rmatrix_, rlmatrix_, lmatrix_", "meaning": "scratch of a Reich-Moore spin group", "where": "RLMatrixCalculator/ReichMoore.hpp"},
         {"name": "elastic_ ... denominator_", "meaning": "scratch of a Breit-Wigner spin group", "where": "SingleLevelBreitWigner.hpp"}],
  observe=["map returned by every evaluation, vector returned by grid()"])
p("C10", "Separate compound systems can be evaluated concurrently",
  "Threads that each evaluate their own compound system or reconstructor - built separately, or copied or moved from one another, and sharing an energy dependent channel radius - get, under every interleaving, exactly the results each would get alone, and no two threads touch common memory without synchronisation.",
  ["schedules"], "every interleaving of evaluations of distinct objects, including copies of one object",
  "Tests have one thread and never evaluate a copy.",
  FULL, [("scratch space is a member of the evaluated object and copied with it", "SpinGroup.hpp, SingleLevelBreitWigner.hpp"),
         ("the shared radius table is only read", "ChannelRadiusTable.hpp")],
  observe=["map returned by every evaluation"])
p("C11", "A failed evaluation leaves no trace in a compound system or reconstructor",
  "If an evaluation or grid request fails part way - an allocation fails, or the energy lies outside the range of a tabulated channel radius or parameter - the caller gets an exception and never a partial set of cross sections from a reconstructor, the object remains usable with unchanged parameters, all memory is released, and the same request gives the normal result once the cause is gone.",
  ["fault_sequences", "histories"], "every point at which an evaluation can fail, followed by every sequence of further evaluations",
  "No test makes an evaluation fail.",
  FULL, [("results are collected in a local map and returned only when complete", "Reconstructor.hpp operator()"),
         ("owning containers for all scratch space", "SpinGroup.hpp, SingleLevelBreitWigner.hpp")],
  observe=["outcome of the failed and the following evaluations, live heap blocks"])
p("C12", "Building a compound system either succeeds completely or leaves nothing behind",
  "Constructing, copying, moving or assigning particles, channels, resonance tables, spin groups, compound systems and reconstructors - from inputs that are accepted, from inputs that are rejected (no or duplicate channels, inconsistent sizes, negative mass, wrong order of channels) and with an allocation failing anywhere - either yields a complete object or ends in an exception with all memory released, nothing released twice and no other object affected.",
  ["fault_sequences", "inputs"], "every constructor, every rejected input class, every allocation failure point",
  "Tests check that some constructors throw, not what they leave behind, and no test fails an allocation.",
  FULL + [RM+"Particle.hpp", RM+"ParticlePair.hpp", RM+"ResonanceTable.hpp"],
  [("members own their memory; verification runs after the members are complete", "ctor.hpp of each class")],
  observe=["outcome of every construction, live heap blocks"])
p("C13", "Read-only requests on one shared object are safe from any threads",
  "Threads may simultaneously make read-only requests on the same object - channel penetrability, shift factor, phase shifts, wave number, radii, grids, parameter tables of the R-matrix classes, and evaluation with the const Breit-Wigner and Reich-Moore evaluators - and under every interleaving each gets the result it would get alone, without unsynchronised access to common memory.",
  ["schedules"], "every interleaving of const requests on shared objects",
  "Tests have one thread.",
  [RM+"Channel.hpp", RM+"ChannelRadii.hpp", RM+"ChannelRadiusTable.hpp", RM+"SpinGroup/src/grid.hpp", RM+"CompoundSystem/src/grid.hpp", RM+"Reconstructor.hpp", R+"reichMoore/Base.hpp", R+"reichMoore/Lvalue.hpp", R+"breitWigner/singleLevel/Base.hpp", R+"breitWigner/multiLevel/Base.hpp"],
  [("const member functions, no mutable members", "files above")],
  observe=["result of every request"])

p("C14", "A stalled evaluation never holds up the others",
  "If a thread stops for an arbitrarily long time, or for ever, in the middle of building, copying, evaluating or reading an R-matrix object (other than in a one-time set-up such as Eigen's), every other thread that uses objects of its own or makes read-only requests on shared ones still finishes, with its normal outcome, within a number of its own steps that does not depend on the stopped thread.",
  ["schedules", "fault_sequences"], "every point inside every request at which its thread may stop, every set of other threads",
  "Tests have one thread.",
  FULL, [("no locks, no state shared between objects", "all R-matrix classes and the const evaluators")],
  observe=["completion of the requests of the threads that keep running"])
p("C15", "Building and evaluating leave the ambient state of the program alone",
  "Building, copying, evaluating and reading R-matrix objects and evaluators, however it ends - normally, rejected, or for lack of memory - leaves the floating point rounding mode and trap masks, the C and C++ locales, the signal mask and the formatting and error state of the standard streams as it found them and, apart from the messages it hands to the logger, writes nothing to standard output. No outcome depends on a stale errno, on raised floating point flags or on the locale set by other code.",
  ["histories", "fault_sequences", "schedules"], "every request and exit path, in every ambient state, interleaved with requests of other threads",
  "Tests compare return values only.",
  FULL, [("no function touches fenv, locale, signals or streams; messages go through Log", "all R-matrix classes and the const evaluators"),
         ("identifiers are built with std::to_string and concatenation", "ChannelQuantumNumbers/src/toString.hpp, ReactionChannelID")],
  observe=["fegetround, MXCSR masks, setlocale(LC_ALL), std::locale(), sigprocmask, std::cout/cerr flags, precision, width, fill, state, exceptions, bytes on stdout"])
p("C16", "Cross sections, grids and copies taken from an object belong to the caller",
  "A map of cross sections or T matrix elements, an energy grid, and a copy of a channel, spin group, compound system, reconstructor or Breit-Wigner evaluator never change because of later evaluations, of requests in other threads, or of what happens to the object they were obtained or copied from (evaluation, assignment, destruction). What their owner does with them - modify, keep, destroy - never affects that object or any other request.",
  ["histories", "schedules"], "every sequence of evaluations, copies, modifications and destructions spread over any threads",
  "Tests look at each result once, at once, and never copy an object and then change or destroy the original.",
  FULL, [("results are returned by value or written to the caller's map only during the call", "Reconstructor.hpp, CompoundSystem/src/grid.hpp, SpinGroup/src/evaluate.hpp"),
         ("classes have value semantics and no shared members", "Channel.hpp, SpinGroup.hpp, CompoundSystem.hpp, ChannelRadiusTable.hpp")],
  observe=["contents of every retained result and copy when looked at and at the end of the run"])

# ---- pure functions of their input: not targets for deterministic simulation
p("C31", "Neutron barrier quantities equal the analytic hard sphere formulae",
  "For l = 0..4 and every ratio, penetrability, shift factor and phase shift of neutron channels equal the closed hard sphere expressions, and the two implementations (functor and channel-type functions) agree.",
  ["inputs"], "every l = 0..4 and every ratio", "Tests sample 21 ratios.",
  SLICE[:2] + SLICE[3:6], [("closed formulae by Horner scheme", "calculate*.hpp, penetrationShift.hpp")])
p("C32", "Coulomb wave functions satisfy the Wronskian and the neutral limit",
  "For every accepted l, ratio and Sommerfeld parameter the Coulomb functions satisfy F'G - FG' = 1 within the stated criterion, and for a zero Sommerfeld parameter the barrier quantities equal the neutral ones.",
  ["inputs"], "every accepted argument triple", "Tests never evaluate a Coulomb wave function.",
  [RM+"src/coh3-coulomb.hpp", RM+"src/coh3-extwave.hpp", RM+"src/coh3-asympt.hpp"], [("Wronskian criterion CRIT_WRONSK", "coh3-extwave.hpp")])
p("C33", "Spin lists are the vector coupling series",
  "Possible channel spins run from |i-I| to i+I, and total angular momenta from |l-s| to l+s, in unit steps, each once, in increasing order.",
  ["inputs"], "all (half) integer spins and all l", "Tests sample spins up to 1.",
  [RM+"src/possibleChannelSpinValues.hpp", RM+"src/possibleChannelTotalAngularMomentumValues.hpp"], [("min/max and unit step loop", "files above")])
p("C34", "Quantum number identifiers are faithful",
  "Two quantum number sets have the same identifier only if they are equal, and the identifier is {l,s,Jpi} with half integers written as fractions.",
  ["inputs"], "all quantum number sets", "Tests sample two sets.",
  [RM+"ChannelQuantumNumbers/src/toString.hpp"], [("formatting", "toString.hpp")])
p("C35", "Cross sections are physical",
  "Reconstructed partial cross sections obey unitarity: with real reduced widths the collision matrix is unitary up to the eliminated channel, total equals the sum of the partials and the eliminated capture is non-negative.",
  ["inputs"], "all parameter sets and energies", "Tests sample nuclides and energies.",
  [RM+"SpinGroup/src/evaluate.hpp", R+"reichMoore/Lvalue/src/call.hpp"], [("U matrix from (1-RL)^-1 R", "SpinGroup/src/evaluate.hpp")])
p("C36", "Energy grids are sorted, unique, positive and inside the range",
  "The minimal grid holds, for each positive resonance energy, the energy and the energy plus and minus half the total width, sorted and without repetition; a reconstructor returns only those inside its range.",
  ["inputs"], "all parameter sets", "Tests sample a few tables.",
  [RM+"SpinGroup/src/grid.hpp", RM+"CompoundSystem/src/grid.hpp", RM+"Reconstructor.hpp"], [("sort and unique actions, filter", "grid.hpp")])
p("C37", "ENDF data select the right formalism, radii and channels",
  "Each ENDF resonance range (LRU, LRF, NRO, NAPS) yields the compound system of its formalism with the channel radii the ENDF rules prescribe, and unsupported combinations are rejected.",
  ["inputs", "configurations"], "all ENDF File 2 resonance ranges", "Tests sample a dozen evaluations and do not build here (no ENDFtk).",
  [RM+"src/fromENDF.hpp", RM+"src/makeChannelRadii.hpp", RM+"src/makeReichMooreChannelData.hpp", RM+"src/makeLegacyBreitWignerSpinGroups.hpp"], [("switch over LRU/LRF/NRO/NAPS", "fromENDF.hpp, makeChannelRadii.hpp")])
p("C38", "Unresolved averages use the ENDF fluctuation integrals and interpolation",
  "Average unresolved cross sections equal the ENDF formulae with the tabulated width fluctuation quadratures and lin-lin interpolated parameters.",
  ["inputs"], "all unresolved parameter sets and energies", "Tests sample a few evaluations and do not build here.",
  [RM+"legacy/unresolved/SpinGroup/src/evaluate.hpp", RM+"legacy/unresolved/src/calculateFluctuationIntegrals.hpp"], [("Gauss quadrature tables", "calculateFluctuationIntegrals.hpp")])
p("C39", "Pack arithmetic is elementwise and horner evaluates the polynomial",
  "Sum, difference and scaling of packs act element by element, and the Horner evaluation equals the polynomial with the given coefficients.",
  ["inputs"], "all element types and values", "Tests sample a few values.",
  [R+"pack.hpp", RM+"src/horner.hpp"], [("index sequence expansion", "pack.hpp")])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
