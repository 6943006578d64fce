// The R-matrix objects and evaluators: kinds of calls the simulated callers make.
#pragma once
enum FullKind : int {
  K_EVAL = 0,                         // build system l, cross sections at energy a
  K_GRID, K_TMAT, K_DESC,             // build system l, energy grid / T matrix at a / parameters
  K_OLD,                              // build const evaluator l, cross sections at a
  K_CHAN,                             // build channel l, barrier quantities at a
  K_BUILD,                            // build something from the inputs of case l, accepted or rejected
  K_MAKE,                             // build system l
  K_PURE_END,
  // systems that live longer than a call (slot, other slot in flags)
  K_S_MAKE = 20, K_S_EVAL, K_S_GRID, K_S_TMAT, K_S_DESC, K_S_COPY, K_S_MOVE, K_S_ASSIGN, K_S_MASSIGN, K_S_DROP,
  K_O_MAKE, K_O_EVAL, K_O_COPY, K_O_DROP,
  // objects all threads share: read only requests, and copies evaluated by one thread
  K_H_EVAL = 40, K_H_GRID, K_H_DESC, K_H_OLD, K_H_CHAN, K_H_TAKE,
  // results and parts in the hands of their owners (flags: where to keep, what << 4)
  K_K_KEEP = 50, K_K_SHARED, K_K_READ, K_K_MODIFY, K_K_DROP, K_K_CHAN, K_K_CREAD, K_F_END
};
constexpr int NDEF = 17, NOLD = 15, NCHAN = 14, NBUILD = 91;
constexpr int VARIATION = 100;        // system l = definition + VARIATION * variation
