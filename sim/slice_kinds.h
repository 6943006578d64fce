#pragma once
enum SliceKind : int {
  K_P_N = 0, K_S_N, K_F_N,            // neutron channel: penetrability, shift, phase
  K_P_C, K_S_C, K_F_C,                // charged particle channel (Coulomb wave functions)
  K_P_G, K_S_G, K_F_G,                // photon channel
  K_P_X, K_S_X, K_F_X,                // fission channel
  K_W_C, K_W_N,                       // Coulomb phase shift
  K_PS, K_PSF,                        // penetrationShift(l,rho), functor of Integer<l>
  K_PHI,                              // phaseShift(l,rho)
  K_SPINS, K_J3, K_J2,                // spin lists
  K_QN,                               // quantum numbers: identifier and accessors
  K_PACK, K_PACKN,                    // packs of doubles / of the caller's own number type
  K_HORNER, K_OVER,
  K_CWF,                              // the Coulomb wave functions themselves
  K_CLO,                              // Coulomb functions of a closed channel, for all l up to the given one
  K_PURE_END,
  // the same on objects that live longer than a call (slot; >= 100: shared between threads)
  K_QN_MAKE = 40, K_QN_READ, K_QN_COPY, K_QN_ASSIGN, K_QN_DROP,
  K_PK_MAKE, K_PK_READ, K_PK_COPY, K_PK_DROP, K_PK_DERIVE,
  K_FN_CALL,                          // call the (copied) functor object
  K_KEEP, K_KEEP_READ, K_KEEP_MODIFY, K_KEEP_DROP,   // retain the result of a pure list or string call
  K_PK_SHARED, K_QN_SHARED,
  K_PK_SPLIT,                         // copy a pack, change the copy, look at the original
  K_END
};
