// What a simulated deployment does: shared between the generic driver and the subject's generator.
#pragma once
#include "engine.h"
struct Entry {                 // one call with fixed arguments, and what it gives alone in a fresh process
  Op op; int cluster = 0;
  Outcome ref; uint32_t allocs = 0, cbs = 0; uint64_t events = 0;
  bool usable = false;         // has a reproducible outcome
};
using Pool = std::vector<Entry>;
enum { EXPECT_ANY = 0, EXPECT_REJECT = 1, EXPECT_VALUE = 2 };

// ---- subject
void subject_pool(Rng&, const std::string& prop, Pool&);                     // fills op, cluster
int  subject_expect(const Op&);                                              // reference model
void subject_workload(Rng&, const std::string& prop, const Pool&, Spec&, unsigned& checks, bool thorough);
bool subject_initialises();                                                // one-time initialisations are part of the environment: no thread is stopped inside one
unsigned subject_isolated_kinds(const std::string& prop);                    // violations judged on isolated calls: bit mask of Kind
bool subject_has(const std::string& prop);
bool subject_available(int kind);                                            // does this part of the interface exist on this tree?
// what is wrong with the outcome of a call made alone (empty: nothing); alone(op) makes another one
using Alone = Outcome (*)(const Op&);
std::string subject_judge(const Op&, const Outcome&, Alone alone);
const char* subject_components();                                            // JSON

// ---- helpers for generators (driver.cpp)
void choose_policy(Rng&, Spec&, int nthreads, double est_events);
void choose_carriers(Rng&, Spec&, const Pool&, const std::vector<int>& pure, double events);
template <class T> const T& any(Rng& r, const std::vector<T>& v) { return v[r.below(v.size())]; }
