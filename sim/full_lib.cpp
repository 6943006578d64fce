// The calls the simulated callers make of the R-matrix classes and evaluators.
#include "full_iface.h"
#include <typeinfo>
#define GLUE __attribute__((no_sanitize("thread"), noinline))

// ---------------------------------------------------------------- the shared world
constexpr int NSLOT = 4, NSH = 3, NSHCH = 6;
struct Slots { std::unique_ptr<ISys> s[NSLOT]; int64_t def[NSLOT]; std::unique_ptr<IOld> o[NSLOT]; int64_t odef[NSLOT];
  std::unique_ptr<IKept> k[NSLOT]; uint64_t left[NSLOT]; std::unique_ptr<IChan> c[NSLOT]; int64_t cdef[NSLOT]; };
struct World {
  int nth = 0;
  std::unique_ptr<IRadius> radius;           // one table for all
  std::unique_ptr<ISys> sys[NSH]; int64_t def[NSH];
  std::unique_ptr<IOld> old[NSH]; int64_t odef[NSH];
  std::unique_ptr<IChan> ch[NSHCH];
  int chn[NSHCH];
  std::unique_ptr<Slots[]> t;
};
static ISys* build(const World* w, int64_t l) {
  int def = l % VARIATION, var = l / VARIATION;
  return def < 13 ? endf_build(def, var) : direct_build(def, var, w ? w->radius.get() : nullptr);
}
static IOld* build_old(int64_t l) { int def = l % VARIATION, var = l / VARIATION; return def < 10 ? oldbw_build(def, var) : oldrm_build(def, var); }
static bool rm_case(int c) { return c == 46 || c == 49 || c == 52 || c == 55 || c == 58; }
static bool direct_built(int c) { return c < 24 || (c >= 60 && c < 80) || c >= 88; }
static void build_case(int c, Outcome& o) { direct_built(c) ? direct_case(c, o) : c < 44 || c >= 80 ? endf_case(c, o) : rm_case(c) ? oldrm_case(c, o) : oldbw_case(c, o); }

struct Changed {};
GLUE static uint64_t contents(const IKept& k) { Outcome o; o.clear(); k.read(o); return mix(o.hash, o.len); }
GLUE static void hold(Slots& S, int m, IKept* k, int what, Outcome& o) {
  std::unique_ptr<IKept> p(k); S.left[m] = contents(*k); S.k[m] = std::move(p);
  if (what == 3) throw Skip{};
  k->read(o);
}
static void run(World* w, int tid, const Op& op, Outcome& o) {
  Slots& S = w->t[tid]; int n = op.slot % NSLOT, m = op.flags % NSLOT;
  auto have = [&](int k) { if (!S.s[k] || S.def[k] != op.l) throw Skip{}; };
  switch (op.kind) {
    case K_EVAL: { std::unique_ptr<ISys> s(build(w, op.l)); s->eval(op.a, o); break; }
    case K_GRID: { std::unique_ptr<ISys> s(build(w, op.l)); s->grid(o); break; }
    case K_TMAT: { std::unique_ptr<ISys> s(build(w, op.l)); s->tmat(op.a, o); break; }
    case K_DESC: { std::unique_ptr<ISys> s(build(w, op.l)); s->desc(op.a, o); break; }
    case K_MAKE: { std::unique_ptr<ISys> s(build(w, op.l)); break; }
    case K_BUILD: build_case((int)op.l, o); break;
    case K_S_MAKE: { S.s[n].reset(); S.s[n].reset(build(w, op.l)); S.def[n] = op.l; S.s[n]->eval(op.a, o); break; }
    case K_S_EVAL: have(n); S.s[n]->eval(op.a, o); break;
    case K_S_GRID: have(n); S.s[n]->grid(o); break;
    case K_S_TMAT: have(n); S.s[n]->tmat(op.a, o); break;
    case K_S_DESC: have(n); S.s[n]->desc(op.a, o); break;
    case K_S_COPY: { have(n); if (n == m) throw Skip{}; S.s[m].reset(); S.s[m].reset(S.s[n]->clone()); S.def[m] = op.l; S.s[m]->eval(op.a, o); break; }
    case K_S_MOVE: { have(n); if (n == m) throw Skip{}; S.s[m].reset(); std::unique_ptr<ISys> from = std::move(S.s[n]); S.s[m].reset(from->taken()); from.reset(); S.def[m] = op.l; S.s[m]->eval(op.a, o); break; }
    case K_S_ASSIGN: {
      have(n); if (n == m || !S.s[m] || typeid(*S.s[m]) != typeid(*S.s[n])) throw Skip{};
      try { S.s[m]->assign(*S.s[n]); } catch (...) { S.s[m].reset(); throw; } S.def[m] = op.l; S.s[m]->eval(op.a, o); break;
    }
    case K_S_MASSIGN: {
      have(n); if (n == m || !S.s[m] || typeid(*S.s[m]) != typeid(*S.s[n])) throw Skip{};
      std::unique_ptr<ISys> from = std::move(S.s[n]);
      try { S.s[m]->take(*from); } catch (...) { S.s[m].reset(); throw; } from.reset(); S.def[m] = op.l; S.s[m]->eval(op.a, o); break;
    }
    case K_S_DROP: S.s[n].reset(); throw Skip{};
    case K_H_EVAL: { if (op.slot >= NSH || !w->sys[op.slot] || w->def[op.slot] != op.l) throw Skip{}; std::unique_ptr<ISys> s(w->sys[op.slot]->clone()); s->eval(op.a, o); break; }
    case K_H_TAKE: { if (op.slot >= NSH || !w->sys[op.slot] || w->def[op.slot] != op.l) throw Skip{}; S.s[m].reset(); S.s[m].reset(w->sys[op.slot]->clone()); S.def[m] = op.l; S.s[m]->eval(op.a, o); break; }
    case K_H_GRID: if (op.slot >= NSH || !w->sys[op.slot] || w->def[op.slot] != op.l) throw Skip{}; w->sys[op.slot]->grid(o); break;
    case K_H_DESC: if (op.slot >= NSH || !w->sys[op.slot] || w->def[op.slot] != op.l) throw Skip{}; w->sys[op.slot]->desc(op.a, o); break;
    case K_OLD: { std::unique_ptr<IOld> e(build_old(op.l)); e->eval(op.a, o); break; }
    case K_O_MAKE: { S.o[n].reset(); S.o[n].reset(build_old(op.l)); S.odef[n] = op.l; S.o[n]->eval(op.a, o); break; }
    case K_O_EVAL: if (!S.o[n] || S.odef[n] != op.l) throw Skip{}; S.o[n]->eval(op.a, o); break;
    case K_O_COPY: if (!S.o[n] || S.odef[n] != op.l || n == m) throw Skip{}; S.o[m].reset(); S.o[m].reset(S.o[n]->clone()); S.odef[m] = op.l; S.o[m]->eval(op.a, o); break;
    case K_O_DROP: S.o[n].reset(); throw Skip{};
    case K_H_OLD: if (op.slot >= NSH || !w->old[op.slot] || w->odef[op.slot] != op.l) throw Skip{}; w->old[op.slot]->eval(op.a, o); break;
    case K_CHAN: { std::unique_ptr<IChan> c(direct_channel((int)op.l, w->radius.get())); c->read(op.a, o); break; }
    case K_H_CHAN: if (op.slot >= NSHCH || !w->ch[op.slot] || w->chn[op.slot] != op.l) throw Skip{}; w->ch[op.slot]->read(op.a, o); break;
    case K_K_KEEP: { have(n); int what = op.flags >> 4; S.k[m].reset(); hold(S, m, S.s[n]->keep(what, op.a), what, o); break; }
    case K_K_SHARED: { if (op.slot >= NSH || !w->sys[op.slot] || w->def[op.slot] != op.l) throw Skip{}; int what = op.flags >> 4; S.k[m].reset(); hold(S, m, w->sys[op.slot]->keep(what, op.a), what, o); break; }
    case K_K_READ: if (!S.k[n]) throw Skip{}; if (contents(*S.k[n]) != S.left[n]) throw Changed{}; throw Skip{};
    case K_K_MODIFY: if (!S.k[n]) throw Skip{}; if (contents(*S.k[n]) != S.left[n]) throw Changed{}; try { S.k[n]->modify(); S.left[n] = contents(*S.k[n]); } catch (...) { S.k[n].reset(); throw; } throw Skip{};
    case K_K_DROP: S.k[n].reset(); throw Skip{};
    case K_K_CHAN: if (op.slot >= NSHCH || !w->ch[op.slot] || w->chn[op.slot] != op.l) throw Skip{}; S.c[m].reset(); S.c[m].reset(w->ch[op.slot]->clone()); S.cdef[m] = op.l; S.c[m]->read(op.a, o); break;
    case K_K_CREAD: if (!S.c[n] || S.cdef[n] != op.l) throw Skip{}; S.c[n]->read(op.a, o); break;
    default: throw std::logic_error("harness: unknown kind");
  }
}
GLUE static uint32_t tname(const std::exception& e) {
  uint64_t h = 7; for (const char* p = typeid(e).name(); *p; ++p) h = mix(h, *p); return (uint32_t)h | 1;
}
void subject_exec(World* w, int tid, const Op& op, Outcome& o) {
  try { run(w, tid, op, o); o.status = ST_VALUE; }
  catch (const Skip&) { o.clear(); o.status = ST_VALUE; o.ref = -2; }
  catch (const Changed&) { o.clear(); o.status = ST_VALUE; o.ref = -3; }
  catch (const std::bad_alloc&) { o.clear(); o.status = ST_NOMEM; }
  // some factories report whatever went wrong inside them as one kind of exception
  catch (const std::exception& e) { uint32_t n = tname(e); o.clear(); o.status = sim_alloc_fault_fired() ? ST_NOMEM : ST_REJECT; o.exc = o.status == ST_NOMEM ? 0 : n; }
  catch (...) { o.clear(); o.status = ST_OTHER; }
}
// variant: 0 nothing shared; else 1 + three system definitions (5 bits each), three evaluators (4 bits each), first channel (4 bits)
World* subject_world(int v, int nthreads) {
  World* w = new World; w->nth = nthreads; w->t.reset(new Slots[nthreads + 1]);
  if (v) {
    w->radius.reset(direct_radius());
    unsigned x = (unsigned)v >> 1;
    for (int i = 0; i < NSH; ++i, x >>= 5) if (unsigned(x & 31) < NDEF) { w->def[i] = x & 31; w->sys[i].reset(build(w, x & 31)); }
    for (int i = 0; i < NSH; ++i, x >>= 4) if ((x & 15) < NOLD) {
      w->odef[i] = x & 15; w->old[i].reset(build_old(x & 15));
    }
    for (int i = 0; i < NSHCH; ++i) { w->chn[i] = ((x & 15) + i * 3) % 12; if (direct_available(K_CHAN)) w->ch[i].reset(direct_channel(w->chn[i], w->radius.get())); }
  }
  return w;
}
bool subject_world_check(World* w, char* why, size_t n) {
  for (int t = 1; t <= w->nth; ++t) for (int k = 0; k < NSLOT; ++k)
    if (w->t[t].k[k] && contents(*w->t[t].k[k]) != w->t[t].left[k]) { snprintf(why, n, "a result thread %d kept is no longer what it left in it", t); return false; }
  return true;
}
void subject_world_destroy(World* w) { delete w; }
// 1000 + n: system definition n; 1100 + n: evaluator n; 1200 + n: build case n
bool subject_available(int k) {
  if (k >= 1200) { int c = k - 1200; return direct_built(c) ? direct_available(0) : c < 44 || c >= 80 ? endf_available(0) : rm_case(c) ? oldrm_available() : oldbw_available(); }
  if (k >= 1100) return k - 1100 < 10 ? oldbw_available() : oldrm_available();
  if (k >= 1000) return k - 1000 < 13 ? endf_available(0) : direct_available(0);
  if (k == K_CHAN || k == K_H_CHAN) return direct_available(0);
  if (k == K_DESC || k == K_S_DESC || k == K_H_DESC) return endf_available(K_DESC) && direct_available(K_DESC);
  return true;
}
const char* subject_kind_name(int k) {
  static const char* n[] = {"cross sections", "grid", "T matrix", "parameters", "evaluator", "channel", "build", "make only"};
  static const char* m[] = {"make", "evaluate kept system", "grid of kept system", "T matrix of kept system", "parameters of kept system", "copy", "move", "assign", "move assign", "drop",
    "make evaluator", "kept evaluator", "copy evaluator", "drop evaluator"};
  static const char* h[] = {"copy shared system and evaluate", "grid of shared system", "parameters of shared system", "shared evaluator", "shared channel", "keep copy of shared system"};
  if (k >= 0 && k < K_PURE_END) return n[k];
  if (k >= K_S_MAKE && k <= K_O_DROP) return m[k - K_S_MAKE];
  static const char* q[] = {"keep result", "keep result of shared system", "look at kept result", "modify kept result", "drop kept result", "keep copy of shared channel", "kept channel"};
  if (k >= K_K_KEEP && k < K_F_END) return q[k - K_K_KEEP];
  if (k >= K_H_EVAL && k < K_K_KEEP) return h[k - K_H_EVAL];
  return "?";
}

