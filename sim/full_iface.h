// What the callers of the R-matrix classes see of the compilation units that use them.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1      // std::string is instantiated, and so instrumented, here
#include <bits/stdc++.h>
#include "engine.h"
#include "full_kinds.h"

struct Skip {};                          // nothing to judge
struct IKept {                           // a result or part of an object in the hands of its owner
  virtual ~IKept() {}
  virtual void read(Outcome&) const = 0;
  virtual void modify() = 0;
};
struct ISys {
  virtual ~ISys() {}
  virtual IKept* keep(int what, double) = 0;   // 0 cross sections, 1 grid, 2 T matrix, 3 copies of the spin groups
  virtual void eval(double, Outcome&) = 0;
  virtual void tmat(double, Outcome&) = 0;
  virtual void grid(Outcome&) const = 0;
  virtual void desc(double, Outcome&) const = 0;
  virtual ISys* clone() const = 0;
  virtual ISys* taken() = 0;               // moved out of this one
  virtual void assign(const ISys&) = 0;
  virtual void take(ISys&) = 0;
};
struct IOld {
  virtual ~IOld() {}
  virtual void eval(double, Outcome&) const = 0;
  virtual IOld* clone() const = 0;
};
struct IChan {
  virtual ~IChan() {}
  virtual void read(double, Outcome&) const = 0;
  virtual IChan* clone() const = 0;
};
struct IRadius { virtual ~IRadius() {} };

// each unit that no longer compiles is replaced by full_none.cpp, and the evidence says so
bool endf_available(int kind); ISys* endf_build(int def, int var); void endf_case(int c, Outcome&);
bool direct_available(int kind); ISys* direct_build(int def, int var, const IRadius*); void direct_case(int c, Outcome&);
IRadius* direct_radius(); IChan* direct_channel(int c, const IRadius*);
bool oldbw_available(); IOld* oldbw_build(int def, int var); void oldbw_case(int c, Outcome&);
bool oldrm_available(); IOld* oldrm_build(int def, int var); void oldrm_case(int c, Outcome&);
