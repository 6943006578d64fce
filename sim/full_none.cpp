// In the place of a unit that does not compile on this tree.
#include "full_iface.h"
#ifdef NONE_ENDF
bool endf_available(int) { return false; }  ISys* endf_build(int, int) { throw Skip{}; }  void endf_case(int, Outcome&) { throw Skip{}; }
#endif
#ifdef NONE_DIRECT
bool direct_available(int) { return false; }  ISys* direct_build(int, int, const IRadius*) { throw Skip{}; }  void direct_case(int, Outcome&) { throw Skip{}; }
IRadius* direct_radius() { return nullptr; }  IChan* direct_channel(int, const IRadius*) { throw Skip{}; }
#endif
#ifdef NONE_OLDBW
bool oldbw_available() { return false; }  IOld* oldbw_build(int, int) { throw Skip{}; }  void oldbw_case(int, Outcome&) { throw Skip{}; }
#endif
#ifdef NONE_OLDRM
bool oldrm_available() { return false; }  IOld* oldrm_build(int, int) { throw Skip{}; }  void oldrm_case(int, Outcome&) { throw Skip{}; }
#endif
