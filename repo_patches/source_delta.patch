From ea832cb4c0b08853be107092a20dc8059347791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:45 +0000
Subject: [PATCH 1/6] fix: release the Coulomb work arrays when a Coulomb
 function fails

omExternalFunction throws when the iteration does not converge, and the
second allocation may fail; the raw arrays were then never deleted.
---
 src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
index 9d87581..be87bf5 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
@@ -27,12 +27,10 @@ void coulombWaveFunctions( int l, double ratio, double eta,
                   -eta*(1.+(y2-48.)/(30.*y4)+(y2*y2-160.*y2+1280.)/(105.*y4*y4))
                   /(12.*y3);
 
-  std::complex<double> *Cou0 = new std::complex<double>[MAX_L]; // G + iF
-  std::complex<double> *Cou1 = new std::complex<double>[MAX_L]; // G'+ iF'
-  omExternalFunction(l ,ratio, eta, sigma0, Cou0, Cou1);
+  std::vector< std::complex<double> > Cou0( MAX_L ); // G + iF
+  std::vector< std::complex<double> > Cou1( MAX_L ); // G'+ iF'
+  omExternalFunction(l ,ratio, eta, sigma0, Cou0.data(), Cou1.data());
 
   gf  = Cou0[l];
   dgf = Cou1[l];
-  delete [] Cou0;
-  delete [] Cou1;
 }
-- 
2.43.0


From d6c83ca23424d6190dbab44335aa2b14fd464a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:45 +0000
Subject: [PATCH 2/6] fix: reject angular momenta beyond the Coulomb function
 tables

coulombWaveFunctions read past the end of its work arrays for l >= MAX_L
(and, through the conversion from unsigned int, before their start), and
returned a zero derivative for l = MAX_L - 1.
---
 src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
index be87bf5..46651d5 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
@@ -19,6 +19,9 @@ void coulombWaveFunctions( int l, double ratio, double eta,
                            std::complex<double>& gf,
                            std::complex<double>& dgf ) {
 
+  // the functions and derivatives are calculated up to l = MAX_L - 2 only
+  if ( l < 0 || l > MAX_L - 2 ) throw std::exception();
+
   double y2 = eta*eta;
   double y3 = 16.0 + y2;
   double y4 = y3*y3;
-- 
2.43.0


From ac167f3a237f2d0527a2ed20f48da131f012dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:53 +0000
Subject: [PATCH 3/6] fix: set the penetrability of a legacy resolved resonance

The constructor never initialised penetrability_, so penetrability() returned
whatever the memory of the object contained.
---
 .../rmatrix/legacy/resolved/Resonance/src/ctor.hpp               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
index c85ad56..7723815 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
@@ -25,4 +25,5 @@ Resonance( const Energy& energy,
     competition_( competition ),
     elastic_to_penetrability_( elastic / P ),
     competition_to_penetrability_( competition / Q ),
+    penetrability_( P ),
     shiftfactor_( S ) {}
-- 
2.43.0


From bc76888aef31247268952f628d467fca1535df1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:30 +0000
Subject: [PATCH 4/6] fix: reject unsupported NRO and NAPS flags in the Apply
 functions

The switches over NAPS had no default, so that for any other value the
value-returning call operator flowed off its end: undefined behaviour (a crash
or an indeterminate result) instead of an error.
---
 .../breitWigner/multiLevel/Apply/src/call.hpp                  | 3 +++
 .../breitWigner/singleLevel/Apply/src/call.hpp                 | 3 +++
 src/resonanceReconstruction/reichMoore/Apply/src/call.hpp      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp b/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
index 71e4d20..a7d9c7a 100644
--- a/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
@@ -40,4 +40,7 @@ operator()( const endf::ResonanceRange& range,
     throw std::runtime_error(
       "The resonance range does not appear to contain MLBW parameters" );
   }
+
+  throw std::runtime_error(
+    "The NRO and NAPS flags of the resonance range are not supported" );
 }
diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
index 37a83a0..d092295 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
@@ -42,4 +42,7 @@ operator()( const endf::ResonanceRange& range,
     throw std::runtime_error(
       "The resonance range does not appear to contain SLBW parameters" );
   }
+
+  throw std::runtime_error(
+    "The NRO and NAPS flags of the resonance range are not supported" );
 }
diff --git a/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp b/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
index fbf33aa..00cf152 100644
--- a/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
@@ -52,4 +52,7 @@ operator()( const endf::ResonanceRange& range,
     throw std::runtime_error(
       "The resonance range does not appear to contain Reich-Moore parameters" );
   }
+
+  throw std::runtime_error(
+    "The NRO and NAPS flags of the resonance range are not supported" );
 }
-- 
2.43.0


From 1c3bd5b60b4a433fdb30fbef49a00fc48a5cf609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:30 +0000
Subject: [PATCH 5/6] fix: verify the channels of a spin group before using
 them

The reaction identifiers were made from the first channel before the check
that there is one: an empty list of channels was undefined behaviour (a crash)
instead of being rejected.
---
 src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp   | 3 +--
 .../rmatrix/SpinGroup/src/verifyChannels.hpp                 | 5 ++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp b/src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp
index 0c1487f..f211b27 100644
--- a/src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp
+++ b/src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp
@@ -7,13 +7,12 @@
 SpinGroup( std::vector< ParticleChannel >&& channels,
            ResonanceTable&& table ) :
   rlmatrix_( table ),
-  reactions_( makeReactionIdentifiers( channels,
+  reactions_( makeReactionIdentifiers( verifyChannels( channels ),
                                        Formalism() ) ),
   incident_( determineIncidentChannels( channels ) ),
   channels_( std::move( channels ) ),
   parameters_( std::move( table ) ) {
 
-  verifyChannels( this->channels_ );
   verifyIncidentChannels( this->incident_ );
   verifyResonanceChannels( this->channels_, this->parameters_ );
 }
diff --git a/src/resonanceReconstruction/rmatrix/SpinGroup/src/verifyChannels.hpp b/src/resonanceReconstruction/rmatrix/SpinGroup/src/verifyChannels.hpp
index 011375f..6779a4b 100644
--- a/src/resonanceReconstruction/rmatrix/SpinGroup/src/verifyChannels.hpp
+++ b/src/resonanceReconstruction/rmatrix/SpinGroup/src/verifyChannels.hpp
@@ -1,5 +1,6 @@
 static
-void verifyChannels( const std::vector< ParticleChannel >& channels ) {
+const std::vector< ParticleChannel >&
+verifyChannels( const std::vector< ParticleChannel >& channels ) {
 
   // verify that there is at least one channel
 
@@ -88,4 +89,6 @@ void verifyChannels( const std::vector< ParticleChannel >& channels ) {
 
   ranges::for_each( channels | ranges::view::drop_exactly( 1 ),
                     checkQuantumNumbers );
+
+  return channels;
 }
-- 
2.43.0


From 480f81134a5acd46696ff37a1cf63573d46e91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:42 +0000
Subject: [PATCH 6/6] fix: assigning a spin group that runs out of memory
 released its matrices twice

Eigen releases the storage of a matrix before it allocates a larger one and is
left with a dangling pointer when that fails. Make the copy first.
---
 .../rmatrix/LMatrixCalculator/Constant.hpp      | 14 ++++++++++++++
 .../rmatrix/LMatrixCalculator/ShiftFactor.hpp   | 14 ++++++++++++++
 .../rmatrix/RLMatrixCalculator/ReichMoore.hpp   | 17 +++++++++++++++++
 3 files changed, 45 insertions(+)

diff --git a/src/resonanceReconstruction/rmatrix/LMatrixCalculator/Constant.hpp b/src/resonanceReconstruction/rmatrix/LMatrixCalculator/Constant.hpp
index a612c59..ca52f10 100644
--- a/src/resonanceReconstruction/rmatrix/LMatrixCalculator/Constant.hpp
+++ b/src/resonanceReconstruction/rmatrix/LMatrixCalculator/Constant.hpp
@@ -24,6 +24,20 @@ public:
     this->lmatrix_.setZero();
   };
 
+  LMatrixCalculator( const LMatrixCalculator& ) = default;
+
+  /**
+   *  @brief Assignment
+   *
+   *  The copy is made first: an Eigen matrix that cannot be resized for lack of
+   *  memory is left with storage that has already been released.
+   */
+  LMatrixCalculator& operator=( LMatrixCalculator other ) {
+
+    this->lmatrix_.diagonal().swap( other.lmatrix_.diagonal() );
+    return *this;
+  }
+
   /**
    *  @brief Return the diagonal L matrix
    */
diff --git a/src/resonanceReconstruction/rmatrix/LMatrixCalculator/ShiftFactor.hpp b/src/resonanceReconstruction/rmatrix/LMatrixCalculator/ShiftFactor.hpp
index edb87a2..0a94227 100644
--- a/src/resonanceReconstruction/rmatrix/LMatrixCalculator/ShiftFactor.hpp
+++ b/src/resonanceReconstruction/rmatrix/LMatrixCalculator/ShiftFactor.hpp
@@ -33,6 +33,20 @@ public:
     this->lmatrix_.setZero();
   };
 
+  LMatrixCalculator( const LMatrixCalculator& ) = default;
+
+  /**
+   *  @brief Assignment
+   *
+   *  The copy is made first: an Eigen matrix that cannot be resized for lack of
+   *  memory is left with storage that has already been released.
+   */
+  LMatrixCalculator& operator=( LMatrixCalculator other ) {
+
+    this->lmatrix_.diagonal().swap( other.lmatrix_.diagonal() );
+    return *this;
+  }
+
   /**
    *  @brief Return the diagonal L matrix
    */
diff --git a/src/resonanceReconstruction/rmatrix/RLMatrixCalculator/ReichMoore.hpp b/src/resonanceReconstruction/rmatrix/RLMatrixCalculator/ReichMoore.hpp
index 9ecd757..e7d6438 100644
--- a/src/resonanceReconstruction/rmatrix/RLMatrixCalculator/ReichMoore.hpp
+++ b/src/resonanceReconstruction/rmatrix/RLMatrixCalculator/ReichMoore.hpp
@@ -23,6 +23,23 @@ public:
     rmatrix_( table.numberChannels(), table.numberChannels() ),
     rlmatrix_( table.numberChannels(), table.numberChannels() ) {};
 
+  RLMatrixCalculator( const RLMatrixCalculator& ) = default;
+  RLMatrixCalculator( RLMatrixCalculator&& ) = default;
+
+  /**
+   *  @brief Assignment
+   *
+   *  The copy is made first: an Eigen matrix that cannot be resized for lack of
+   *  memory is left with storage that has already been released.
+   */
+  RLMatrixCalculator& operator=( RLMatrixCalculator other ) {
+
+    this->lmatrix_ = std::move( other.lmatrix_ );
+    this->rmatrix_.swap( other.rmatrix_ );
+    this->rlmatrix_.swap( other.rlmatrix_ );
+    return *this;
+  }
+
   /**
    *  @brief Return the ( I - RL )^-1 R matrix
    */
-- 
2.43.0

