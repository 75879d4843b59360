From bd84c608f135e4786556dcfbfdfb1ae03b6db2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:49 +0000
Subject: [PATCH 1/7] fix: a prototype rejected while being designed is not
 kept as valid

The analogue prototypes remembered the parameters of a request before its
poles and zeros had been accepted. Repeating a rejected request was then
silently accepted with an empty prototype.
---
 iir/Butterworth.cpp | 8 ++++++--
 iir/ChebyshevI.cpp  | 8 ++++++--
 iir/ChebyshevII.cpp | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 1a96d04..be9d00d 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -50,7 +50,7 @@ void AnalogLowPass::design (int numPoles)
 {
   if (m_numPoles != numPoles)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // not valid before all poles and zeros have been accepted
 
     reset ();
 
@@ -64,6 +64,8 @@ void AnalogLowPass::design (int numPoles)
 
     if (numPoles & 1)
       add (-1, infinity());
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -80,7 +82,7 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // not valid before all poles and zeros have been accepted
     m_gainDb = gainDb;
 
     reset ();
@@ -99,6 +101,8 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
     
     if (numPoles & 1)
       add (gp, gz);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 23730f4..fbda43c 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -51,7 +51,7 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // not valid before all poles and zeros have been accepted
     m_rippleDb = rippleDb;
 
     reset ();
@@ -81,6 +81,8 @@ void AnalogLowPass::design (int numPoles,
     {
       setNormal (0, pow (10, -rippleDb/20.));
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -106,7 +108,7 @@ void AnalogLowShelf::design (int numPoles,
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // not valid before all poles and zeros have been accepted
     m_rippleDb = rippleDb;
     m_gainDb = gainDb;
 
@@ -151,6 +153,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index f9647ab..2804729 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -55,7 +55,7 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // not valid before all poles and zeros have been accepted
     m_stopBandDb = stopBandDb;
 
     reset ();
@@ -81,6 +81,8 @@ void AnalogLowPass::design (int numPoles,
     {
       add (1 / sinh_v0, infinity());
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -107,7 +109,7 @@ void AnalogLowShelf::design (int numPoles,
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // not valid before all poles and zeros have been accepted
     m_stopBandDb = stopBandDb;
     m_gainDb = gainDb;
 
@@ -152,6 +154,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
-- 
2.43.0


From 510af5ec8f6cff0558745e4b490f86c3e7843978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 2/7] fix: reject a negative filter order

It was accepted as a pass-through or, depending on earlier requests, as a
first order filter.
---
 iir/Butterworth.cpp | 4 ++++
 iir/ChebyshevI.cpp  | 4 ++++
 iir/ChebyshevII.cpp | 4 ++++
 iir/Common.h        | 2 ++
 4 files changed, 14 insertions(+)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index be9d00d..2c5951b 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -48,6 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 
 void AnalogLowPass::design (int numPoles)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles)
   {
     m_numPoles = -1; // not valid before all poles and zeros have been accepted
@@ -79,6 +81,8 @@ AnalogLowShelf::AnalogLowShelf ()
 
 void AnalogLowShelf::design (int numPoles, double gainDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index fbda43c..93f119d 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -48,6 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double rippleDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
@@ -104,6 +106,8 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double rippleDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index 2804729..d5ed263 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -52,6 +52,8 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double stopBandDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
@@ -105,6 +107,8 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double stopBandDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
diff --git a/iir/Common.h b/iir/Common.h
index d8f8f4f..ed6b381 100644
--- a/iir/Common.h
+++ b/iir/Common.h
@@ -68,6 +68,8 @@
 
 static const char orderTooHigh[] = "Requested order is too high. Provide a higher order for the template.";
 
+static const char orderNegative[] = "Requested order is negative.";
+
 #define DEFAULT_FILTER_ORDER 4
 
 /**
-- 
2.43.0


From 3d3535e5650739ddf1d5a51e22c8a22fc4791471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 3/7] fix: copies of designed filters own their coefficients

The copy constructor copied pointers into the source's storage, so that
retuning or destroying one filter affected the other. The assignment
did not take over the design at all.
---
 iir/Cascade.cpp  |  6 ++++++
 iir/Cascade.h    |  5 +++++
 iir/Layout.h     |  7 +++++++
 iir/PoleFilter.h | 30 ++++++++++++++++++++++++++++--
 4 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index de22560..15de951 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -49,6 +49,12 @@ namespace Iir {
 		m_stageArray = storage.stageArray;
 	}
 
+	void Cascade::rebindCascadeStorage (const Storage& storage)
+	{
+		m_maxStages = storage.maxStages;
+		m_stageArray = storage.stageArray;
+	}
+
 	complex_t Cascade::response (double normalizedFrequency) const
 	{
 		if (normalizedFrequency > 0.5) throw_invalid_argument(maxFError);
diff --git a/iir/Cascade.h b/iir/Cascade.h
index 57578d2..5f0318e 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -95,6 +95,11 @@ namespace Iir {
 
         void setCascadeStorage (const Storage& storage);
 
+        /**
+         * Makes a copied cascade use its own copy of the biquads
+         **/
+        void rebindCascadeStorage (const Storage& storage);
+
         void applyScale (double scale);
 
         void setLayout (const LayoutBase& proto);
diff --git a/iir/Layout.h b/iir/Layout.h
index b69d2ec..9ac961d 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -83,6 +83,13 @@ namespace Iir {
 			m_pair = other.m_pair;
 		}
 
+		// Makes a copied layout use its own copy of the pairs
+		void rebindStorage (const LayoutBase& other)
+		{
+			m_maxPoles = other.m_maxPoles;
+			m_pair = other.m_pair;
+		}
+
 		void reset ()
 		{
 			m_numPoles = 0;
diff --git a/iir/PoleFilter.h b/iir/PoleFilter.h
index a5dd6e0..96e60d0 100644
--- a/iir/PoleFilter.h
+++ b/iir/PoleFilter.h
@@ -100,6 +100,13 @@ namespace Iir {
 			m_analogProto.setStorage (analogStorage);
 			m_digitalProto = digitalStorage;
 		}
+
+		void rebindPrototypeStorage (const LayoutBase& analogStorage,
+					     const LayoutBase& digitalStorage)
+		{
+			m_analogProto.rebindStorage (analogStorage);
+			m_digitalProto.rebindStorage (digitalStorage);
+		}
 		
 	protected:
 		AnalogPrototype m_analogProto = {};
@@ -127,16 +134,35 @@ namespace Iir {
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
 			}
 		
-		PoleFilter(const PoleFilter&) = default;
+		PoleFilter(const PoleFilter& other)
+			: BaseClass(other)
+			, CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>(other)
+			, m_analogStorage(other.m_analogStorage)
+			, m_digitalStorage(other.m_digitalStorage)
+			{
+				rebindStorage();
+			}
 		
-		PoleFilter& operator=(const PoleFilter&)
+		PoleFilter& operator=(const PoleFilter& other)
 			{
+				BaseClass::operator=(other);
+				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::operator=(other);
+				m_analogStorage = other.m_analogStorage;
+				m_digitalStorage = other.m_digitalStorage;
+				rebindStorage();
 				// Reset the filter state when copied for now
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
 				return *this;
 			}
 		
 	private:
+		// The base classes have copied pointers into the other filter.
+		void rebindStorage ()
+			{
+				BaseClass::rebindCascadeStorage (this->getCascadeStorage());
+				BaseClass::rebindPrototypeStorage (m_analogStorage, m_digitalStorage);
+			}
+
 		Layout <MaxAnalogPoles> m_analogStorage = {};
 		Layout <MaxDigitalPoles> m_digitalStorage = {};
 	};
-- 
2.43.0


From 854bdbbdbeafe0b9725539a2b0f3b677afa0dce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 4/7] fix: reject coefficients which turn into NaN while being
 normalised

Requests such as an RBJ filter with Q=0 or a NaN scale passed the NaN checks,
which looked at the coefficients before the division by a0 only.
---
 iir/Biquad.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index 47f7102..aad77e4 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -130,12 +130,22 @@ namespace Iir {
 		if (Iir::is_nan (b1)) throw_invalid_argument("b1 is NaN");
 		if (Iir::is_nan (b2)) throw_invalid_argument("b2 is NaN");
 
+		// 0/0 and inf/inf turn into NaN here
+		const double na1 = a1/a0;
+		const double na2 = a2/a0;
+		const double nb0 = b0/a0;
+		const double nb1 = b1/a0;
+		const double nb2 = b2/a0;
+		if (Iir::is_nan (na1) || Iir::is_nan (na2) ||
+		    Iir::is_nan (nb0) || Iir::is_nan (nb1) || Iir::is_nan (nb2))
+			throw_invalid_argument("Coefficients divided by a0 are NaN");
+
 		m_a0 = a0;
-		m_a1 = a1/a0;
-		m_a2 = a2/a0;
-		m_b0 = b0/a0;
-		m_b1 = b1/a0;
-		m_b2 = b2/a0;
+		m_a1 = na1;
+		m_a2 = na2;
+		m_b0 = nb0;
+		m_b1 = nb1;
+		m_b2 = nb2;
 	}
 
 	void Biquad::setOnePole (complex_t pole, complex_t zero)
@@ -213,9 +223,15 @@ namespace Iir {
 
 	void Biquad::applyScale (double scale)
 	{
-		m_b0 *= scale;
-		m_b1 *= scale;
-		m_b2 *= scale;
+		const double b0 = m_b0 * scale;
+		const double b1 = m_b1 * scale;
+		const double b2 = m_b2 * scale;
+		if (Iir::is_nan (b0) || Iir::is_nan (b1) || Iir::is_nan (b2))
+			throw_invalid_argument("Scaled coefficients are NaN");
+
+		m_b0 = b0;
+		m_b1 = b1;
+		m_b2 = b2;
 	}
 
 }
-- 
2.43.0


From 98f124c841c49c013c87694756f5a9a5a6249746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:28 +0000
Subject: [PATCH 5/7] fix: rejected sections leave imported and custom filters
 unchanged

A NaN in a later section, or in the scale, was rejected after the earlier
sections had been overwritten.
---
 iir/Biquad.cpp |  6 ++++--
 iir/Cascade.h  |  6 +++++-
 iir/Custom.cpp | 13 +++++++++----
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index aad77e4..e64f9c4 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -212,8 +212,10 @@ namespace Iir {
 
 	void Biquad::setPoleZeroForm (const BiquadPoleState& bps)
 	{
-		setPoleZeroPair (bps);
-		applyScale (bps.gain);
+		Biquad section;
+		section.setPoleZeroPair (bps);
+		section.applyScale (bps.gain);
+		*this = section;
 	}
 
 	void Biquad::setIdentity ()
diff --git a/iir/Cascade.h b/iir/Cascade.h
index 5f0318e..1cf90c8 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -141,8 +141,10 @@ namespace Iir {
          * \param sosCoefficients 2D array in Python style sos ordering: 0-2: FIR, 3-5: IIR coeff.
          **/
         void setup (const double (&sosCoefficients)[MaxStages][6]) {
+                // A rejected section must not leave a half configured chain behind.
+                Biquad stages[MaxStages];
                 for (int i = 0; i < MaxStages; i++) {
-                        m_stages[i].setCoefficients(
+                        stages[i].setCoefficients(
                                 sosCoefficients[i][3],
                                 sosCoefficients[i][4],
                                 sosCoefficients[i][5],
@@ -150,6 +152,8 @@ namespace Iir {
                                 sosCoefficients[i][1],
                                 sosCoefficients[i][2]);
                 }
+                for (int i = 0; i < MaxStages; i++)
+                        m_stages[i] = stages[i];
         }
 
         public:
diff --git a/iir/Custom.cpp b/iir/Custom.cpp
index e1cebdf..91b29c1 100644
--- a/iir/Custom.cpp
+++ b/iir/Custom.cpp
@@ -44,8 +44,11 @@ void OnePole::setup (double scale,
                      double pole,
                      double zero)
 {
-  setOnePole (pole, zero);
-  applyScale (scale);
+  // A rejected request must not leave a half configured filter behind.
+  Biquad section;
+  section.setOnePole (pole, zero);
+  section.applyScale (scale);
+  Biquad::operator= (section);
 }
 
 void TwoPole::setup (double scale,
@@ -57,8 +60,10 @@ void TwoPole::setup (double scale,
   complex_t pole = std::polar (poleRho, poleTheta);
   complex_t zero = std::polar (zeroRho, zeroTheta);
 
-  setTwoPole (pole, zero, std::conj(pole), std::conj(zero));
-  applyScale (scale);
+  Biquad section;
+  section.setTwoPole (pole, zero, std::conj(pole), std::conj(zero));
+  section.applyScale (scale);
+  Biquad::operator= (section);
 }
 
 }
-- 
2.43.0


From e4b3d65cb52cade3c048e9e17fbbd861b84f8b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:46 +0000
Subject: [PATCH 6/7] fix: a rejected design leaves the reported poles and
 zeros unchanged

The current digital prototype was overwritten before the request had been
accepted; getPoleZeros() then returned nothing or a mixture while the filter
kept on running with its previous coefficients.
---
 iir/Butterworth.cpp | 30 +++++++++++------------
 iir/Cascade.cpp     | 58 ++++++++++++++++++++++++++++++++++-----------
 iir/ChebyshevI.cpp  | 30 +++++++++++------------
 iir/ChebyshevII.cpp | 30 +++++++++++------------
 iir/Layout.h        | 11 +++++++++
 iir/PoleFilter.h    | 25 +++++++++++++++----
 6 files changed, 121 insertions(+), 63 deletions(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 2c5951b..c569d5a 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -118,10 +118,10 @@ void LowPassBase::setup (int order,
   m_analogProto.design (order);
 
   LowPassTransform (cutoffFrequency,
-                    m_digitalProto,
+                    m_newProto,
                     m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void HighPassBase::setup (int order,
@@ -130,10 +130,10 @@ void HighPassBase::setup (int order,
   m_analogProto.design (order);
 
   HighPassTransform (cutoffFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void BandPassBase::setup (int order,
@@ -144,10 +144,10 @@ void BandPassBase::setup (int order,
 
   BandPassTransform (centerFrequency,
                      widthFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void BandStopBase::setup (int order,
@@ -158,10 +158,10 @@ void BandStopBase::setup (int order,
 
   BandStopTransform (centerFrequency,
                      widthFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void LowShelfBase::setup (int order,
@@ -171,10 +171,10 @@ void LowShelfBase::setup (int order,
   m_analogProto.design (order, gainDb);
 
   LowPassTransform (cutoffFrequency,
-                    m_digitalProto,
+                    m_newProto,
                     m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void HighShelfBase::setup (int order,
@@ -184,10 +184,10 @@ void HighShelfBase::setup (int order,
   m_analogProto.design (order, gainDb);
 
   HighPassTransform (cutoffFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void BandShelfBase::setup (int order,
@@ -199,13 +199,13 @@ void BandShelfBase::setup (int order,
 
   BandPassTransform (centerFrequency,
                      widthFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
   // HACK!
-  m_digitalProto.setNormal ( (centerFrequency < 0.25) ? doublePi : 0, 1);
+  m_newProto.setNormal ( (centerFrequency < 0.25) ? doublePi : 0, 1);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 }
diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index 15de951..b5a7d65 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -55,6 +55,21 @@ namespace Iir {
 		m_stageArray = storage.stageArray;
 	}
 
+	// Multiplies the numerator and the denominator of a response with those of a section
+	static void multiplyResponse (const Biquad& stage,
+				      const complex_t& czn1, const complex_t& czn2,
+				      complex_t& ch, complex_t& cbot)
+	{
+		complex_t cb (1);
+		complex_t ct    (stage.getB0()/stage.getA0());
+		ct = addmul (ct, stage.getB1()/stage.getA0(), czn1);
+		ct = addmul (ct, stage.getB2()/stage.getA0(), czn2);
+		cb = addmul (cb, stage.getA1()/stage.getA0(), czn1);
+		cb = addmul (cb, stage.getA2()/stage.getA0(), czn2);
+		ch   *= ct;
+		cbot *= cb;
+	}
+
 	complex_t Cascade::response (double normalizedFrequency) const
 	{
 		if (normalizedFrequency > 0.5) throw_invalid_argument(maxFError);
@@ -67,16 +82,7 @@ namespace Iir {
 
 		const Biquad* stage = m_stageArray;
 		for (int i = m_numStages; --i >=0; ++stage)
-		{
-			complex_t cb (1);
-			complex_t ct    (stage->getB0()/stage->getA0());
-			ct = addmul (ct, stage->getB1()/stage->getA0(), czn1);
-			ct = addmul (ct, stage->getB2()/stage->getA0(), czn2);
-			cb = addmul (cb, stage->getA1()/stage->getA0(), czn1);
-			cb = addmul (cb, stage->getA2()/stage->getA0(), czn2);
-			ch   *= ct;
-			cbot *= cb;
-		}
+			multiplyResponse (*stage, czn1, czn2, ch, cbot);
 
 		return ch / cbot;
 	}
@@ -106,10 +112,35 @@ namespace Iir {
 	void Cascade::setLayout (const LayoutBase& proto)
 	{
 		const int numPoles = proto.getNumPoles();
-		m_numStages = (numPoles + 1)/ 2;
-		if (m_numStages > m_maxStages)
+		const int numStages = (numPoles + 1)/ 2;
+		if (numStages > m_maxStages)
 			throw_invalid_argument("Number of stages is larger than the max stages.");
 
+		// Anything that can be rejected is checked here before the
+		// current sections are touched.
+		const double normalizedFrequency = proto.getNormalW() / (2 * doublePi);
+		if (normalizedFrequency > 0.5) throw_invalid_argument(maxFError);
+		if (normalizedFrequency < 0.0) throw_invalid_argument(minFError);
+		const double w = 2 * doublePi * normalizedFrequency;
+		const complex_t czn1 = std::polar (1., -w);
+		const complex_t czn2 = std::polar (1., -2 * w);
+		complex_t ch (1);
+		complex_t cbot (1);
+		Biquad section;
+		for (int i = 0; i < numStages; ++i)
+		{
+			section.setPoleZeroPair (proto[i]);
+			multiplyResponse (section, czn1, czn2, ch, cbot);
+		}
+		const double scale = proto.getNormalGain() / std::abs (ch / cbot);
+		if (numStages > 0)
+		{
+			section.setPoleZeroPair (proto[0]);
+			section.applyScale (scale);
+		}
+
+		m_numStages = numStages;
+
 		Biquad* stage = m_stageArray;
 		for (int i = 0; i < m_maxStages; ++i, ++stage)
 			stage->setIdentity();
@@ -118,8 +149,7 @@ namespace Iir {
 		for (int i = 0; i < m_numStages; ++i, ++stage)
 			stage->setPoleZeroPair (proto[i]);
   
-		applyScale (proto.getNormalGain() /
-			    std::abs (response (proto.getNormalW() / (2 * doublePi))));
+		applyScale (scale);
 	}
 
 
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 93f119d..98e2f9c 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -171,10 +171,10 @@ void LowPassBase::setup (int order,
   m_analogProto.design (order, rippleDb);
 
   LowPassTransform (cutoffFrequency,
-                    m_digitalProto,
+                    m_newProto,
                     m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void HighPassBase::setup (int order,
@@ -184,10 +184,10 @@ void HighPassBase::setup (int order,
   m_analogProto.design (order, rippleDb);
 
   HighPassTransform (cutoffFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void BandPassBase::setup (int order,
@@ -199,10 +199,10 @@ void BandPassBase::setup (int order,
 
   BandPassTransform (centerFrequency,
                      widthFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void BandStopBase::setup (int order,
@@ -214,10 +214,10 @@ void BandStopBase::setup (int order,
 
   BandStopTransform (centerFrequency,
                      widthFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void LowShelfBase::setup (int order,
@@ -228,10 +228,10 @@ void LowShelfBase::setup (int order,
   m_analogProto.design (order, gainDb, rippleDb);
 
   LowPassTransform (cutoffFrequency,
-                    m_digitalProto,
+                    m_newProto,
                     m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void HighShelfBase::setup (int order,
@@ -242,10 +242,10 @@ void HighShelfBase::setup (int order,
   m_analogProto.design (order, gainDb, rippleDb);
 
   HighPassTransform (cutoffFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void BandShelfBase::setup (int order,
@@ -258,12 +258,12 @@ void BandShelfBase::setup (int order,
 
   BandPassTransform (centerFrequency,
                      widthFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  m_digitalProto.setNormal ( (centerFrequency < 0.25) ? doublePi : 0, 1);
+  m_newProto.setNormal ( (centerFrequency < 0.25) ? doublePi : 0, 1);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 }
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index d5ed263..ebdfff0 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -172,10 +172,10 @@ void LowPassBase::setup (int order,
   m_analogProto.design (order, stopBandDb);
 
   LowPassTransform (cutoffFrequency,
-                    m_digitalProto,
+                    m_newProto,
                     m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void HighPassBase::setup (int order,
@@ -185,10 +185,10 @@ void HighPassBase::setup (int order,
   m_analogProto.design (order, stopBandDb);
 
   HighPassTransform (cutoffFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void BandPassBase::setup (int order,
@@ -200,10 +200,10 @@ void BandPassBase::setup (int order,
 
   BandPassTransform (centerFrequency,
                      widthFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void BandStopBase::setup (int order,
@@ -215,10 +215,10 @@ void BandStopBase::setup (int order,
 
   BandStopTransform (centerFrequency,
                      widthFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void LowShelfBase::setup (int order,
@@ -229,10 +229,10 @@ void LowShelfBase::setup (int order,
   m_analogProto.design (order, gainDb, stopBandDb);
 
   LowPassTransform (cutoffFrequency,
-                    m_digitalProto,
+                    m_newProto,
                     m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void HighShelfBase::setup (int order,
@@ -243,10 +243,10 @@ void HighShelfBase::setup (int order,
   m_analogProto.design (order, gainDb, stopBandDb);
 
   HighPassTransform (cutoffFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 void BandShelfBase::setup (int order,
@@ -259,12 +259,12 @@ void BandShelfBase::setup (int order,
 
   BandPassTransform (centerFrequency,
                      widthFrequency,
-                     m_digitalProto,
+                     m_newProto,
                      m_analogProto);
 
-  m_digitalProto.setNormal ( (centerFrequency < 0.25) ? doublePi : 0, 1);
+  m_newProto.setNormal ( (centerFrequency < 0.25) ? doublePi : 0, 1);
 
-  Cascade::setLayout (m_digitalProto);
+  useNewProto ();
 }
 
 }
diff --git a/iir/Layout.h b/iir/Layout.h
index 9ac961d..b01ab85 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -90,6 +90,17 @@ namespace Iir {
 			m_pair = other.m_pair;
 		}
 
+		// Takes over the poles and zeros of another layout
+		// of the same size
+		void copyContents (const LayoutBase& other)
+		{
+			for (int i = 0; i < (other.m_numPoles+1)/2; ++i)
+				m_pair[i] = other.m_pair[i];
+			m_numPoles = other.m_numPoles;
+			m_normalW = other.m_normalW;
+			m_normalGain = other.m_normalGain;
+		}
+
 		void reset ()
 		{
 			m_numPoles = 0;
diff --git a/iir/PoleFilter.h b/iir/PoleFilter.h
index 96e60d0..10b1685 100644
--- a/iir/PoleFilter.h
+++ b/iir/PoleFilter.h
@@ -82,7 +82,17 @@ namespace Iir {
 		}
 	
 	protected:
+		// Configures the cascade with the newly designed poles and zeros.
+		// They become the current ones only if they are accepted so that
+		// a rejected request leaves the filter as it was.
+		void useNewProto ()
+		{
+			Cascade::setLayout (m_newProto);
+			m_digitalProto.copyContents (m_newProto);
+		}
+
 		LayoutBase m_digitalProto = {};
+		LayoutBase m_newProto = {};
 	};
 
 
@@ -95,17 +105,21 @@ namespace Iir {
 	{
 	protected:
 		void setPrototypeStorage (const LayoutBase& analogStorage,
-					  const LayoutBase& digitalStorage)
+					  const LayoutBase& digitalStorage,
+					  const LayoutBase& newStorage)
 		{
 			m_analogProto.setStorage (analogStorage);
 			m_digitalProto = digitalStorage;
+			m_newProto = newStorage;
 		}
 
 		void rebindPrototypeStorage (const LayoutBase& analogStorage,
-					     const LayoutBase& digitalStorage)
+					     const LayoutBase& digitalStorage,
+					     const LayoutBase& newStorage)
 		{
 			m_analogProto.rebindStorage (analogStorage);
 			m_digitalProto.rebindStorage (digitalStorage);
+			m_newProto.rebindStorage (newStorage);
 		}
 		
 	protected:
@@ -130,7 +144,7 @@ namespace Iir {
 				// This glues together the factored base classes
 				// with the templatized storage classes.
 				BaseClass::setCascadeStorage (this->getCascadeStorage());
-				BaseClass::setPrototypeStorage (m_analogStorage, m_digitalStorage);
+				BaseClass::setPrototypeStorage (m_analogStorage, m_digitalStorage, m_newStorage);
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
 			}
 		
@@ -139,6 +153,7 @@ namespace Iir {
 			, CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>(other)
 			, m_analogStorage(other.m_analogStorage)
 			, m_digitalStorage(other.m_digitalStorage)
+			, m_newStorage(other.m_newStorage)
 			{
 				rebindStorage();
 			}
@@ -149,6 +164,7 @@ namespace Iir {
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::operator=(other);
 				m_analogStorage = other.m_analogStorage;
 				m_digitalStorage = other.m_digitalStorage;
+				m_newStorage = other.m_newStorage;
 				rebindStorage();
 				// Reset the filter state when copied for now
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
@@ -160,11 +176,12 @@ namespace Iir {
 		void rebindStorage ()
 			{
 				BaseClass::rebindCascadeStorage (this->getCascadeStorage());
-				BaseClass::rebindPrototypeStorage (m_analogStorage, m_digitalStorage);
+				BaseClass::rebindPrototypeStorage (m_analogStorage, m_digitalStorage, m_newStorage);
 			}
 
 		Layout <MaxAnalogPoles> m_analogStorage = {};
 		Layout <MaxDigitalPoles> m_digitalStorage = {};
+		Layout <MaxDigitalPoles> m_newStorage = {};
 	};
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From a22a7ed101b5eb3d00c831e08ccd288231c2d1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:48 +0000
Subject: [PATCH 7/7] fix: pole and zero of a first order section

The zero was reported as its reciprocal and the pole ignored a0.
---
 iir/Biquad.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index e64f9c4..41d91fc 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -51,8 +51,8 @@ namespace Iir {
 		if (a2 == 0 && b2 == 0)
 		{
 			// single pole
-			poles.first = -a1;
-			zeros.first = -b0 / b1;
+			poles.first = -a1 / a0;
+			zeros.first = -b1 / b0;
 			poles.second = 0;
 			zeros.second = 0;
 		}
-- 
2.43.0

