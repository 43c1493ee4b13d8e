From 40d4b3ac634a0afc809fee08f7810a0350e5a7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:23 +0000
Subject: [PATCH 01/26] fix: keep the last character available across the RIB
 input buffer wrap

When the 256 byte input buffer wrapped, the two look-back characters were
copied to the start but the read position was reset to 1, so the most recent
character was overwritten and line-ending detection compared against the
character before it.  A \r\n pair straddling the boundary was counted as two
lines, and \r?\n at the boundary lost a line.
---
 libs/riutil/ribinputbuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/riutil/ribinputbuffer.cpp b/libs/riutil/ribinputbuffer.cpp
index b6e33dd..3222376 100644
--- a/libs/riutil/ribinputbuffer.cpp
+++ b/libs/riutil/ribinputbuffer.cpp
@@ -100,7 +100,7 @@ void RibInputBuffer::bufferNextChars()
 		m_buffer[0] = m_buffer[m_bufSize-2];
 		m_buffer[1] = m_buffer[m_bufSize-1];
 		// Reset buffer position
-		m_bufPos = 1;
+		m_bufPos = 2;
 	}
 	// Now fill the buffer with as many characters as possible using a
 	// non-blocking read with readsome().
-- 
2.43.0


From 5e8517ca49ef209bec0f687b055425e70f35decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:25 +0000
Subject: [PATCH 02/26] fix: NuPatch uniform primitive variables need one value
 per segment

---
 libs/riutil/ri.xml             | 2 +-
 libs/riutil/ri2ricxx.cpp       | 2 +-
 libs/riutil/ricxx_validate.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/riutil/ri.xml b/libs/riutil/ri.xml
index ab6c4d6..d647b5c 100644
--- a/libs/riutil/ri.xml
+++ b/libs/riutil/ri.xml
@@ -2254,7 +2254,7 @@
 			</Arguments>
 			<Rib/>
 			<IClassLengths>
-				<Uniform>(1+nu-uorder+1)*(1+nv-vorder+1)</Uniform>
+				<Uniform>(1+nu-uorder)*(1+nv-vorder)</Uniform>
 				<Varying>(1+nu-uorder+1)*(1+nv-vorder+1)</Varying>
 				<Vertex>nu*nv</Vertex>
 			</IClassLengths>
diff --git a/libs/riutil/ri2ricxx.cpp b/libs/riutil/ri2ricxx.cpp
index f4770ca..c1a49a3 100644
--- a/libs/riutil/ri2ricxx.cpp
+++ b/libs/riutil/ri2ricxx.cpp
@@ -1175,7 +1175,7 @@ RtVoid RiNuPatchV(RtInt nu, RtInt uorder, RtFloat uknot_in[], RtFloat umin, RtFl
     Ri::FloatArray uknot(uknot_in, nu+uorder);
     Ri::FloatArray vknot(vknot_in, nv+vorder);
     IClassCounts iclassCounts(1,1,1,1,1);
-    iclassCounts.uniform = (1+nu-uorder+1)*(1+nv-vorder+1);
+    iclassCounts.uniform = (1+nu-uorder)*(1+nv-vorder);
     iclassCounts.varying = (1+nu-uorder+1)*(1+nv-vorder+1);
     iclassCounts.vertex = nu*nv;
     iclassCounts.facevarying = iclassCounts.varying;
diff --git a/libs/riutil/ricxx_validate.cpp b/libs/riutil/ricxx_validate.cpp
index 0922266..06afd98 100644
--- a/libs/riutil/ricxx_validate.cpp
+++ b/libs/riutil/ricxx_validate.cpp
@@ -1510,7 +1510,7 @@ RtVoid RiCxxValidate::NuPatch(RtInt nu, RtInt uorder, const FloatArray& uknot,
         );
     }
     SqInterpClassCounts iclassCounts(1,1,1,1,1);
-    iclassCounts.uniform = (1+nu-uorder+1)*(1+nv-vorder+1);
+    iclassCounts.uniform = (1+nu-uorder)*(1+nv-vorder);
     iclassCounts.varying = (1+nu-uorder+1)*(1+nv-vorder+1);
     iclassCounts.vertex = nu*nv;
     iclassCounts.facevarying = iclassCounts.varying;
-- 
2.43.0


From 8bc77b8203b8e1840f84f4a5020e4007c1ccbfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:54 +0000
Subject: [PATCH 03/26] fix: nested conditionals must not change which clause
 of the outer one is taken

The flag telling whether a true clause has been found was shared by all
nesting levels, so a nested IfBegin/IfEnd inside a true clause made a later
ElseIf/Else of the outer conditional active as well.
---
 libs/riutil/renderutil_filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index fc5e090..61ec626 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -61,6 +61,7 @@ class RenderUtilFilter : public Ri::Filter
         // Conditional testing stuff
         IfElseTestCallback m_ifElseTest;
         std::stack<bool> m_ifInactiveStack;
+        std::stack<bool> m_trueClauseStack;
         bool m_trueClauseFound;
         bool m_ifInactive;
 #       define IF_ELSE_TEST if(m_ifInactive) return;
@@ -108,6 +109,7 @@ class RenderUtilFilter : public Ri::Filter
             m_inObject(false),
             m_ifElseTest(conditionTest),
             m_ifInactiveStack(),
+            m_trueClauseStack(),
             m_trueClauseFound(false),
             m_ifInactive(false)
         { }
@@ -245,6 +247,7 @@ class RenderUtilFilter : public Ri::Filter
                     return;
                 }
                 m_ifInactiveStack.push(m_ifInactive);
+                m_trueClauseStack.push(m_trueClauseFound);
                 if(m_ifInactive)
                     return;
                 m_trueClauseFound = m_ifElseTest(condition);
@@ -316,6 +319,8 @@ class RenderUtilFilter : public Ri::Filter
                     return;
                 m_ifInactive = m_ifInactiveStack.top();
                 m_ifInactiveStack.pop();
+                m_trueClauseFound = m_trueClauseStack.top();
+                m_trueClauseStack.pop();
             }
         }
 
-- 
2.43.0


From 0aa06c7aa3437d364fa854a2e11266698fcbc513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:54 +0000
Subject: [PATCH 04/26] fix: ignore ElseIf and Else outside of a conditional
 block

Reading the top of the empty conditional stack is undefined behaviour; IfEnd
already guards against this.
---
 libs/riutil/renderutil_filter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index 61ec626..51add5f 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -266,6 +266,9 @@ class RenderUtilFilter : public Ri::Filter
                     nextFilter().ElseIf(condition);
                     return;
                 }
+                // test empty() here to avoid crash for invalid scoping
+                if(m_ifInactiveStack.empty())
+                    return;
                 // If previous level conditional was inactive, just return.
                 if(m_ifInactiveStack.top())
                     return;
@@ -295,6 +298,9 @@ class RenderUtilFilter : public Ri::Filter
                     nextFilter().Else();
                     return;
                 }
+                // test empty() here to avoid crash for invalid scoping
+                if(m_ifInactiveStack.empty())
+                    return;
                 if(m_ifInactiveStack.top())
                     return;
                 // Else clause is activated when we haven't found a true
-- 
2.43.0


From 12c9d34458ee7634557748969a10b1c3424dc8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:13 +0000
Subject: [PATCH 05/26] fix: keep a cached RI stream alive while it is being
 replayed

An inline archive (or object) containing a definition with its own name deleted
the stream which was being replayed.
---
 libs/riutil/renderutil_filter.cpp | 41 +++++++++++++++++--------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index 51add5f..be3a8c7 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -38,6 +38,8 @@
 #include <vector>
 #include <stack>
 
+#include <boost/shared_ptr.hpp>
+
 #include <aqsis/util/exception.h>
 #include "ricxx_cache.h"
 #include <aqsis/riutil/errorhandler.h>
@@ -53,8 +55,12 @@ class RenderUtilFilter : public Ri::Filter
 {
     private:
         // Caching stuff
-        std::vector<CachedRiStream*> m_archives;
-        std::vector<CachedRiStream*> m_objectInstances;
+        //
+        // Streams are shared so that a stream which is redefined while being
+        // replayed stays alive until the replay is finished.
+        typedef boost::shared_ptr<CachedRiStream> CachedRiStreamPtr;
+        std::vector<CachedRiStreamPtr> m_archives;
+        std::vector<CachedRiStreamPtr> m_objectInstances;
         CachedRiStream* m_currCache;
         int m_nested;
         bool m_inObject;
@@ -69,7 +75,7 @@ class RenderUtilFilter : public Ri::Filter
         // Find a cached stream in a given cache.
         //
         // Return -1 if not found.
-        static int findCachedStream(std::vector<CachedRiStream*>& cache, const char* name)
+        static int findCachedStream(std::vector<CachedRiStreamPtr>& cache, const char* name)
         {
             for(int i = 0, iend = cache.size(); i < iend; ++i)
                 if(cache[i]->name() == name)
@@ -81,7 +87,7 @@ class RenderUtilFilter : public Ri::Filter
         //
         // If a stream with the same name already exists, the new stream
         // replaces the old one.
-        static CachedRiStream* newCachedStream(std::vector<CachedRiStream*>& cache,
+        static CachedRiStream* newCachedStream(std::vector<CachedRiStreamPtr>& cache,
                                    const char* name)
         {
             // First search to make sure we haven't already defined a stream
@@ -89,14 +95,13 @@ class RenderUtilFilter : public Ri::Filter
             int index = findCachedStream(cache, name);
             if(index >= 0)
             {
-                delete cache[index];
-                cache[index] = new CachedRiStream(name);
-                return cache[index];
+                cache[index].reset(new CachedRiStream(name));
+                return cache[index].get();
             }
             else
             {
-                cache.push_back(new CachedRiStream(name));
-                return cache.back();
+                cache.push_back(CachedRiStreamPtr(new CachedRiStream(name)));
+                return cache.back().get();
             }
         }
 
@@ -114,14 +119,6 @@ class RenderUtilFilter : public Ri::Filter
             m_ifInactive(false)
         { }
 
-        ~RenderUtilFilter()
-        {
-            for(size_t i = 0; i < m_archives.size(); ++i)
-                delete m_archives[i];
-            for(size_t i = 0; i < m_objectInstances.size(); ++i)
-                delete m_objectInstances[i];
-        }
-
         //--------------------------------------------------
         // Inline archive handling
         virtual RtVoid ArchiveBegin(RtConstToken name, const ParamList& pList)
@@ -160,7 +157,10 @@ class RenderUtilFilter : public Ri::Filter
             // Search for the archive name in the cached archives.
             int index = findCachedStream(m_archives, name);
             if(index >= 0)
-                m_archives[index]->replay(services().firstFilter());
+            {
+                CachedRiStreamPtr archive = m_archives[index];
+                archive->replay(services().firstFilter());
+            }
             else
             {
                 // If not found in our archive list it's probably on-disk, so
@@ -218,7 +218,10 @@ class RenderUtilFilter : public Ri::Filter
             // Search for the object instance name
             int index = findCachedStream(m_objectInstances, name);
             if(index >= 0)
-                m_objectInstances[index]->replay(services().firstFilter());
+            {
+                CachedRiStreamPtr object = m_objectInstances[index];
+                object->replay(services().firstFilter());
+            }
             else
             {
                 // If we didn't find it, error
-- 
2.43.0


From 6fed6dbf0940e06a31fd677720a50b6a8cdb390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:36 +0000
Subject: [PATCH 06/26] fix: keep parameter names alive while a RIB parameter
 list is read

Names which need a null terminated copy were stored in a vector of strings;
growing the vector left earlier parameters with dangling name pointers.
---
 libs/riutil/ribparser_impl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/riutil/ribparser_impl.h b/libs/riutil/ribparser_impl.h
index 7b98c37..7bb1907 100644
--- a/libs/riutil/ribparser_impl.h
+++ b/libs/riutil/ribparser_impl.h
@@ -39,6 +39,8 @@
 
 #include <aqsis/aqsis.h>
 
+#include <deque>
+
 #include <boost/shared_ptr.hpp>
 #include <boost/noncopyable.hpp>
 
@@ -205,7 +207,8 @@ class RibParserImpl : public RibParser
 
         // Storage for parameter list parsing
         std::vector<Ri::Param> m_paramListStorage;
-        std::vector<std::string> m_paramNameStorage;
+        // (deque, since params refer to the stored names by pointer)
+        std::deque<std::string> m_paramNameStorage;
 
         /// Number of color components
         int m_numColorComps;
-- 
2.43.0


From d535664a5263a57da3f5073ad886ada9f69b22c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:32 +0000
Subject: [PATCH 07/26] fix: keep inline declarations alive while the RIB
 writer prints them

---
 libs/riutil/ribwriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/riutil/ribwriter.cpp b/libs/riutil/ribwriter.cpp
index 8e8671e..23a0f3d 100644
--- a/libs/riutil/ribwriter.cpp
+++ b/libs/riutil/ribwriter.cpp
@@ -631,12 +631,14 @@ class RibWriter : public Ri::Renderer
                 catch(XqValidation&)
                 { }
                 const char* token = param.name();
-                std::ostringstream fmt;
+                std::string inlineDecl; // keeps token alive until printed
                 if(useInlineDecl)
                 {
                     // Format inline declarations.
+                    std::ostringstream fmt;
                     fmt << CqPrimvarToken(param.spec(), param.name());
-                    token = fmt.str().c_str();
+                    inlineDecl = fmt.str();
+                    token = inlineDecl.c_str();
                 }
                 switch(param.spec().storageType())
                 {
-- 
2.43.0


From 915d404cd99be0a3b611e88cbe87cc5ebfc16a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:14 +0000
Subject: [PATCH 08/26] fix: isClose respects its tolerance when one matrix is
 flagged identity

---
 libs/math/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/math/matrix.cpp b/libs/math/matrix.cpp
index ca48fef..0cabdab 100644
--- a/libs/math/matrix.cpp
+++ b/libs/math/matrix.cpp
@@ -513,13 +513,13 @@ bool isClose(const CqMatrix& m1, const CqMatrix& m2, TqFloat tol)
 	{
 		CqMatrix ident;
 		ident.SetfIdentity(false);
-		return isClose(m2, ident);
+		return isClose(m2, ident, tol);
 	}
 	else if(m2.fIdentity())
 	{
 		CqMatrix ident;
 		ident.SetfIdentity(false);
-		return isClose(m1, ident);
+		return isClose(m1, ident, tol);
 	}
 	TqFloat norm1 = 0;
 	TqFloat norm2 = 0;
-- 
2.43.0


From f8a1b4b4372477481454017e0ab26b884f979cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:14 +0000
Subject: [PATCH 09/26] fix: scaling the elements of a matrix flagged identity
 clears the flag

---
 include/aqsis/math/matrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aqsis/math/matrix.h b/include/aqsis/math/matrix.h
index 609648e..6c03a76 100644
--- a/include/aqsis/math/matrix.h
+++ b/include/aqsis/math/matrix.h
@@ -938,6 +938,9 @@ inline CqMatrix operator*( TqFloat S, const CqMatrix& a )
 	temp.m_elements[ 1 ][ 3 ] *= S;
 	temp.m_elements[ 2 ][ 3 ] *= S;
 	temp.m_elements[ 3 ][ 3 ] *= S;
+
+	temp.m_fIdentity = false;
+
 	return temp;
 }
 
-- 
2.43.0


From c47dccc4decba2e7d8fab5f3ff25ba233631b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:14 +0000
Subject: [PATCH 10/26] fix: multiplying a matrix by itself in place gives its
 square

---
 libs/math/matrix.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/math/matrix.cpp b/libs/math/matrix.cpp
index 0cabdab..8cf1282 100644
--- a/libs/math/matrix.cpp
+++ b/libs/math/matrix.cpp
@@ -149,6 +149,9 @@ void CqMatrix::Normalise()
 
 CqMatrix &CqMatrix::operator*=( const CqMatrix &from )
 {
+	if ( &from == this )
+		return ( *this *= CqMatrix( from ) );
+
 	if ( m_fIdentity )
 		return ( *this = from );
 	else if ( from.m_fIdentity )
@@ -231,6 +234,9 @@ CqMatrix &CqMatrix::operator*=( const CqMatrix &from )
 //---------------------------------------------------------------------
 CqMatrix& CqMatrix::PreMultiply( const CqMatrix &from )
 {
+	if ( &from == this )
+		return PreMultiply( CqMatrix( from ) );
+
 	if ( m_fIdentity )
 		return ( *this = from );
 	else if ( from.m_fIdentity )
-- 
2.43.0


From b6843fc01d27cfa7cfa7a74e5fa2285ffe89c7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:14 +0000
Subject: [PATCH 11/26] fix: skew by the given angle when the two axes are not
 perpendicular

---
 libs/math/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/math/matrix.cpp b/libs/math/matrix.cpp
index 8cf1282..0c7cf69 100644
--- a/libs/math/matrix.cpp
+++ b/libs/math/matrix.cpp
@@ -81,7 +81,7 @@ CqMatrix::CqMatrix( const TqFloat angle,
 		              0, 0, 0, 1 );
 		TqFloat par = d1d2dot;               // Amount of d1 parallel to d2
 		TqFloat perp = static_cast<TqFloat>(sqrt( 1.0 - par * par ));   // Amount perpendicular
-		TqFloat s = static_cast<TqFloat>(tan( angle + acos( perp ) ) * perp - par);
+		TqFloat s = static_cast<TqFloat>(tan( angle + asin( par ) ) - par / perp);
 		CqMatrix Skw( 1, 0, 0, 0,
 		              0, 1, s, 0,
 		              0, 0, 1, 0,
-- 
2.43.0


From 0aad15a5f62f704b0a9470d4a893ad9ba6a34d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:29 +0000
Subject: [PATCH 12/26] fix: matte samples attenuate the opacity behind them by
 their opacity

Combine() held out the opacity of the samples behind a semitransparent matte
sample with the matte object's colour instead of its opacity.
---
 libs/core/imagepixel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index 2531912..724a0c9 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -207,9 +207,9 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 						lerp( sample_data[Sample_OBlue], samplecolor.b(), 0.0f )
 					);
 					sampleopacity = CqColor(
-						lerp( sample_data[Sample_Red], sampleopacity.r(), 0.0f ),
-						lerp( sample_data[Sample_Green], sampleopacity.g(), 0.0f ),
-						lerp( sample_data[Sample_Blue], sampleopacity.b(), 0.0f )
+						lerp( sample_data[Sample_ORed], sampleopacity.r(), 0.0f ),
+						lerp( sample_data[Sample_OGreen], sampleopacity.g(), 0.0f ),
+						lerp( sample_data[Sample_OBlue], sampleopacity.b(), 0.0f )
 					);
 				}
 				else
-- 
2.43.0


From 8e59cd2a6da9230386e83dcd9eee1db1317ac11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:29 +0000
Subject: [PATCH 13/26] fix: average depth filter averages the depths of the
 opaque hits

It ran after the composited opacity had been written over that of the nearest
hit, counted hits with a single opaque channel, and gave 0/0 without any; use
the test of the other depth filters while the hits are composited.
---
 libs/core/imagepixel.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index 724a0c9..9183e3d 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -193,6 +193,9 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 			bool samplehit = false;
 			TqFloat opaqueDepths[2] = { sampleData.occlZ, FLT_MAX };
 			TqFloat maxOpaqueDepth = FLT_MAX;
+			// Sum and number of the opaque depths, for the average depth filter.
+			TqFloat totDepth = 0.0f;
+			TqInt totCount = 0;
 
 			for ( std::vector<SqImageSample>::reverse_iterator sample = sampleData.data.rbegin();
 			        sample != sampleData.data.rend();
@@ -236,6 +239,8 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 					// Store the max opaque depth too, if not already stored.
 					if(!(maxOpaqueDepth < FLT_MAX))
 						maxOpaqueDepth = sample_data[Sample_Depth];
+					totDepth += sample_data[Sample_Depth];
+					totCount++;
 				}
 				samplehit = true;
 			}
@@ -278,21 +283,8 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 					}
 					else if ( depthfilter == Filter_Average )
 					{
-						std::vector<SqImageSample>::iterator sample;
-						TqFloat totDepth = 0.0f;
-						TqInt totCount = 0;
-						for ( sample = sampleData.data.begin(); sample != sampleData.data.end(); sample++ )
-						{
-							TqFloat* sample_data = sampleHitData(*sample);
-							if(sample_data[Sample_ORed] >= zThreshold.r() || sample_data[Sample_OGreen] >= zThreshold.g() || sample_data[Sample_OBlue] >= zThreshold.b())
-							{
-								totDepth += sample_data[Sample_Depth];
-								totCount++;
-							}
-						}
-						totDepth /= totCount;
-
-						occlDepth = totDepth;
+						// No sample is opaque enough: leave an empty depth.
+						occlDepth = totCount > 0 ? totDepth/totCount : FLT_MAX;
 					}
 					// Default to "min"
 				}
-- 
2.43.0


From 25210bd9e1e2e4f58b2a22e7e672443d5c94ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:38 +0000
Subject: [PATCH 14/26] fix: full intensity does not overflow to zero in 32 bit
 image channels

---
 include/aqsis/tex/buffers/imagechannel.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/aqsis/tex/buffers/imagechannel.h b/include/aqsis/tex/buffers/imagechannel.h
index 9510e05..847d010 100644
--- a/include/aqsis/tex/buffers/imagechannel.h
+++ b/include/aqsis/tex/buffers/imagechannel.h
@@ -325,9 +325,12 @@ inline T CqImageChannelTyped<T>::convertFromFloat(TqFloatConv src)
 	if(std::numeric_limits<T>::is_integer)
 	{
 		// result = integer
-		return static_cast<T>(lround(clamp<TqFloatConv>(src, 0, 1) *
-					( static_cast<TqFloatConv>(std::numeric_limits<T>::max())
-					- static_cast<TqFloatConv>(std::numeric_limits<T>::min()) )
+		//
+		// Double precision is needed here since the limits of the 32 bit types
+		// aren't representable as floats, so that full intensity would overflow.
+		return static_cast<T>(lround(clamp<TqDouble>(src, 0, 1) *
+					( static_cast<TqDouble>(std::numeric_limits<T>::max())
+					- static_cast<TqDouble>(std::numeric_limits<T>::min()) )
 					+ std::numeric_limits<T>::min()
 				));
 	}
-- 
2.43.0


From 4320fa5aaf00eff6ec121b0672f5fee9e5e65da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:38 +0000
Subject: [PATCH 15/26] fix: full intensity does not overflow to zero in 32 bit
 texture buffers

Also round rather than truncate, so that the value of each 16 bit pixel
survives conversion to floating point and back.
---
 include/aqsis/tex/buffers/texturebuffer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/aqsis/tex/buffers/texturebuffer.h b/include/aqsis/tex/buffers/texturebuffer.h
index cb4462e..6141b1c 100644
--- a/include/aqsis/tex/buffers/texturebuffer.h
+++ b/include/aqsis/tex/buffers/texturebuffer.h
@@ -399,8 +399,9 @@ inline void CqTextureBuffer<T>::setPixel(const TqInt x, const TqInt y,
 		/// \todo Need to think about how this should work for signed integer channels.
 		for(TqInt chan = 0; chan < m_numChannels; ++chan)
 		{
-			pixel[chan] = static_cast<T>(std::numeric_limits<T>::max()
-					* clamp(pixelValue[chan], 0.0f, 1.0f));
+			pixel[chan] = static_cast<T>(lround(
+					static_cast<TqDouble>(std::numeric_limits<T>::max())
+					* clamp<TqFloat>(pixelValue[chan], 0, 1)));
 		}
 	}
 	else
-- 
2.43.0


From b65994bae60ad47a3fb765aa7e3276d5a2db8e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:38 +0000
Subject: [PATCH 16/26] fix: textures clamped in one direction and periodic in
 the other wrap in both

---
 include/aqsis/tex/filtering/filtertexture.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/aqsis/tex/filtering/filtertexture.h b/include/aqsis/tex/filtering/filtertexture.h
index c2fbfd1..5fce1bb 100644
--- a/include/aqsis/tex/filtering/filtertexture.h
+++ b/include/aqsis/tex/filtering/filtertexture.h
@@ -180,12 +180,13 @@ void filterWrappedBuffer(SampleAccumT& sampleAccum, const ArrayT& buffer,
 			// clamped in x direction, but not in y direction.
 			// Here we perform a normal iteration over y, but leave 
 			TqInt xClamp = clamp(tlX, 0, buffer.width()-1);
-			SqFilterSupport clampedSupport(SqFilterSupport1D(xClamp, xClamp+1), tileSupport.sy);
+			SqFilterSupport clampedSupport(xClamp, xClamp+1,
+					tileSupport.sy.start - tlY, tileSupport.sy.end - tlY);
 			for(typename ArrayT::TqIterator i = buffer.begin(clampedSupport);
 					i.inSupport(); ++i)
 			{
 				for(TqInt ix = tileSupport.sx.start; ix < tileSupport.sx.end; ++ix)
-					sampleAccum.accumulate(ix, i.y(), *i);
+					sampleAccum.accumulate(ix, i.y() + tlY, *i);
 			}
 		}
 	}
@@ -194,12 +195,13 @@ void filterWrappedBuffer(SampleAccumT& sampleAccum, const ArrayT& buffer,
 		// clamped in y direction, but not in x direction.  This is just an
 		// inverted (and slightly duplicated :-/ ) version of the code above
 		TqInt yClamp = clamp(tlY, 0, buffer.height()-1);
-		SqFilterSupport clampedSupport(tileSupport.sx, SqFilterSupport1D(yClamp, yClamp+1));
+		SqFilterSupport clampedSupport(tileSupport.sx.start - tlX,
+				tileSupport.sx.end - tlX, yClamp, yClamp+1);
 		for(typename ArrayT::TqIterator i = buffer.begin(clampedSupport);
 				i.inSupport(); ++i)
 		{
 			for(TqInt iy = tileSupport.sy.start; iy < tileSupport.sy.end; ++iy)
-				sampleAccum.accumulate(i.x(), iy, *i);
+				sampleAccum.accumulate(i.x() + tlX, iy, *i);
 		}
 	}
 	else
-- 
2.43.0


From f76f063bed42609ab20233c7d1e153b413664a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:33 +0000
Subject: [PATCH 17/26] fix: scaling a sample parallelogram scales its second
 side rather than replacing it by the first

---
 include/aqsis/tex/filtering/samplequad.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aqsis/tex/filtering/samplequad.h b/include/aqsis/tex/filtering/samplequad.h
index cd822ec..65775c2 100644
--- a/include/aqsis/tex/filtering/samplequad.h
+++ b/include/aqsis/tex/filtering/samplequad.h
@@ -371,8 +371,8 @@ inline void SqSamplePllgram::scaleWidth(TqFloat xWidth, TqFloat yWidth)
 	{
 		s1.x(s1.x()*xWidth);
 		s1.y(s1.y()*yWidth);
-		s2.x(s1.x()*xWidth);
-		s2.y(s1.y()*yWidth);
+		s2.x(s2.x()*xWidth);
+		s2.y(s2.y()*yWidth);
 	}
 }
 
-- 
2.43.0


From a4cb669031b52d07c6214c55674738be30de222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:33 +0000
Subject: [PATCH 18/26] fix: a sample parallelogram is remapped only in the
 directions which are periodic

---
 include/aqsis/tex/filtering/samplequad.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/aqsis/tex/filtering/samplequad.h b/include/aqsis/tex/filtering/samplequad.h
index 65775c2..02f91af 100644
--- a/include/aqsis/tex/filtering/samplequad.h
+++ b/include/aqsis/tex/filtering/samplequad.h
@@ -357,9 +357,11 @@ inline void SqSamplePllgram::remapPeriodic(bool xPeriodic, bool yPeriodic)
 {
 	if(xPeriodic || yPeriodic)
 	{
-		if(c.x() < 0 || c.y() < 0 || c.x() >= 1 || c.y() >= 1)
+		TqFloat x = xPeriodic ? c.x() : 0;
+		TqFloat y = yPeriodic ? c.y() : 0;
+		if(x < 0 || y < 0 || x >= 1 || y >= 1)
 		{
-			CqVector2D v(std::floor(c.x()),std::floor(c.y()));
+			CqVector2D v(std::floor(x),std::floor(y));
 			c -= v;
 		}
 	}
-- 
2.43.0


From 53d0acfd20fa5b8521727c7b0c18aada502ae647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:17 +0000
Subject: [PATCH 19/26] fix: regular grid sampling spreads the sample times
 over the shutter

The interval between sample times was computed with an integer division, so
with more than one sample per pixel every sample had time (and level of
detail) zero and moving objects were not blurred at all.
---
 libs/core/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/core/grid.cpp b/libs/core/grid.cpp
index 5b50009..260477a 100644
--- a/libs/core/grid.cpp
+++ b/libs/core/grid.cpp
@@ -49,7 +49,7 @@ void CqGridSampler::setupGridPattern()
 	}
 
 	// Fill in motion blur and LoD with the same regular grid
-	TqFloat dt = 1/nSamples;
+	TqFloat dt = 1.0f/nSamples;
 	TqFloat sample = dt*0.5;
 	for(TqInt i = 0; i < nSamples; ++i)
 	{
-- 
2.43.0


From dcdc461b9625511a0991760544d1314bb7bc009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:17 +0000
Subject: [PATCH 20/26] fix: bounds of moving micropolygons follow them beyond
 the key times

Before the first and after the last key a micropolygon stands still, but its
bounds were extrapolated along the motion, so it vanished from the part of
the shutter interval outside the key times.
---
 libs/core/micropolygon.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/core/micropolygon.cpp b/libs/core/micropolygon.cpp
index 287a952..d793226 100644
--- a/libs/core/micropolygon.cpp
+++ b/libs/core/micropolygon.cpp
@@ -1728,7 +1728,9 @@ void CqMicroPolygonMotion::BuildBoundList(TqUint timeRanges)
 		const CqBound& end1 = m_Keys[endKey]->GetBound();
 		TqFloat end1Time = m_Times[endKey];
 
-		TqFloat mix = (time - end0Time) / (end1Time - end0Time);
+		// Outside the key times the micropolygon stays where it was at the
+		// nearest key.
+		TqFloat mix = clamp((time - end0Time) / (end1Time - end0Time), 0.0f, 1.0f);
 		CqBound mid(end0);
 		mid.vecMin() += mix * (end1.vecMin() - end0.vecMin());
 		mid.vecMax() += mix * (end1.vecMax() - end0.vecMax());
-- 
2.43.0


From 177219879bd6bdeb6c0e497a9830118eb1f14bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:17 +0000
Subject: [PATCH 21/26] fix: one bound for a moving micropolygon when the
 shutter is instantaneous

Several bounds at the same time meant that each sample was hit several times,
which makes transparent objects too opaque.
---
 libs/core/micropolygon.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/core/micropolygon.cpp b/libs/core/micropolygon.cpp
index d793226..0d6e874 100644
--- a/libs/core/micropolygon.cpp
+++ b/libs/core/micropolygon.cpp
@@ -1705,6 +1705,10 @@ void CqMicroPolygonMotion::BuildBoundList(TqUint timeRanges)
 	TqInt polyLengthsMoved = max<TqInt>(1, lfloor(std::sqrt(moveDist2/polyLen2)));
 
 	TqUint divisions = min<TqInt>(polyLengthsMoved, timeRanges);
+	// With an instantaneous shutter all divisions are at the same time, and
+	// each would be sampled.
+	if(isClose(opentime, closetime))
+		divisions = 1;
 	TqFloat dt = (closetime - opentime) / divisions;
 	TqFloat time = opentime + dt;
 	TqInt startKey = 0;
-- 
2.43.0


From 09705a6e2f5ce60e15b379cab9a265dd3af879ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:17 +0000
Subject: [PATCH 22/26] fix: keep motion samples within the samples of the
 pixel

For some shutter times (closetime-opentime)*timePerSample is rounded up above
the number of samples, and a sample past the end of the pixel was read.
---
 libs/core/bucketprocessor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/core/bucketprocessor.cpp b/libs/core/bucketprocessor.cpp
index 9e048a9..1c5f9ec 100644
--- a/libs/core/bucketprocessor.cpp
+++ b/libs/core/bucketprocessor.cpp
@@ -1278,7 +1278,8 @@ void CqBucketProcessor::RenderMPG_MBOrDof( CqMicroPolygon* pMPG, bool IsMoving,
 			else
 			{
 				indexT0 = max<TqInt>(0, lfloor((time0 - opentime) * timePerSample));
-				indexT1 = lceil((time1 - opentime) * timePerSample);
+				// Rounding may take the last sample beyond the end.
+				indexT1 = min<TqInt>(numSamples, lceil((time1 - opentime) * timePerSample));
 			}
 		}
 
-- 
2.43.0


From 7d4a5e66e563e527590903b4ca5a97136dbcfc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:30 +0000
Subject: [PATCH 23/26] fix: buckets are at least as large as the filter
 overlap

With a bucket smaller than twice the discrete filter shift (for example
16 pixel buckets with a filter 20 pixels wide) the shared bands of pixels
do not fit inside a bucket and the renderer threw std::length_error.
---
 libs/core/optioncache.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/core/optioncache.cpp b/libs/core/optioncache.cpp
index 0f9b68d..7f52410 100644
--- a/libs/core/optioncache.cpp
+++ b/libs/core/optioncache.cpp
@@ -21,6 +21,7 @@
 
 #include "optioncache.h"
 
+#include <aqsis/math/math.h>
 #include <aqsis/util/logging.h>
 #include <aqsis/util/sstring.h>
 
@@ -82,6 +83,10 @@ void SqOptionCache::cacheOptions(const IqOptions& opts)
 		xBucketSize = bktSize[0];
 		yBucketSize = bktSize[1];
 	}
+	// The bands of pixels which neighbouring buckets share have to fit inside
+	// a bucket.
+	xBucketSize = max<TqInt>(xBucketSize, 2*lfloor(xFiltSize/2.0f));
+	yBucketSize = max<TqInt>(yBucketSize, 2*lfloor(yFiltSize/2.0f));
 	// Eye split bound
 	maxEyeSplits = 10;
 	if(const TqInt* splits = opts.GetIntegerOption("limits", "eyesplits"))
-- 
2.43.0


From d83277716e32e3252c51dfdf32298e18d5ffe819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:26 +0000
Subject: [PATCH 24/26] fix: a sample between two motion bounds belongs to only
 one of them

---
 libs/core/bucketprocessor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/core/bucketprocessor.cpp b/libs/core/bucketprocessor.cpp
index 1c5f9ec..bcd2086 100644
--- a/libs/core/bucketprocessor.cpp
+++ b/libs/core/bucketprocessor.cpp
@@ -1385,7 +1385,9 @@ void CqBucketProcessor::RenderMPG_MBOrDof( CqMicroPolygon* pMPG, bool IsMoving,
 
 						CqStats::IncI( CqStats::SPL_count );
 
-						if(IsMoving && (time < time0 || time > time1))
+						// A sample on the boundary belongs to the next bound.
+						if(IsMoving && (time < time0 || time > time1 ||
+							(time == time1 && bound_numMB != bound_maxMB_1)))
 						{
 							continue;
 						}
-- 
2.43.0


From 7cf0c094fb1c5a6926e27bd483fdb333e80ff4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:27 +0000
Subject: [PATCH 25/26] fix: displays which want scanlines get the lines of the
 crop window

---
 libs/core/ddmanager/ddmanager.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index 87f369f..a0cb662 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -1135,17 +1135,23 @@ bool CqDisplayRequest::CollapseBucketsToScanlines( const CqRegion& DRegion )
 	TqInt	xmaxplus1 = DRegion.xMax();
 	TqInt	ymaxplus1 = DRegion.yMax();
 	TqInt x, y;
+	// The rows hold only the part of the buckets inside the crop window.
+	TqInt originX = QGetRenderContext()->cropWindowXMin();
+	TqInt originY = QGetRenderContext()->cropWindowYMin();
+	TqInt firstRow = max(ymin, originY);
 
 	for (y = ymin; y < ymaxplus1; y++)
 	{
 		for (x = xmin; x < xmaxplus1; x++)
 		{
-			memcpy(&(m_DataRow[m_width * m_elementSize * (y - ymin) + m_elementSize * x]), pdata, m_elementSize);
+			if (x >= originX && x < originX + m_width
+				&& y >= originY && y < originY + m_height)
+				memcpy(&(m_DataRow[m_width * m_elementSize * (y - firstRow) + m_elementSize * (x - originX)]), pdata, m_elementSize);
 			pdata += m_elementSize;
 		}
 	}
 
-	if (xmaxplus1 >= m_width)
+	if (xmaxplus1 >= originX + m_width)
 	{
 		// Filled a scan line
 		Aqsis::log() << debug << "filled a scanline" << std::endl;
@@ -1165,11 +1171,15 @@ void CqDisplayRequest::SendToDisplay(TqInt ymin, TqInt ymaxplus1)
 	TqInt y;
 	PtDspyError err;
 	unsigned char* pdata = m_DataRow;
+	TqInt originX = QGetRenderContext()->cropWindowXMin();
+	TqInt originY = QGetRenderContext()->cropWindowYMin();
+	ymin = max(ymin, originY);
+	ymaxplus1 = min(ymaxplus1, originY + m_height);
 
 	// send to the display one line at a time
 	for (y = ymin; y < ymaxplus1; y++)
 	{
-		err = (m_DataMethod)(m_imageHandle, 0, m_width, y, y+1, m_elementSize, pdata);
+		err = (m_DataMethod)(m_imageHandle, originX, originX + m_width, y, y+1, m_elementSize, pdata);
 		pdata += m_elementSize * m_width;
 	}
 }
-- 
2.43.0


From f7540f9345217f186bc229fa457d343a648f5fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:27 +0000
Subject: [PATCH 26/26] fix: display requests start without flags, methods or
 data

---
 libs/core/ddmanager/ddmanager.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/core/ddmanager/ddmanager.h b/libs/core/ddmanager/ddmanager.h
index 92438f0..78567b6 100644
--- a/libs/core/ddmanager/ddmanager.h
+++ b/libs/core/ddmanager/ddmanager.h
@@ -101,8 +101,11 @@ class CqDisplayRequest : public IqDisplayRequest
 				m_modeHash(modeHash), m_modeID(modeID), m_AOVOffset(dataOffset),
 				m_AOVSize(dataSize), m_QuantizeZeroVal(quantizeZeroVal), m_QuantizeOneVal(quantizeOneVal),
 				m_QuantizeMinVal(quantizeMinVal), m_QuantizeMaxVal(quantizeMaxVal), m_QuantizeDitherVal(quantizeDitherVal), m_QuantizeSpecified(quantizeSpecified), m_QuantizeDitherSpecified(quantizeDitherSpecified),
-				m_isLoaded(false)
-		{}
+				m_OpenMethod(0), m_QueryMethod(0), m_DataMethod(0), m_CloseMethod(0), m_DelayCloseMethod(0),
+				m_isLoaded(false), m_DataRow(0), m_DataBucket(0)
+		{
+			m_flags.flags = 0;
+		}
 		virtual ~CqDisplayRequest();
 
 		/* Query if this display uses the dispay mode variable (one of rgbaz)
-- 
2.43.0

