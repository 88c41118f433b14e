From 1730b72f1f90f751a98881a4bfc16ae2b38b2615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 01/93] fix: entity 108: delimit a null pointer and terminate
 the parameter record

---
 src/entities/entity108.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index 87d9841..411e918 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -242,7 +242,9 @@ bool IGES_ENTITY_108::format( int &index )
     }
     else
     {
-        FormatDEInt( tStr, 0 );
+        ostr.str( "" );
+        ostr << "0" << pd;
+        tStr = ostr.str();
     }
 
     AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
@@ -271,7 +273,14 @@ bool IGES_ENTITY_108::format( int &index )
 
     AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
 
-    if( !FormatPDREal( tStr, Size, pd, uir ) )
+    char idelim;
+
+    if( extras.empty() )
+        idelim = rd;
+    else
+        idelim = pd;
+
+    if( !FormatPDREal( tStr, Size, idelim, uir ) )
     {
         ERRMSG << "\n + [INFO] could not format display Size\n";
         return false;
-- 
2.43.0


From ffa012a0e6228eefcb1559c1b93cdffd79f28043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 02/93] fix: entity 508: write every parameter space curve of
 an edge tuple

---
 src/entities/entity508.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 6eacf44..144864f 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -284,7 +284,7 @@ bool IGES_ENTITY_508::format( int &index )
         // K(n)
         ostr.str("");
 
-        if( sV == iV && extras.empty() )
+        if( sV == iV && (*sV)->pcurves.empty() && extras.empty() )
             ostr << (*sV)->pcurves.size() << rd;
         else
             ostr << (*sV)->pcurves.size() << pd;
@@ -294,7 +294,7 @@ bool IGES_ENTITY_508::format( int &index )
 
         // write out PS curve data
         vector< LOOP_PAIR* >::iterator sP = (*sV)->pcurves.begin();
-        vector< LOOP_PAIR* >::iterator eP = --((*sV)->pcurves.end());
+        vector< LOOP_PAIR* >::iterator eP = (*sV)->pcurves.end();
 
         while( sP != eP )
         {
@@ -312,7 +312,7 @@ bool IGES_ENTITY_508::format( int &index )
             // CURV(n, k)
             ostr.str("");
 
-            if( sV == iV && sP == eP && extras.empty() )
+            if( sV == iV && sP + 1 == eP && extras.empty() )
                 ostr << (*sP)->curve->getDESequence() << rd;
             else
                 ostr << (*sP)->curve->getDESequence() << pd;
-- 
2.43.0


From 80b2e33b0331985111453dc688aae208b29126ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 03/93] fix: entity 186: write the number of void shells when
 there are any

---
 src/entities/entity186.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index 1b64322..e6390bb 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -216,18 +216,15 @@ bool IGES_ENTITY_186::format( int &index )
     string fStr = ostr.str();
     string tStr;
 
-    if( mvoids.empty() )
-    {
-        ostr.str("");
+    ostr.str("");
 
-        if( extras.empty() )
-            ostr << "0" << rd;
-        else
-            ostr << "0" << pd;
+    if( mvoids.empty() && extras.empty() )
+        ostr << mvoids.size() << rd;
+    else
+        ostr << mvoids.size() << pd;
 
-        tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
-    }
+    tStr = ostr.str();
+    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
 
     list<pair<IGES_ENTITY_514*, bool> >::iterator sV = mvoids.begin();
     list<pair<IGES_ENTITY_514*, bool> >::iterator eV = mvoids.end();
-- 
2.43.0


From a3bb6f2fcb5e7fd2fcb2f524d56072224a7e6941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 04/93] fix: entity 314: write color names of any length and
 keep the defaulted name before optional pointers

---
 src/entities/entity314.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/entities/entity314.cpp b/src/entities/entity314.cpp
index 0ce2ed1..071d30c 100644
--- a/src/entities/entity314.cpp
+++ b/src/entities/entity314.cpp
@@ -209,17 +209,19 @@ bool IGES_ENTITY_314::format( int &index )
 
     AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
 
-    if( !cname.empty() )
+    if( !cname.empty() || !extras.empty() )
     {
         if( extras.empty() )
             idelim = rd;
         else
             idelim = pd;
 
-        ostr.str( "" );
-        ostr << cname.size() << "H" << cname << idelim;
-        tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDHStr( cname, fStr, pdout, index, sequenceNumber, pd, rd, idelim ) )
+        {
+            ERRMSG << "\n + [INFO] could not format color name\n";
+            pdout.clear();
+            return false;
+        }
     }
 
     if( !extras.empty() && !formatExtraParams( fStr, index, pd, rd ) )
-- 
2.43.0


From 6cf84edda7c3346843cf10df36ab7f265f85d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 05/93] fix: entity 406: write a missing name as a defaulted
 parameter

---
 src/entities/entity406.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity406.cpp b/src/entities/entity406.cpp
index da688d5..13906f5 100644
--- a/src/entities/entity406.cpp
+++ b/src/entities/entity406.cpp
@@ -236,7 +236,7 @@ bool IGES_ENTITY_406::format( int &index )
     }
     else
     {
-        tStr = idelim;
+        tStr.clear();
     }
 
     if( !AddPDHStr( tStr, fStr, pdout, index, sequenceNumber, pd, rd, idelim ) )
-- 
2.43.0


From 778a1de9c73770503ad927e81bf843c1ac036dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 06/93] fix: directory entry: accept the level pointer that
 writeDE emits

---
 src/entities/iges_entity.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index e05c449..ad15883 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1166,12 +1166,6 @@ bool IGES_ENTITY::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aSeque
         return false;
     }
 
-    if( tmpInt < 0 )
-    {
-        ERRMSG << "\n + invalid Level value (" << tmpInt << "); must be >= 0\n";
-        return false;
-    }
-
     level = tmpInt;
 
     // DE6: View
-- 
2.43.0


From b696273bc26ca650cb0cbd6a1b1e0b8b70babdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 07/93] fix: directory entry: resolve the negated structure
 pointer

---
 src/entities/iges_entity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index ad15883..ebce0d3 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -485,9 +485,9 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
     int tEnt;
     bool dup = false;
 
-    if( structure > 0 )
+    if( structure < 0 )
     {
-        idx = structure >> 1;
+        idx = (-structure) >> 1;
 
         if( idx < (int)entities->size() )
         {
-- 
2.43.0


From e268468661651d587add10c5728de8c830837e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 08/93] fix: entity 108: keep the use flag that format() sets
 when reading

---
 src/entities/entity108.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index 411e918..132db05 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -376,7 +376,7 @@ bool IGES_ENTITY_108::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     }
 
     structure = 0;                  // N.A.
-    use = STAT_USE_GEOMETRY;        // fixed
+    use = STAT_USE_DEFINITION;      // fixed
     hierarchy = STAT_HIER_ALL_SUB;  // field ignored
 
     if ((form != 0) && (form != 1) && (form != -1))
-- 
2.43.0


From a20379da866d4daa15d71784480793498abf524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 09/93] fix: global section: read a custom record delimiter
 where it stands and validate it

---
 src/iges/iges.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a827b72..5b2cc51 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1094,7 +1094,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // G2: record delimeter: REQUIRED DEFAULT ';'
     if( globs[idx] != delim )
     {
-        if( globs.compare(0, 2, "1H") )
+        if( globs.compare(idx, 2, "1H") )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
@@ -1102,12 +1102,12 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
         rdelim = globs[idx + 2];
 
-        if( delim <= 0x20 || delim >= 0x7f || delim == ';'
-            || delim == 0x2b || delim == 0x2d || delim == 0x2e
-            || delim == 'D' || delim == 'E' || delim == 'H'
-        || ( delim >= 0x30 && delim <= 0x39 ) )
+        if( rdelim <= 0x20 || rdelim >= 0x7f || rdelim == delim
+            || rdelim == 0x2b || rdelim == 0x2d || rdelim == 0x2e
+            || rdelim == 'D' || rdelim == 'E' || rdelim == 'H'
+            || ( rdelim >= 0x30 && rdelim <= 0x39 ) )
         {
-            ERRMSG << "\n + [CORRUPT FILE] invalid parameter delimeter\n";
+            ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
         }
 
-- 
2.43.0


From 3e075cbac7d24beb1d8469e0c6e5b30fce279622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 10/93] fix: global section: reject an empty preprocessor
 version

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 5b2cc51..47d57f9 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1179,7 +1179,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     }
     else
     {
-        if( globalData.nativeSystemID.empty() )
+        if( globalData.preprocessorVersion.empty() )
         {
             ERRMSG << "\n + [CORRUPT FILE] no Preprocessor Version (defaults not permitted)\n";
             return false;
-- 
2.43.0


From 21d43e01fe24c03e3f63b43d95c14fd754fce175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 11/93] fix: global section: default the receiving system's
 product ID

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 47d57f9..83842af 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1280,7 +1280,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve ProductID of Receiving System\n";
         return false;
     }
-    else if( globalData.productIDSS.empty() )
+    else if( globalData.productIDRS.empty() )
     {
         globalData.productIDRS = globalData.productIDSS;
     }
-- 
2.43.0


From 9ce9283d18d6025aadb61a151ade484b2c628fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 12/93] fix: global section: reject an invalid drafting
 standard

---
 src/iges/iges.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 83842af..ca1f646 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1479,6 +1479,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid Drafting Standard (";
             cerr << tint << ")\n";
+            return false;
         }
 
         globalData.draftStandard = (IGES_DRAFTING_STANDARD)tint;
-- 
2.43.0


From c75664008f22903336797ab199ff1703721e3899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 13/93] fix: global section: reject a model scale that cannot
 be divided by

---
 src/iges/iges.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index ca1f646..d275216 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1294,6 +1294,13 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         return false;
     }
 
+    if( globalData.modelScale <= 0.0 )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] invalid Model Space Scale (";
+        cerr << globalData.modelScale << ")\n";
+        return false;
+    }
+
     // G14: Model Units
     int tint;
     int idefault = 1;
-- 
2.43.0


From d591c5acdd79c94b5f5d28799f8eb6f291c7d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 14/93] fix: global section: write the maximum line width as
 item 17

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index d275216..a60504a 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2233,9 +2233,9 @@ bool IGES::writeGlobals( std::ofstream& file )
     // Item 17: (Real) Max. Width of Lines
     // REQ NODEF ( use 1.0 if none specified )
     if( globalData.maxLinewidth < 1e-6 )
-        globalData.maxLinewidthGrad = 1;
+        globalData.maxLinewidth = 1.0;
 
-    if( !FormatPDREal( tstr, globalData.maxLinewidthGrad, pd, globalData.minResolution ) )
+    if( !FormatPDREal( tstr, globalData.maxLinewidth, pd, globalData.minResolution ) )
     {
         ERRMSG << "\n + [INFO] failed to format Max. Linewidth\n";
         return false;
-- 
2.43.0


From d159ea28855ba64f159130a74715e94af581d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 15/93] fix: global section: write the name of a custom unit

---
 src/iges/iges.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a60504a..ca54911 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2209,7 +2209,12 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 15: (HStr) Units Name
     // REQ DEF : UNIT_NAMES[Unit Flag]
-    if( !AddSecHStr( UNIT_NAMES[globalData.unitsFlag - UNIT_START], lstr, gstr, idx, pd, rd, pd ) )
+    if( globalData.unitsFlag == UNIT_EXTERN )
+        tstr = globalData.unitsName;
+    else
+        tstr = UNIT_NAMES[globalData.unitsFlag - UNIT_START];
+
+    if( !AddSecHStr( tstr, lstr, gstr, idx, pd, rd, pd ) )
     {
         ERRMSG << "\n + [INFO] failed to add Units Name\n";
         return false;
-- 
2.43.0


From 54839a60b9792fbd13bc4baf5b0dbd049305af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 16/93] fix: global section: convert units when the section
 ends after item 25

---
 src/iges/iges.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index ca54911..bb61b13 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1517,10 +1517,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     if( eor )
     {
         globalData.applicationNote.clear();
-        return true;
     }
-
-    if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
+    else if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
     {
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve AP / Subset Identifier string\n";
         return false;
-- 
2.43.0


From 421ce257f048fa51acdb5612eae7bc8ec1d14203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 17/93] fix: entity 104: scale the conic coefficients
 consistently

---
 src/entities/entity104.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 95be751..58fd361 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -356,12 +356,10 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
-    A *= sf;
-    B *= sf;
-    C *= sf;
+    // A, B and C are the coefficients of the second order terms
     D *= sf;
     E *= sf;
-    F *= sf;
+    F *= sf * sf;
     ZT *= sf;
     X1 *= sf;
     Y1 *= sf;
-- 
2.43.0


From 4f5ce9d74474eab888587f9b74deafab843a17ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 18/93] fix: entity 108: initialise and scale the plane's
 lengths

---
 src/entities/entity108.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index 132db05..73ce090 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -52,11 +52,13 @@ IGES_ENTITY_108::IGES_ENTITY_108( IGES* aParent ) : IGES_ENTITY( aParent )
 
     /* default no bounding curve */
     iPtr = 0;
+    PTR = NULL;
 
     /* default symbol location and size */
     X = 0.0;
     Y = 0.0;
     Z = 0.0;
+    Size = 0.0;
     return;
 }
 
@@ -311,7 +313,12 @@ bool IGES_ENTITY_108::format( int &index )
 
 bool IGES_ENTITY_108::rescale( double sf )
 {
-    // there is nothing to scale
+    // (A, B, C) is the plane's normal
+    D *= sf;
+    X *= sf;
+    Y *= sf;
+    Z *= sf;
+    Size *= sf;
     return true;
 }
 
-- 
2.43.0


From cee6f8432fa56bfccae02aac98ad3f096e67f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 19/93] fix: model scale: scale the minimum resolution by the
 same factor as the entities

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index bb61b13..50d25a2 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1848,7 +1848,7 @@ bool IGES::ChangeModelScale( double aScale )
     }
 
     double cf = aScale / globalData.modelScale;
-    globalData.minResolution *= aScale;
+    globalData.minResolution *= cf;
     globalData.modelScale = aScale;
 
     // scale all existing entities
-- 
2.43.0


From c16c9624d29e41fb4cb501f14544a61631d9b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 20/93] fix: API: guard the property accessors of entity 406
 against a deleted entity

---
 src/dllapi/dll_entity406.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dllapi/dll_entity406.cpp b/src/dllapi/dll_entity406.cpp
index 25951fa..e684432 100644
--- a/src/dllapi/dll_entity406.cpp
+++ b/src/dllapi/dll_entity406.cpp
@@ -96,6 +96,10 @@ bool DLL_IGES_ENTITY_406::NewEntity( void )
 const char * DLL_IGES_ENTITY_406::GetProperty_Name( void )
 {
     const char *result = NULL;
+
+    if( !m_valid || NULL == m_entity )
+        return NULL;
+
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
 
     if( ep->GetEntityForm() == 15 )
@@ -112,6 +116,9 @@ bool DLL_IGES_ENTITY_406::SetProperty_Name( const char * aName )
 {
     bool result = false;
 
+    if( !m_valid || NULL == m_entity )
+        return false;
+
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
 
     if( (ep->GetEntityForm() == 15) && (aName != NULL) )
-- 
2.43.0


From c187ce299ce5f0d1e38f5b604274600839f8c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 21/93] fix: API: guard and return the curves and walls of a
 PCB outline

---
 src/dllapi/dll_iges_geom_pcb.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index 3277f8e..1af12c9 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -228,7 +228,7 @@ bool DLL_IGES_GEOM_PCB::GetCurves( IGES* aModel, IGES_CURVE**& aCurveList, int&
         nCurves = ts;
         aCurveList = pl;
         std::list< IGES_CURVE* >::iterator sC = curves.begin();
-        std::list< IGES_CURVE* >::iterator eC = curves.begin();
+        std::list< IGES_CURVE* >::iterator eC = curves.end();
 
         while( sC != eC )
         {
@@ -249,7 +249,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
     double aMinX, double aMaxX, double aMinY, double aMaxY,
     double zHeight, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline && !m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::list< IGES_ENTITY_126* > curves;
@@ -301,7 +301,7 @@ bool DLL_IGES_GEOM_PCB::GetSegmentWall( IGES* aModel,
     IGES_ENTITY_144**& aSurfaceList, int& nSurfaces,
     double aTopZ, double aBotZ, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline || m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::vector< IGES_ENTITY_144* > surfs;
-- 
2.43.0


From d5cf9d674e78c08018723f7e2726c2c3cb2d0f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 22/93] fix: API: delete an entity through the model which owns
 it

---
 src/dllapi/dll_iges_entity.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index 49973f4..fdbe87e 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -167,7 +167,12 @@ void DLL_IGES_ENTITY::DelEntity( void )
     if( m_valid && NULL != m_entity )
     {
         m_entity->DetachValidFlag( &m_valid );
-        delete m_entity;
+
+        // the model must not retain an entity which no longer exists
+        IGES* ip = m_entity->GetParentIGES();
+
+        if( NULL == ip || !ip->DelEntity( m_entity ) )
+            delete m_entity;
     }
 
     m_entity = NULL;
-- 
2.43.0


From ab8e0ef25c1413e1f411e0e8e8f48009c8353d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 23/93] fix: API: create a single entity, return it and accept
 an empty product ID

---
 src/dllapi/dll_iges.cpp | 63 +++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index f7fa2ec..14f27fe 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -234,103 +234,103 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
     switch( aEntityType )
     {
     case ENT_CIRCULAR_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, false );
         break;
 
     case ENT_COMPOSITE_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, false );
         break;
 
     case ENT_CONIC_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, false );
         break;
 
     case ENT_LINE:
-        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, false );
         break;
 
     case ENT_SURFACE_OF_REVOLUTION:
-        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, false );
         break;
 
     case ENT_TABULATED_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, false );
         break;
 
     case ENT_TRANSFORMATION_MATRIX:
-        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, false );
         break;
 
     case ENT_NURBS_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, false );
         break;
 
     case ENT_NURBS_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, false );
         break;
 
     case ENT_CURVE_ON_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, false );
         break;
 
     case ENT_TRIMMED_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, false );
         break;
 
     /*
     case ENT_RIGHT_CIRCULAR_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, false );
         break;
 
     case ENT_SOLID_OF_LINEAR_EXTRUSION:
-        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, false );
         break;
 
     case ENT_BOOLEAN_TREE:
-        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, false );
         break;
 
     case ENT_MANIFOLD_SOLID_BREP:
-        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, false );
         break;
     */
 
     case ENT_SUBFIGURE_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, false );
         break;
 
     case ENT_COLOR_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, false );
         break;
 
     case ENT_SINGULAR_SUBFIGURE_INSTANCE:
-        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, false );
         break;
 
     /*
     case ENT_VERTEX:
-        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, false );
         break;
 
     case ENT_EDGE:
-        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, false );
         break;
 
     case ENT_LOOP:
-        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, false );
         break;
 
     case ENT_FACE:
-        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, false );
         break;
 
     case ENT_SHELL:
-        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, false );
         break;
         */
 
     default:
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] entity unsupported in API, ID " << aEntityType << "\n";
         return false;
         break;
@@ -338,14 +338,14 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
 
     if( NULL == aEntityPointer )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] failed to instantiate DLL_IGES_ENTITY object\n";
         return false;
     }
 
     if( !aEntityPointer->Attach( ep ) )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         delete aEntityPointer;
         aEntityPointer = NULL;
         ERRMSG << "\n + [INFO] failed to attach object to DLL_IGES_ENTITY\n";
@@ -364,7 +364,10 @@ bool DLL_IGES::NewIGESEntity( IGES_ENTITY_TYPE aEntityType, IGES_ENTITY** aEntit
         return false;
     }
 
-    aEntityPointer = NULL;
+    if( NULL == aEntityPointer )
+        return false;
+
+    *aEntityPointer = NULL;
     return m_iges->NewEntity( aEntityType, aEntityPointer );
 }
 
@@ -639,7 +642,11 @@ bool DLL_IGES::SetProductID_ReceivingSystem( char const* aProductIDRS )
         return false;
     }
 
-    m_iges->globalData.productIDRS = aProductIDRS;
+    if( NULL == aProductIDRS || 0 == aProductIDRS[0] )
+        m_iges->globalData.productIDRS.clear();
+    else
+        m_iges->globalData.productIDRS = aProductIDRS;
+
     return true;
 }
 
-- 
2.43.0


From 2647c087f9d97738042ba1e0f100693ca2ece885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 24/93] fix: entity whose directory entry refers to itself no
 longer dereferences a null child

---
 src/entities/iges_entity.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index ebce0d3..e9c7cd7 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -500,8 +500,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pStructure->addReference(this, dup) )
+            else if( !pStructure->addReference(this, dup) )
             {
                 if( pStructure->GetEntityType() != 0 )
                 {
@@ -561,8 +560,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLineFontPattern->addReference(this, dup) )
+            else if( !pLineFontPattern->addReference(this, dup) )
             {
                 if( pLineFontPattern->GetEntityType() != 0 )
                 {
@@ -633,8 +631,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLevel->addReference(this, dup) )
+            else if( !pLevel->addReference(this, dup) )
             {
                 if( pLevel->GetEntityType() != 0 )
                 {
@@ -705,8 +702,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pView->addReference(this, dup) )
+            else if( !pView->addReference(this, dup) )
             {
                 if( pView->GetEntityType() != 0 )
                 {
@@ -785,8 +781,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pTransform->addReference(this, dup) )
+            else if( !pTransform->addReference(this, dup) )
             {
                 if( pTransform->GetEntityType() != 0 )
                 {
@@ -856,8 +851,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLabelAssoc->addReference(this, dup) )
+            else if( !pLabelAssoc->addReference(this, dup) )
             {
                 if( pLabelAssoc->GetEntityType() != 0 )
                 {
@@ -928,8 +922,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pColor->addReference(this, dup) )
+            else if( !pColor->addReference(this, dup) )
             {
                 if( pColor->GetEntityType() != 0 )
                 {
-- 
2.43.0


From 971fa0e4952c2f555d582ffe409ad351fb2aaabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 25/93] fix: association withdraws its registration from a
 directory-entry child of the wrong type

---
 src/entities/iges_entity.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index e9c7cd7..fa293ee 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -597,6 +597,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type ";
                     cerr << pLineFontPattern->GetEntityType();
                     cerr << ") is not a LineFont Pattern (304)\n";
+                    pLineFontPattern->delReference(this);
                     pLineFontPattern = NULL;
                     ok = false;
                 }
@@ -668,6 +669,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Definition Levels Property (406-1)\n";
+                    pLevel->delReference(this);
                     pLevel = NULL;
                     ok = false;
                 }
@@ -740,6 +742,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a View or Views Visible Associativity Instance (410 or 402-3/4/19)\n";
+                    pView->delReference(this);
                     pView = NULL;
                     ok = false;
                 }
@@ -817,6 +820,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Transform entity (124)\n";
+                    pTransform->delReference(this);
                     pTransform = NULL;
                     ok = false;
                 }
@@ -888,6 +892,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Label Display Associativity (402-5)\n";
+                    pLabelAssoc->delReference(this);
                     pLabelAssoc = NULL;
                     ok = false;
                 }
@@ -958,6 +963,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Color Definition (314)\n";
+                    pColor->delReference(this);
                     pColor = NULL;
                     ok = false;
                 }
-- 
2.43.0


From d47e97b321917aad534e0d7a345d6ae108d2d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 26/93] fix: entity 108 does not keep a bounding curve it
 failed to register with

---
 src/entities/entity108.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index 73ce090..0bf0c72 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -131,6 +131,7 @@ bool IGES_ENTITY_108::associate(std::vector<IGES_ENTITY *> *entities)
         {
             ERRMSG << "\n + [VIOLATION] Child entity (Type: " << ((*entities)[iEnt])->GetEntityType();
             cerr << ", DE: " << iPtr << ") is not a closed curve\n";
+            PTR = NULL;
             return false;
         }
 
@@ -139,6 +140,7 @@ bool IGES_ENTITY_108::associate(std::vector<IGES_ENTITY *> *entities)
         if( !(*entities)[iEnt]->addReference( this, dup ))
         {
             ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
+            PTR = NULL;
             return false;
         }
 
-- 
2.43.0


From 16d33111460d73ef6d2790b2b66c1e1ac3687459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 27/93] fix: entity 180 holds an operand only once it is
 registered with it

---
 src/entities/entity180.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 330ede9..658835b 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -155,8 +155,6 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
-                (*sn)->pEnt = (*entities)[iEnt];
-
                 if( !(*entities)[iEnt]->addReference(this, dup) )
                 {
                     ERRMSG << "\n + [INFO] unable to add reference to child entity\n";
@@ -169,6 +167,7 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
+                (*sn)->pEnt = (*entities)[iEnt];
             }
             else
             {
-- 
2.43.0


From fc8758bf68af4cb623a8d8518a80534f37a214e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 28/93] fix: entity 180 releases its remaining operands when
 one operand is unlinked

---
 src/entities/entity180.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 658835b..e0127ee 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -312,6 +312,7 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
         if( aChildEntity == ip )
         {
             clear_all = true;
+            delete *rbeg;
             nodes.erase( rbeg );
             break;
         }
@@ -320,9 +321,9 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
     }
 
     if( clear_all )
-        nodes.clear();
+        ClearNodes();
 
-    return true;
+    return clear_all;
 }
 
 
-- 
2.43.0


From 8234355eaf44f0e96d906c35abc0d7ba805753a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 29/93] fix: entity 186 rejects a shell which is listed twice

---
 src/entities/entity186.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index e6390bb..3495057 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -167,6 +167,13 @@ bool IGES_ENTITY_186::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
+            ivoids.clear();
+            return false;
+        }
+
         mvoids.push_back( pair<IGES_ENTITY_514*, bool>( (IGES_ENTITY_514*)ep, sV->second ) );
         ++sV;
     }
-- 
2.43.0


From 02b916a8ccb4e991ac6c86887611cd73ae2ca17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 30/93] fix: entity 510 rejects a loop which is listed twice

---
 src/entities/entity510.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 8d293c9..40eac60 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -145,6 +145,13 @@ bool IGES_ENTITY_510::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
+            iloops.clear();
+            return false;
+        }
+
         mloops.push_back( (IGES_ENTITY_508*)((*entities)[iEnt]) );
         ++sL;
     }
-- 
2.43.0


From d159ed0ae5f172e3b647ffcd87e29ab5c0c82414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 31/93] fix: entity 514 rejects a face which is listed twice

---
 src/entities/entity514.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index 273f5c1..046de67 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -115,6 +115,13 @@ bool IGES_ENTITY_514::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
+            ifaces.clear();
+            return false;
+        }
+
         mfaces.push_back( pair<IGES_ENTITY_510*, bool>( (IGES_ENTITY_510*)ep, sF->second ) );
         ++sF;
     }
-- 
2.43.0


From 18be5468ae09b5b1ba16ae01d7e282dfcc35f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 32/93] fix: entity 144 keeps its registered surface when a
 cutout is listed twice

---
 src/entities/entity144.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index c81e082..109f47d 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -268,7 +268,6 @@ bool IGES_ENTITY_144::associate(std::vector<IGES_ENTITY *> *entities)
         if( dup )
         {
             ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-            PTS = NULL;
             iPTI.clear();
             return false;
         }
-- 
2.43.0


From c03c1ae42c00c8e19f23c465a1b2575369f62df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 33/93] fix: entity 144 releases a cutout which is removed

---
 src/entities/entity144.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index 109f47d..beca97f 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -874,7 +874,9 @@ bool IGES_ENTITY_144::DelPTI( IGES_ENTITY_142* aPtr )
         if( aPtr == *bref )
         {
             PTI.erase( bref );
+            aPtr->delReference(this);
             N2 = (int)PTI.size();
+            vPTI.clear();
             return true;
         }
 
-- 
2.43.0


From 46f403f4fca60330b33ffa809d9454057e806191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 34/93] fix: entity 308 releases an entity which is removed
 from the subfigure

---
 src/entities/entity308.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index bb80639..9698b5c 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -599,7 +599,9 @@ bool IGES_ENTITY_308::DelDE( IGES_ENTITY* aPtr )
         if( aPtr == *bref )
         {
             DE.erase( bref );
+            aPtr->delReference(this);
             N = (int)DE.size();
+            m_DE.clear();
             return true;
         }
 
-- 
2.43.0


From fd7908cd33d642711d4a1f8ecd35983afbfc2d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:51 +0000
Subject: [PATCH 35/93] fix: an optional entity can be removed again, which
 releases it

---
 src/entities/iges_entity.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index fa293ee..2f2de7f 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2902,16 +2902,10 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
 
     int eType = aEntity->GetEntityType();
 
-    if( eType != 402 && eType != 212 && eType != 312 )
+    if( eType != 402 && eType != 406 && eType != 212 && eType != 312 )
     {
         ERRMSG << "\n + [BUG] invalid entity (Type " << eType;
-        cerr << "); only types 402, 212, and 312 are valid.\n";
-        return false;
-    }
-
-    if( !delReference(aEntity) )
-    {
-        ERRMSG << "\n + [INFO] could not delete reference\n";
+        cerr << "); only types 402, 406, 212, and 312 are valid.\n";
         return false;
     }
 
@@ -2923,13 +2917,21 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
         if( *sL == aEntity )
         {
             extras.erase( sL );
+
+            // note: Type 402 is a back-pointer; it holds no reference to this entity
+            if( eType != 402 && !aEntity->delReference( this ) )
+            {
+                ERRMSG << "\n + [INFO] could not delete reference\n";
+                return false;
+            }
+
             return true;
         }
 
         ++sL;
     }
 
-    ERRMSG << "\n + [BUG] reference deleted but no entry found in <extras>\n";
+    ERRMSG << "\n + [BUG] no entry found in <extras>\n";
     return false;
 }
 
-- 
2.43.0


From dab923f5309e64ae68274a72f6b074043e5f4007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:51 +0000
Subject: [PATCH 36/93] fix: entity 510 registers with the loops and the
 surface it is given

---
 src/entities/entity510.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 40eac60..003fa64 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -557,6 +557,20 @@ bool IGES_ENTITY_510::AddBound( IGES_ENTITY_508* aLoop )
     // we may require refcounts for the bound though in principle
     // it should not be necessary to use a boundary more than
     // once
+    bool dup = false;
+
+    if( !aLoop->addReference( this, dup ) )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to loop\n";
+        return false;
+    }
+
+    if( dup )
+    {
+        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+        return false;
+    }
+
     mloops.push_back( aLoop );
 
     if( NULL != parent && parent != aLoop->GetParentIGES() )
@@ -571,6 +585,26 @@ bool IGES_ENTITY_510::SetSurface( IGES_ENTITY* aSurface )
     if( NULL == aSurface )
         return false;
 
+    if( aSurface == msurface )
+        return true;
+
+    bool dup = false;
+
+    if( !aSurface->addReference( this, dup ) )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to surface entity\n";
+        return false;
+    }
+
+    if( dup )
+    {
+        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+        return false;
+    }
+
+    if( msurface )
+        msurface->delReference( this );
+
     msurface = aSurface;
 
     if( NULL != parent && parent != aSurface->GetParentIGES() )
-- 
2.43.0


From 2bd92faacf81f02a0204081a6c22fe96c8bf01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 37/93] fix: removal of a reference terminates when it searches
 the optional entities

---
 src/entities/iges_entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 2f2de7f..eefba6d 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -451,7 +451,7 @@ bool IGES_ENTITY::delReference(IGES_ENTITY *aParentEntity)
             return true;
         }
 
-        ++bref;
+        ++bExt;
     }
 
     return false;
-- 
2.43.0


From 07b62a0d91a6989a62b939b0244ec791c25ca3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 38/93] fix: entity 508 releases its edges and curves when it
 is destroyed

---
 src/entities/entity508.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 144864f..6d44075 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -89,7 +89,7 @@ IGES_ENTITY_508::IGES_ENTITY_508( IGES* aParent ) : IGES_ENTITY( aParent )
 
 IGES_ENTITY_508::~IGES_ENTITY_508()
 {
-    // unlink all PS curves
+    // release all PS curves
     vector< LOOP_DATA* >::iterator sF = edges.begin();
     vector< LOOP_DATA* >::iterator eF = edges.end();
 
@@ -100,7 +100,7 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
         while( sP != eP )
         {
-            (*sP)->curve->unlink(this);
+            (*sP)->curve->delReference(this);
             delete *sP;
             ++sP;
         }
@@ -111,13 +111,13 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
     edges.clear();
 
-    // unlink the edge entities
+    // release the edge entities
     list< pair< IGES_ENTITY*, int > >::iterator sE = redges.begin();
     list< pair< IGES_ENTITY*, int > >::iterator eE = redges.end();
 
     while( sE != eE )
     {
-        sE->first->unlink(this);
+        sE->first->delReference(this);
         ++sE;
     }
 
-- 
2.43.0


From 6aed64ee511c9fd7ac1c7acb1bd8d9a5142072ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 39/93] fix: entity 508 withdraws registrations and drops the
 matching loop data when an edge or curve goes away

---
 src/entities/entity508.cpp | 109 +++++++++++++++++--------------------
 1 file changed, 51 insertions(+), 58 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 6d44075..0b71d38 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -748,59 +748,49 @@ bool IGES_ENTITY_508::addEdge( IGES_ENTITY* aEdge )
 // PCurves should be released
 bool IGES_ENTITY_508::delEdge( IGES_ENTITY* aEdge, bool aFlagAll, bool aFlagUnlink )
 {
-    bool ok = false;    // flag indicates true if the entity has been matched
-
     list<pair<IGES_ENTITY*, int> >::iterator sE = redges.begin();
     list<pair<IGES_ENTITY*, int> >::iterator eE = redges.end();
 
-    while( sE != eE )
-    {
-        IGES_ENTITY* ep = sE->first;
+    while( sE != eE && sE->first != aEdge )
+        ++sE;
 
-        if( aEdge == ep )
-        {
-            ok = true;
+    if( sE == eE )
+        return false;
 
-            if( !aFlagUnlink )
-                ep->delReference(this);
+    if( !aFlagAll && (--sE->second > 0) )
+        return true;
 
-            if( aFlagAll || (--sE->second == 0) )
-            {
-                vector< LOOP_DATA* >::reverse_iterator sF = edges.rbegin();
-                vector< LOOP_DATA* >::reverse_iterator eF = edges.rend();
+    // last reference
+    redges.erase( sE );
 
-                while( sF != eF )
-                {
-                    if( (*sF)->data == ep )
-                    {
-                        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-                        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
-
-                        while( sP != eP )
-                        {
-                            delPCurve( (*sP)->curve, false, false );
-                            delete *sP;
-                            ++sP;
-                        }
-
-                        delete *sF;
-                        --sF;
-                        edges.pop_back();
-                        continue;
-                    }
+    if( !aFlagUnlink )
+        aEdge->delReference(this);
 
-                    ++sF;
-                }
+    vector< LOOP_DATA* >::iterator sF = edges.begin();
 
-                sE = redges.erase( sE );
-                continue;
-            }   // deleted last reference
-        }   // found entity to delete
+    while( sF != edges.end() )
+    {
+        if( (*sF)->data != aEdge )
+        {
+            ++sF;
+            continue;
+        }
 
-        ++sE;
-    }   // searched list of entities
+        vector< LOOP_PAIR* >::iterator sP = (*sF)->pcurves.begin();
+        vector< LOOP_PAIR* >::iterator eP = (*sF)->pcurves.end();
 
-    return ok;
+        while( sP != eP )
+        {
+            (*sP)->curve->delReference(this);
+            delete *sP;
+            ++sP;
+        }
+
+        delete *sF;
+        sF = edges.erase( sF );
+    }
+
+    return true;
 }
 
 
@@ -858,30 +848,32 @@ bool IGES_ENTITY_508::delPCurve( IGES_ENTITY* aCurve, bool aFlagDelEdge, bool aF
 
     while( sF != eF )
     {
-        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
+        vector< LOOP_PAIR* >::iterator sP = (*sF)->pcurves.begin();
+        vector< LOOP_PAIR* >::iterator eP = (*sF)->pcurves.end();
 
         while( sP != eP )
         {
             if( (*sP)->curve == aCurve )
             {
+                if( !aFlagUnlink )
+                    aCurve->delReference(this);
+
+                delete *sP;
+                (*sF)->pcurves.erase( sP );
+
                 if( aFlagDelEdge )
                 {
-                    while( !(*sF)->pcurves.empty() )
-                    {
-                        (*sF)->pcurves.back()->curve->delReference(this);
-                        (*sF)->pcurves.pop_back();
-                    }
+                    LOOP_DATA* ldata = *sF;
+                    edges.erase( sF );
 
-                    delEdge( (*sF)->data, false, false );
-                }
-                else
-                {
-                    if( !aFlagUnlink )
+                    for( sP = ldata->pcurves.begin(); sP != ldata->pcurves.end(); ++sP )
+                    {
                         (*sP)->curve->delReference(this);
+                        delete *sP;
+                    }
 
-                    delete *sP;
-                    (*sF)->pcurves.pop_back();
+                    delEdge( ldata->data, false, false );
+                    delete ldata;
                 }
 
                 return true;
@@ -933,13 +925,14 @@ bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
     {
         if( !addPCurve( (*sP)->curve ) )
         {
+            // withdraw what has been registered so far
             while( sP != aEdge->pcurves.begin() )
             {
-                (*sP)->curve->delReference(this);
                 --sP;
+                (*sP)->curve->delReference(this);
             }
 
-            (*sP)->curve->delReference(this);
+            delEdge( aEdge->data, false, false );
             ERRMSG << "\n +[INFO] could not add pcurve to list\n";
             return false;
         }
-- 
2.43.0


From f0f7a01766a2fa1c00cfdc75fd4d3c373a97806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 40/93] fix: entity 504 does not call back a vertex list which
 is being destroyed

---
 src/entities/entity504.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index b4343d7..ea0e451 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -787,7 +787,10 @@ bool IGES_ENTITY_504::delVertexList( IGES_ENTITY_502* aVertexList, bool aFlagAll
 
             if( aFlagAll || 0 == sV->second )
             {
-                sV->first->delReference(this);
+                // note: aFlagAll means that the Vertex List is being destroyed
+                if( !aFlagAll )
+                    sV->first->delReference(this);
+
                 vertices.erase( sV );
             }
 
-- 
2.43.0


From bfb915c96f30b50df5d871ca45e45e5a032bc9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 41/93] fix: GetNURBSData of entities 126 and 128 stores
 through its result pointers

---
 src/entities/entity126.cpp | 4 ++--
 src/entities/entity128.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 2b93f0e..1350f6e 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -965,8 +965,8 @@ bool IGES_ENTITY_126::GetNURBSData( int& nCoeff, int& order, double** knot,
 {
     nCoeff = 0;
     order =0 ;
-    knot = NULL;
-    coeff = NULL;
+    *knot = NULL;
+    *coeff = NULL;
 
     if( !knots )
         return false;
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index dd99085..419b8a6 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -889,9 +889,9 @@ bool IGES_ENTITY_128::GetNURBSData( int& nCoeff1, int& nCoeff2,
     nCoeff2 = 0;
     order1 = 0 ;
     order2 = 0 ;
-    knot1 = NULL;
-    knot2 = NULL;
-    coeff = NULL;
+    *knot1 = NULL;
+    *knot2 = NULL;
+    *coeff = NULL;
 
     if( !knots1 )
         return false;
-- 
2.43.0


From b0effe2b101cf6898db69b3b6c97f330dd461a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 42/93] fix: checkDate does not look up the days of an invalid
 month

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 50d25a2..b2ac09c 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -196,7 +196,7 @@ static bool checkDate( const std::string aDate )
     if( errno || cp1 == cp0 || (cp1 - cp0) != 2 )
         ok = false;
 
-    if( iday < 1 || iday > mdays[imon -1] )
+    if( iday < 1 || ( ok && iday > mdays[imon -1] ) )
         ok = false;
 
     errno = 0;
-- 
2.43.0


From 6b1bc1d58aec669e5ef23c930a8ab19a6bbed06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 43/93] fix: checkDate checks the seconds rather than the
 minutes twice

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index b2ac09c..fd1ee5b 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -227,7 +227,7 @@ static bool checkDate( const std::string aDate )
         ok = false;
 
     // note: using '60' ensures we allow leap seconds
-    if( isec < 0 || imin > 60 )
+    if( isec < 0 || isec > 60 )
         ok = false;
 
     return ok;
-- 
2.43.0


From d003b9c22ab96c85ec44ade7b77f506013c464a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 44/93] fix: an empty modification date is its default, not an
 error

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index fd1ee5b..8a9cbd4 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1505,7 +1505,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
             return false;
         }
 
-        if( !checkDate( globalData.modificationDate ) )
+        if( !globalData.modificationDate.empty() && !checkDate( globalData.modificationDate ) )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid modification date '";
             cerr << globalData.modificationDate << "'\n";
-- 
2.43.0


From 7dbd8b97f22b291f7b94c45a43e38d861e248a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 45/93] fix: GetUnitName returns the name of the current unit

---
 src/iges/iges.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 8a9cbd4..be77261 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2673,5 +2673,8 @@ void IGES::GetNewAssemblyName( std::string& name )
 
 const char* IGES::GetUnitName( void )
 {
-    return UNIT_NAMES[globalData.unitsFlag].c_str();
+    if( globalData.unitsFlag == UNIT_EXTERN )
+        return globalData.unitsName.c_str();
+
+    return UNIT_NAMES[globalData.unitsFlag - UNIT_START].c_str();
 }
-- 
2.43.0


From 1a29c7b621898b4de09a9e92554272e5af13d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 46/93] fix: ConvertUnits refuses values which are not units

---
 src/iges/iges.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index be77261..5d28093 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1804,6 +1804,12 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
         return false;
     }
 
+    if( newUnit < UNIT_START || newUnit >= UNIT_END )
+    {
+        ERRMSG << "\n + [INFO] cannot convert units; no such unit\n";
+        return false;
+    }
+
     double cf;
 
     // + Calculate a scale factor to convert units.
-- 
2.43.0


From eaa60d658d86b38a3946d25218d87ef44336e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 47/93] fix: the length check of Hollerith strings does not
 overflow

---
 src/iges/iges_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 8a53908..59afadf 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -278,7 +278,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
         return false;
     }
 
-    if( idx + i >= (int)data.length() )
+    if( i >= (int)data.length() - idx )
     {
         ERRMSG << "\n + [BAD DATA]: invalid Hollerith string length (" << i << ")\n";
         cerr << " + requested string length exceeds record length\n";
-- 
2.43.0


From 761ace4528fffa14c1c144ab55a6d88aee42e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 48/93] fix: GetDEList of the API of entity 308 has no list to
 return while there are no DEs

---
 src/dllapi/dll_entity308.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dllapi/dll_entity308.cpp b/src/dllapi/dll_entity308.cpp
index 5fabaa0..d2cf0bd 100644
--- a/src/dllapi/dll_entity308.cpp
+++ b/src/dllapi/dll_entity308.cpp
@@ -131,6 +131,13 @@ bool DLL_IGES_ENTITY_308::GetDEList( size_t& aDESize, IGES_ENTITY**& aDEList )
     }
 
     aDESize = pvDE->size();
+
+    if( pvDE->empty() )
+    {
+        aDEList = NULL;
+        return false;
+    }
+
     aDEList = &((*pvDE)[0]);
     return true;
 }
-- 
2.43.0


From 71d50386074e11e10851b7404758528b20d17fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 49/93] fix: GetBounds of entity 510 returns when there are no
 bounds

---
 src/entities/entity510.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 003fa64..bc97827 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -540,6 +540,7 @@ bool IGES_ENTITY_510::GetBounds( size_t& aListSize, IGES_ENTITY_508**& aBoundsLi
     {
         aListSize = 0;
         aBoundsList = NULL;
+        return false;
     }
 
     aListSize = mloops.size();
-- 
2.43.0


From 1594e81ee941df1cd14854cd491cf02a56c19c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 50/93] fix: an empty IDF outline is not a circle

---
 src/idf/idf_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_common.cpp b/src/idf/idf_common.cpp
index 40a285a..652b699 100644
--- a/src/idf/idf_common.cpp
+++ b/src/idf/idf_common.cpp
@@ -1317,7 +1317,7 @@ bool IDF_OUTLINE::IsCCW( void )
 // returns true if the outline is a circle
 bool IDF_OUTLINE::IsCircle( void )
 {
-    if( outline.front()->IsCircle() )
+    if( !outline.empty() && outline.front()->IsCircle() )
         return true;
 
     return false;
-- 
2.43.0


From 380cc8b0279af52b27c7fc7304f1f29418abdaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 51/93] fix: entities 122, 180, 504 and 508 refuse NULL
 children

---
 src/entities/entity122.cpp | 6 ++++++
 src/entities/entity180.cpp | 6 ++++++
 src/entities/entity504.cpp | 6 ++++++
 src/entities/entity508.cpp | 8 +++++++-
 4 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity122.cpp b/src/entities/entity122.cpp
index 1a09e04..da2d4b6 100644
--- a/src/entities/entity122.cpp
+++ b/src/entities/entity122.cpp
@@ -397,6 +397,12 @@ bool IGES_ENTITY_122::GetDE( IGES_CURVE*& aPtr )
 
 bool IGES_ENTITY_122::SetDE( IGES_CURVE* aPtr )
 {
+    if( NULL == aPtr )
+    {
+        ERRMSG << "\n + [BUG] NULL pointer passed for curve\n";
+        return false;
+    }
+
     if( DE )
     {
         DE->delReference(this);
diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index e0127ee..ac7d99d 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -582,6 +582,12 @@ bool IGES_ENTITY_180::AddOp( BTREE_OPERATOR op )
 
 bool IGES_ENTITY_180::AddArg( IGES_ENTITY* aOperand )
 {
+    if( NULL == aOperand )
+    {
+        ERRMSG << "\n + [BUG] NULL pointer passed for operand\n";
+        return false;
+    }
+
     int iEnt = aOperand->GetEntityType();
 
     if( !typeOK( iEnt ) )
diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index ea0e451..71eb4f2 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -590,6 +590,12 @@ bool IGES_ENTITY_504::AddEdge( IGES_ENTITY* aCurve,
                                IGES_ENTITY_502* aSVP, int aSV,
                                IGES_ENTITY_502* aTVP, int aTV )
 {
+    if( NULL == aCurve || NULL == aSVP || NULL == aTVP )
+    {
+        ERRMSG << "\n + [BUG] NULL pointer passed for edge\n";
+        return false;
+    }
+
     if( !addCurve( aCurve ) )
     {
         ERRMSG << "\n + [INFO] could not add curve to entity list\n";
diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 0b71d38..b68509b 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -797,6 +797,12 @@ bool IGES_ENTITY_508::delEdge( IGES_ENTITY* aEdge, bool aFlagAll, bool aFlagUnli
 // add a parent reference to a parameter space curve and ensure no duplicates
 bool IGES_ENTITY_508::addPCurve( IGES_ENTITY* aCurve )
 {
+    if( NULL == aCurve )
+    {
+        ERRMSG << "\n + [BUG] NULL pointer passed for PS curve\n";
+        return false;
+    }
+
     vector< LOOP_DATA* >::iterator sF = edges.begin();
     vector< LOOP_DATA* >::iterator eF = edges.end();
 
@@ -906,7 +912,7 @@ bool IGES_ENTITY_508::GetLoopData( size_t aListSize, LOOP_DATA**& aEdgeList )
 
 bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
 {
-    if( NULL == aEdge->data )
+    if( NULL == aEdge || NULL == aEdge->data )
     {
         ERRMSG << "\n +[BUG] NULL pointer passed for edge\n";
         return false;
-- 
2.43.0


From 50eb7562747539363f0795094424b1958cf74854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 52/93] fix: IGES_GEOM_PCB refuses NULL models and segments

---
 src/geom/iges_geom_pcb.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/geom/iges_geom_pcb.cpp b/src/geom/iges_geom_pcb.cpp
index 3314411..8ceb3f9 100644
--- a/src/geom/iges_geom_pcb.cpp
+++ b/src/geom/iges_geom_pcb.cpp
@@ -298,6 +298,13 @@ bool IGES_GEOM_PCB::GetTrimmedPlane( IGES* aModel, bool& error,
                       std::vector<IGES_ENTITY_144*>& aSurface,
                       double aHeight, bool aReverse )
 {
+    if( NULL == aModel )
+    {
+        ERRMSG << "\n + [ERROR] null pointer passed for IGES model\n";
+        error = true;
+        return false;
+    }
+
     error = false;
 
     calcBoundingBox();
@@ -925,6 +932,12 @@ IGES_ENTITY_144* IGES_GEOM_PCB::getUntrimmedPlane( IGES* aModel, double aHeight,
 bool IGES_GEOM_PCB::GetCurves( IGES* aModel, std::list<IGES_CURVE*>& aCurves,
     double zHeight, MCAD_SEGMENT* aSegment )
 {
+    if( NULL == aModel || NULL == aSegment )
+    {
+        ERRMSG << "\n + [ERROR] null pointer passed for IGES model or segment\n";
+        return false;
+    }
+
     bool ok;
 
     switch( aSegment->GetSegType() )
@@ -959,6 +972,12 @@ bool IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel, std::list<IGES_ENTITY_126*>&
                                           double aMinX, double aMaxX, double aMinY, double aMaxY,
                                           double zHeight, MCAD_SEGMENT* aSegment, bool aReverse )
 {
+    if( NULL == aModel || NULL == aSegment )
+    {
+        ERRMSG << "\n + [ERROR] null pointer passed for IGES model or segment\n";
+        return false;
+    }
+
     double scale = 1.0 / ( aMaxX - aMinX ); // scale factor (must be same for X and Y axes)
     bool ok;
 
@@ -1000,9 +1019,9 @@ bool IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel, std::list<IGES_ENTITY_126*>&
 bool IGES_GEOM_PCB::GetSegmentWall( IGES* aModel, std::vector<IGES_ENTITY_144*>& aSurface,
     double aTopZ, double aBotZ, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( !aModel )
+    if( !aModel || !aSegment )
     {
-        ERRMSG << "\n + [ERROR] null pointer passed for IGES model\n";
+        ERRMSG << "\n + [ERROR] null pointer passed for IGES model or segment\n";
         return false;
     }
 
-- 
2.43.0


From 7a0b1b96269172345af83dba57323c2e1ca7369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 53/93] fix: PrintSeg has nothing to print for a NULL segment

---
 src/geom/mcad_outline.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index b7c11d5..b8e84ef 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -51,6 +51,9 @@ void MCAD_OUTLINE::PrintPoint( MCAD_POINT p0 )
 
 void MCAD_OUTLINE::PrintSeg( MCAD_SEGMENT* seg )
 {
+    if( NULL == seg )
+        return;
+
     cerr << "      type: ";
 
     switch( seg->GetSegType() )
-- 
2.43.0


From 510eafd59e6458bfc9e6aabb312a85784e2a8f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 54/93] fix: 102/120 associate: report a child which cannot be
 associated

---
 src/entities/entity102.cpp | 4 +++-
 src/entities/entity120.cpp | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity102.cpp b/src/entities/entity102.cpp
index 4bf0a51..788c514 100644
--- a/src/entities/entity102.cpp
+++ b/src/entities/entity102.cpp
@@ -156,7 +156,9 @@ bool IGES_ENTITY_102::associate(std::vector<IGES_ENTITY *> *entities)
         else if( !dup )
         {
             curves.push_back( cp );
-            ((*entities)[iEnt])->associate(entities);
+
+            if( !((*entities)[iEnt])->associate(entities) )
+                ok = false;
         }
         else
         {
diff --git a/src/entities/entity120.cpp b/src/entities/entity120.cpp
index 8e93a48..55276e4 100644
--- a/src/entities/entity120.cpp
+++ b/src/entities/entity120.cpp
@@ -102,6 +102,7 @@ bool IGES_ENTITY_120::associate(std::vector<IGES_ENTITY *> *entities)
         {
             L = NULL;
             ERRMSG << "\n + [INFO] could not associate line entity with DE " << iL << "\n";
+            return false;
         }
 
         if( dup )
@@ -134,6 +135,7 @@ bool IGES_ENTITY_120::associate(std::vector<IGES_ENTITY *> *entities)
         {
             C = NULL;
             ERRMSG << "\n + [INFO] could not associate curve (generatrix) with DE " << iC << "\n";
+            return false;
         }
 
         if( dup )
-- 
2.43.0


From 1a795e89350ef684e675e32fa28a184eab5b532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 55/93] fix: IGES::Export: fail if the model cannot be brought
 to the scale and units of the new parent

---
 src/iges/iges.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 5d28093..fbbb6fe 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2422,11 +2422,17 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     double pms = newParent->globalData.modelScale;
     IGES_UNIT pUF = newParent->globalData.unitsFlag;
 
-    if( globalData.modelScale != pms )
-        ChangeModelScale( pms );
+    if( globalData.modelScale != pms && !ChangeModelScale( pms ) )
+    {
+        ERRMSG << "\n + [INFO] could not match the model scale of the new parent\n";
+        return false;
+    }
 
-    if( globalData.unitsFlag != pUF )
-        ConvertUnits( pUF );
+    if( globalData.unitsFlag != pUF && !ConvertUnits( pUF ) )
+    {
+        ERRMSG << "\n + [INFO] could not match the units of the new parent\n";
+        return false;
+    }
 
     size_t nEnt = entities.size();
 
-- 
2.43.0


From b2c73ec8761cbc0d5ec64edda8f363bc8e6b8e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 56/93] fix: IGES::Read: leave no partial model behind when
 associations fail

---
 src/iges/iges.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index fbbb6fe..34b8dc8 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -609,6 +609,7 @@ bool IGES::Read( const char* aFileName )
         if( !entities[iEnt]->associate(&entities) )
         {
             ERRMSG << "\n + [INFO] could not establish file associations\n";
+            Clear();
             return false;
         }
     }
-- 
2.43.0


From 00ecfcda981913e9d5c4b93cac0e7944f5153de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 57/93] fix: IGES::Read: fail when an entity cannot be
 converted to the model's units

---
 src/iges/iges.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 34b8dc8..81e557e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -614,13 +614,23 @@ bool IGES::Read( const char* aFileName )
         }
     }
 
+    Cull();
+
     if( globalData.convert )
     {
+        nEnt = entities.size();
+
         for( iEnt = 0; iEnt < nEnt; ++iEnt )
-            entities[iEnt]->rescale( globalData.cf );
+        {
+            if( !entities[iEnt]->rescale( globalData.cf ) )
+            {
+                ERRMSG << "\n + [INFO] could not convert units\n";
+                Clear();
+                return false;
+            }
+        }
     }
 
-    Cull();
     return true;
 }
 
-- 
2.43.0


From f0872c51dabb9591512b734a83f87be66720f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 58/93] fix: IGES::Write: report data which could not be
 written when the file is closed

---
 src/iges/iges.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 81e557e..49d5065 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -820,14 +820,15 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     oline += tmp;
     oline += "\n";
     file << oline;
+    file.close();
 
+    // data may still have been in the stream's buffer, so check only after closing
     if( file.fail() )
     {
-        file.close();
+        ERRMSG << "\n + [INFO] could not write file\n";
         return false;
     }
 
-    file.close();
     return true;
 }
 
-- 
2.43.0


From f11aaf7f2186709857dce773b780d23ca3891422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 59/93] fix: format(): fail when a parameter cannot be placed
 on a parameter data line

---
 src/entities/entity100.cpp   | 42 +++++++++++++++++++----
 src/entities/entity102.cpp   |  6 +++-
 src/entities/entity104.cpp   | 12 +++++--
 src/entities/entity108.cpp   | 54 ++++++++++++++++++++++++-----
 src/entities/entity110.cpp   |  6 +++-
 src/entities/entity120.cpp   | 12 +++++--
 src/entities/entity122.cpp   |  6 +++-
 src/entities/entity124.cpp   | 12 +++++--
 src/entities/entity126.cpp   | 60 ++++++++++++++++++++++++++------
 src/entities/entity128.cpp   | 66 ++++++++++++++++++++++++++++++------
 src/entities/entity142.cpp   |  6 +++-
 src/entities/entity144.cpp   | 12 +++++--
 src/entities/entity154.cpp   |  6 +++-
 src/entities/entity164.cpp   | 12 +++++--
 src/entities/entity180.cpp   |  6 +++-
 src/entities/entity186.cpp   | 18 ++++++++--
 src/entities/entity308.cpp   | 12 +++++--
 src/entities/entity314.cpp   | 18 ++++++++--
 src/entities/entity408.cpp   |  6 +++-
 src/entities/entity502.cpp   | 12 +++++--
 src/entities/entity504.cpp   | 12 +++++--
 src/entities/entity508.cpp   | 42 +++++++++++++++++++----
 src/entities/entity510.cpp   | 12 +++++--
 src/entities/entity514.cpp   | 24 ++++++++++---
 src/entities/iges_entity.cpp | 42 +++++++++++++++++++----
 25 files changed, 430 insertions(+), 86 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index d95b177..921de0e 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -116,7 +116,11 @@ bool IGES_ENTITY_100::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tStr, xCenter, pd, uir ) )
     {
@@ -125,7 +129,11 @@ bool IGES_ENTITY_100::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tStr, yCenter, pd, uir ) )
     {
@@ -134,7 +142,11 @@ bool IGES_ENTITY_100::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tStr, xStart, pd, uir ) )
     {
@@ -143,7 +155,11 @@ bool IGES_ENTITY_100::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tStr, yStart, pd, uir ) )
     {
@@ -152,7 +168,11 @@ bool IGES_ENTITY_100::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tStr, xEnd, pd, uir ) )
     {
@@ -161,7 +181,11 @@ bool IGES_ENTITY_100::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     // note: 2 sets of OPTIONAL parameters may exist at the end of
     // any PD; see p.32/60+ for details; if optional parameters
@@ -181,7 +205,11 @@ bool IGES_ENTITY_100::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !extras.empty() && !formatExtraParams( fStr, index, pd, rd ) )
     {
diff --git a/src/entities/entity102.cpp b/src/entities/entity102.cpp
index 788c514..ce917d2 100644
--- a/src/entities/entity102.cpp
+++ b/src/entities/entity102.cpp
@@ -365,7 +365,11 @@ bool IGES_ENTITY_102::format( int &index )
 
         tstr = ostr.str();
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
     }
 
     if( !extras.empty() && !formatExtraParams( lstr, index, pd, rd ) )
diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 58fd361..2a30155 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -183,7 +183,11 @@ bool IGES_ENTITY_104::format( int &index )
             return false;
         }
 
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
     }
 
     // note: 2 sets of OPTIONAL parameters may exist at the end of
@@ -204,7 +208,11 @@ bool IGES_ENTITY_104::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !extras.empty() && !formatExtraParams( fStr, index, pd, rd ) )
     {
diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index 0bf0c72..e670de8 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -212,7 +212,11 @@ bool IGES_ENTITY_108::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tStr, B, pd, uir ) )
     {
@@ -220,7 +224,11 @@ bool IGES_ENTITY_108::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tStr, C, pd, uir ) )
     {
@@ -228,7 +236,11 @@ bool IGES_ENTITY_108::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tStr, D, pd, uir ) )
     {
@@ -236,7 +248,11 @@ bool IGES_ENTITY_108::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if (NULL != PTR)
     {
@@ -251,7 +267,11 @@ bool IGES_ENTITY_108::format( int &index )
         tStr = ostr.str();
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tStr, X, pd, uir ) )
     {
@@ -259,7 +279,11 @@ bool IGES_ENTITY_108::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tStr, Y, pd, uir ) )
     {
@@ -267,7 +291,11 @@ bool IGES_ENTITY_108::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tStr, Z, pd, uir ) )
     {
@@ -275,7 +303,11 @@ bool IGES_ENTITY_108::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     char idelim;
 
@@ -290,7 +322,11 @@ bool IGES_ENTITY_108::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !extras.empty() && !formatExtraParams( fStr, index, pd, rd ) )
     {
diff --git a/src/entities/entity110.cpp b/src/entities/entity110.cpp
index 10764c5..4079fc7 100644
--- a/src/entities/entity110.cpp
+++ b/src/entities/entity110.cpp
@@ -118,7 +118,11 @@ bool IGES_ENTITY_110::format( int &index )
             }
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
     }
 
diff --git a/src/entities/entity120.cpp b/src/entities/entity120.cpp
index 55276e4..8b0ae8a 100644
--- a/src/entities/entity120.cpp
+++ b/src/entities/entity120.cpp
@@ -196,7 +196,11 @@ bool IGES_ENTITY_120::format( int &index )
         return false;
     }
 
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( extras.empty() )
     {
@@ -215,7 +219,11 @@ bool IGES_ENTITY_120::format( int &index )
         }
     }
 
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !extras.empty() && !formatExtraParams( lstr, index, pd, rd ) )
     {
diff --git a/src/entities/entity122.cpp b/src/entities/entity122.cpp
index da2d4b6..d2f1eca 100644
--- a/src/entities/entity122.cpp
+++ b/src/entities/entity122.cpp
@@ -173,7 +173,11 @@ bool IGES_ENTITY_122::format( int &index )
             }
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
     }
 
diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 6a75fba..90cb649 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -166,7 +166,11 @@ bool IGES_ENTITY_124::format( int &index )
                 return false;
             }
 
-            AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+            if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+            {
+                pdout.clear();
+                return false;
+            }
         }
 
         if( i == 2 && extras.empty() )
@@ -188,7 +192,11 @@ bool IGES_ENTITY_124::format( int &index )
             }
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
     }
 
diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 1350f6e..ea8f790 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -190,7 +190,11 @@ bool IGES_ENTITY_126::format( int &index )
             return false;
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
     }
 
     double tD = 1.0;
@@ -207,7 +211,11 @@ bool IGES_ENTITY_126::format( int &index )
         }
 
         j += 3;
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
     }
 
     for( int i = 0, j = 0; i < nCoeffs; ++i )
@@ -218,7 +226,11 @@ bool IGES_ENTITY_126::format( int &index )
             return false;
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
         if( !FormatPDREal( tstr, coeffs[j++], pd, uir ) )
         {
@@ -226,7 +238,11 @@ bool IGES_ENTITY_126::format( int &index )
             return false;
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
         if( !FormatPDREal( tstr, coeffs[j++], pd, uir ) )
         {
@@ -237,7 +253,11 @@ bool IGES_ENTITY_126::format( int &index )
         if( 0 == PROP3 )
             ++j;
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
     }
 
     if( !FormatPDREal( tstr, V0, pd, uir ) )
@@ -246,7 +266,11 @@ bool IGES_ENTITY_126::format( int &index )
         return false;
     }
 
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tstr, V1, pd, uir ) )
     {
@@ -254,7 +278,11 @@ bool IGES_ENTITY_126::format( int &index )
         return false;
     }
 
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tstr, vnorm.x, pd, uir ) )
     {
@@ -262,7 +290,11 @@ bool IGES_ENTITY_126::format( int &index )
         return false;
     }
 
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tstr, vnorm.y, pd, uir ) )
     {
@@ -270,7 +302,11 @@ bool IGES_ENTITY_126::format( int &index )
         return false;
     }
 
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     char tc = rd;
 
@@ -283,7 +319,11 @@ bool IGES_ENTITY_126::format( int &index )
         return false;
     }
 
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !extras.empty() && !formatExtraParams( lstr, index, pd, rd ) )
     {
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index 419b8a6..e49b795 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -221,7 +221,11 @@ bool IGES_ENTITY_128::format( int &index )
             return false;
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
     }
 
     for( int i = 0; i < nKnots2; ++i )
@@ -232,7 +236,11 @@ bool IGES_ENTITY_128::format( int &index )
             return false;
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
     }
 
     if( 0 == PROP3 )
@@ -245,7 +253,11 @@ bool IGES_ENTITY_128::format( int &index )
                 return false;
             }
 
-            AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+            if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+            {
+                pdout.clear();
+                return false;
+            }
         }
 
     }
@@ -261,7 +273,11 @@ bool IGES_ENTITY_128::format( int &index )
                 return false;
             }
 
-            AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+            if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+            {
+                pdout.clear();
+                return false;
+            }
         }
     }
 
@@ -273,7 +289,11 @@ bool IGES_ENTITY_128::format( int &index )
             return false;
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
         if( !FormatPDREal( tstr, coeffs[j++], pd, uir ) )
         {
@@ -281,7 +301,11 @@ bool IGES_ENTITY_128::format( int &index )
             return false;
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
         if( !FormatPDREal( tstr, coeffs[j++], pd, uir ) )
         {
@@ -289,7 +313,11 @@ bool IGES_ENTITY_128::format( int &index )
             return false;
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
         if( 0 == PROP3 )
             ++j;
@@ -301,7 +329,11 @@ bool IGES_ENTITY_128::format( int &index )
         return false;
     }
 
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tstr, U1, pd, uir ) )
     {
@@ -309,7 +341,11 @@ bool IGES_ENTITY_128::format( int &index )
         return false;
     }
 
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tstr, V0, pd, uir ) )
     {
@@ -317,7 +353,11 @@ bool IGES_ENTITY_128::format( int &index )
         return false;
     }
 
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     char tc = rd;
 
@@ -330,7 +370,11 @@ bool IGES_ENTITY_128::format( int &index )
         return false;
     }
 
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !extras.empty() && !formatExtraParams( lstr, index, pd, rd ) )
     {
diff --git a/src/entities/entity142.cpp b/src/entities/entity142.cpp
index 83c99f8..3231036 100644
--- a/src/entities/entity142.cpp
+++ b/src/entities/entity142.cpp
@@ -264,7 +264,11 @@ bool IGES_ENTITY_142::format( int &index )
         ostr << PREF << pd;
 
     tstr = ostr.str();
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !extras.empty() && !formatExtraParams( lstr, index, pd, rd ) )
     {
diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index beca97f..fd15faf 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -338,7 +338,11 @@ bool IGES_ENTITY_144::format( int &index )
         ostr << iPTO << pd;
 
     tstr = ostr.str();
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     int seqPTI;
 
@@ -360,7 +364,11 @@ bool IGES_ENTITY_144::format( int &index )
                 ostr << seqPTI << pd;
 
             tstr = ostr.str();
-            AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+            if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+            {
+                pdout.clear();
+                return false;
+            }
         }
     }
 
diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index 197c3f1..c7129a5 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -132,7 +132,11 @@ bool IGES_ENTITY_154::format( int &index )
             }
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
     }
 
diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index eac03ad..9289653 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -167,7 +167,11 @@ bool IGES_ENTITY_164::format( int &index )
     ostr << PTR->getDESequence() << pd;
     tstr = ostr.str();
 
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     double* pt[4] = { &L, &I1, &J1, &K1 };
 
@@ -192,7 +196,11 @@ bool IGES_ENTITY_164::format( int &index )
             }
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
     }
 
diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index ac7d99d..975824a 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -256,7 +256,11 @@ bool IGES_ENTITY_180::format( int &index )
 
         tstr = ostr.str();
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
     }
 
     if( (nArg -1) != nOp )
diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index 3495057..3702313 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -231,7 +231,11 @@ bool IGES_ENTITY_186::format( int &index )
         ostr << mvoids.size() << pd;
 
     tStr = ostr.str();
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     list<pair<IGES_ENTITY_514*, bool> >::iterator sV = mvoids.begin();
     list<pair<IGES_ENTITY_514*, bool> >::iterator eV = mvoids.end();
@@ -242,7 +246,11 @@ bool IGES_ENTITY_186::format( int &index )
         ostr.str("");
         ostr << sV->first->getDESequence() << pd;
         tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
         ostr.str("");
 
@@ -257,7 +265,11 @@ bool IGES_ENTITY_186::format( int &index )
             ostr << pd;
 
         tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
         ++sV;
     }
 
diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index 9698b5c..1abfc61 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -183,7 +183,11 @@ bool IGES_ENTITY_308::format( int &index )
     ostr.str("");
     ostr << N << pd;
     tstr = ostr.str();
-    AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     int tEnt;
 
@@ -203,7 +207,11 @@ bool IGES_ENTITY_308::format( int &index )
             ostr << tEnt << pd;
 
         tstr = ostr.str();
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
     }
 
     if( !extras.empty() && !formatExtraParams( lstr, index, pd, rd ) )
diff --git a/src/entities/entity314.cpp b/src/entities/entity314.cpp
index 071d30c..8430a76 100644
--- a/src/entities/entity314.cpp
+++ b/src/entities/entity314.cpp
@@ -175,7 +175,11 @@ bool IGES_ENTITY_314::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !FormatPDREal( tStr, green, pd, 0.1 ) )
     {
@@ -184,7 +188,11 @@ bool IGES_ENTITY_314::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     char idelim;
 
@@ -207,7 +215,11 @@ bool IGES_ENTITY_314::format( int &index )
         return false;
     }
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !cname.empty() || !extras.empty() )
     {
diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index 554d174..b964fd4 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -182,7 +182,11 @@ bool IGES_ENTITY_408::format( int &index )
             }
         }
 
-        AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
     }
 
     if( !extras.empty() && !formatExtraParams( lstr, index, pd, rd ) )
diff --git a/src/entities/entity502.cpp b/src/entities/entity502.cpp
index 62a1518..969dd36 100644
--- a/src/entities/entity502.cpp
+++ b/src/entities/entity502.cpp
@@ -109,7 +109,11 @@ bool IGES_ENTITY_502::format( int &index )
                 return false;
             }
 
-            AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+            if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+            {
+                pdout.clear();
+                return false;
+            }
         }
 
         ++acc;
@@ -139,7 +143,11 @@ bool IGES_ENTITY_502::format( int &index )
             return false;
         }
 
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
     }
 
     if( !extras.empty() && !formatExtraParams( fStr, index, pd, rd ) )
diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 71eb4f2..f005b45 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -215,7 +215,11 @@ bool IGES_ENTITY_504::format( int &index )
         ostr << sV->tv << pd;
         tStr = ostr.str();
 
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
         ++acc;
         ++sV;
@@ -247,7 +251,11 @@ bool IGES_ENTITY_504::format( int &index )
     ostr << sV->tv << idelim;
     tStr = ostr.str();
 
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !extras.empty() && !formatExtraParams( fStr, index, pd, rd ) )
     {
diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index b68509b..67f6e1f 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -256,19 +256,31 @@ bool IGES_ENTITY_508::format( int &index )
             ostr << "0" << pd;
 
         tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
         // edge(n)
         ostr.str("");
         ostr << (*sV)->data->getDESequence() << pd;
         tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
         // idx(n)
         ostr.str("");
         ostr << (*sV)->idx << pd;
         tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
         // OF(n)
         ostr.str("");
@@ -279,7 +291,11 @@ bool IGES_ENTITY_508::format( int &index )
             ostr << "0" << pd;
 
         tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
         // K(n)
         ostr.str("");
@@ -290,7 +306,11 @@ bool IGES_ENTITY_508::format( int &index )
             ostr << (*sV)->pcurves.size() << pd;
 
         tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
         // write out PS curve data
         vector< LOOP_PAIR* >::iterator sP = (*sV)->pcurves.begin();
@@ -307,7 +327,11 @@ bool IGES_ENTITY_508::format( int &index )
                 ostr << "0" << pd;
 
             tStr = ostr.str();
-            AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+            if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+            {
+                pdout.clear();
+                return false;
+            }
 
             // CURV(n, k)
             ostr.str("");
@@ -318,7 +342,11 @@ bool IGES_ENTITY_508::format( int &index )
                 ostr << (*sP)->curve->getDESequence() << pd;
 
             tStr = ostr.str();
-            AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+            if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+            {
+                pdout.clear();
+                return false;
+            }
 
             ++sP;
         }
diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index bc97827..6b25a79 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -210,7 +210,11 @@ bool IGES_ENTITY_510::format( int &index )
         ostr.str("");
         ostr << (*sL)->getDESequence() << pd;
         tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
         ++sL;
     }
 
@@ -224,7 +228,11 @@ bool IGES_ENTITY_510::format( int &index )
     ostr.str("");
     ostr << (*sL)->getDESequence() << idelim;
     tStr = ostr.str();
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !extras.empty() && !formatExtraParams( fStr, index, pd, rd ) )
     {
diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index 046de67..ba05431 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -173,7 +173,11 @@ bool IGES_ENTITY_514::format( int &index )
         ostr.str("");
         ostr << sF->first->getDESequence() << pd;
         tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
         ostr.str("");
 
         if( sF->second )
@@ -182,14 +186,22 @@ bool IGES_ENTITY_514::format( int &index )
             ostr << "0" << pd;
 
         tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
         ++sF;
     }
 
     ostr.str("");
     ostr << sF->first->getDESequence() << pd;
     tStr = ostr.str();
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
     ostr.str("");
 
     char idelim;
@@ -207,7 +219,11 @@ bool IGES_ENTITY_514::format( int &index )
         ostr << "0" << idelim;
 
     tStr = ostr.str();
-    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    if( !AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     if( !extras.empty() && !formatExtraParams( fStr, index, pd, rd ) )
     {
diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index eefba6d..947362c 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2704,7 +2704,11 @@ bool IGES_ENTITY::formatExtraParams( std::string& fStr,int& pdSeq, char pd, char
     if( secA.empty() )
     {
         tstr = pd;
-        AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
     }
     else
     {
@@ -2718,14 +2722,22 @@ bool IGES_ENTITY::formatExtraParams( std::string& fStr,int& pdSeq, char pd, char
         ostr.str("");
         ostr << secA.size() << pd;
         tstr = ostr.str();
-        AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
 
         while( sSec != eSec )
         {
             ostr.str("");
             ostr << *sSec << pd;
             tstr = ostr.str();
-            AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd );
+            if( !AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd ) )
+            {
+                pdout.clear();
+                return false;
+            }
             ++sSec;
         }
 
@@ -2734,7 +2746,11 @@ bool IGES_ENTITY::formatExtraParams( std::string& fStr,int& pdSeq, char pd, char
             ostr.str("");
             ostr << *sSec << rd;
             tstr = ostr.str();
-            AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd );
+            if( !AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd ) )
+            {
+                pdout.clear();
+                return false;
+            }
             return true;
         }
     }
@@ -2746,21 +2762,33 @@ bool IGES_ENTITY::formatExtraParams( std::string& fStr,int& pdSeq, char pd, char
     ostr.str("");
     ostr << secB.size() << pd;
     tstr = ostr.str();
-    AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     while( sSec != eSec )
     {
         ostr.str("");
         ostr << *sSec << pd;
         tstr = ostr.str();
-        AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd );
+        if( !AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd ) )
+        {
+            pdout.clear();
+            return false;
+        }
         ++sSec;
     }
 
     ostr.str("");
     ostr << *sSec << rd;
     tstr = ostr.str();
-    AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd );
+    if( !AddPDItem( tstr, fStr, pdout, pdSeq, sequenceNumber, pd, rd ) )
+    {
+        pdout.clear();
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 66e2ecea966fb3eda2edd8c64fb3b0a5abfaa662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 60/93] fix: ParseInt/ParseHString: reject numbers which do not
 fit an int instead of truncating them

---
 src/iges/iges_io.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 59afadf..e7fe920 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -26,6 +26,7 @@
 
 #include <cstdlib>
 #include <cerrno>
+#include <climits>
 #include <iostream>
 #include <iomanip>
 #include <fstream>
@@ -251,15 +252,18 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
     char* rp;
 
     errno = 0;
-    int i = strtol( cp, &rp, 10 );
+    long val = strtol( cp, &rp, 10 );
 
-    if( errno || cp == rp )
+    // note: where 'long' is wider than 'int' errno only covers the former
+    if( errno || cp == rp || val < INT_MIN || val > INT_MAX )
     {
         ERRMSG << "\n + [BAD DATA]: invalid Hollerith string\n";
         cerr << "Data: " << cp << "\n";
         return false;
     }
 
+    int i = (int)val;
+
 	idx += (int)(rp - cp);
 
     if( data[idx] != 'H' )
@@ -396,15 +400,18 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
     char* rp;
 
     errno = 0;
-    int i = strtol( cp, &rp, 10 );
+    long val = strtol( cp, &rp, 10 );
 
-    if( errno || cp == rp )
+    // note: where 'long' is wider than 'int' errno only covers the former
+    if( errno || cp == rp || val < INT_MIN || val > INT_MAX )
     {
         ERRMSG << "\n + [BAD DATA]: invalid integer\n";
         cerr << "Data: " << data.substr(tidx) << "\n";
         return false;
     }
 
+    int i = (int)val;
+
     if( rp - cp != (int)tmp.length() )
     {
         ERRMSG << "\n + [WARNING]: extra characters at end of integer\n";
-- 
2.43.0


From 2e0de139c85a110f4e6195ba5b8058ba583d351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 61/93] fix: constructors give every scalar member a value
 (DLL_IGES_ENTITY, IDF_SEGMENT, entities 110 and 408)

---
 src/dllapi/dll_iges_entity.cpp | 2 ++
 src/entities/entity110.cpp     | 6 ++++++
 src/entities/entity408.cpp     | 1 +
 src/idf/idf_common.cpp         | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index fdbe87e..3cfc30c 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -41,6 +41,7 @@
 
 DLL_IGES_ENTITY::DLL_IGES_ENTITY( IGES* aParent )
 {
+    m_hasParent = false;
     m_parent = aParent;
 
     if( NULL != aParent )
@@ -55,6 +56,7 @@ DLL_IGES_ENTITY::DLL_IGES_ENTITY( IGES* aParent )
 
 DLL_IGES_ENTITY::DLL_IGES_ENTITY( DLL_IGES& aParent )
 {
+    m_hasParent = false;
     m_parent = aParent.GetRawPtr();
 
     if( NULL != m_parent )
diff --git a/src/entities/entity110.cpp b/src/entities/entity110.cpp
index 4079fc7..dcd345b 100644
--- a/src/entities/entity110.cpp
+++ b/src/entities/entity110.cpp
@@ -38,6 +38,12 @@ IGES_ENTITY_110::IGES_ENTITY_110( IGES* aParent ) : IGES_CURVE( aParent )
 {
     entityType = 110;
     form = 0;
+    X1 = 0.0;
+    Y1 = 0.0;
+    Z1 = 0.0;
+    X2 = 0.0;
+    Y2 = 0.0;
+    Z2 = 0.0;
     return;
 }
 
diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index b964fd4..3f8eb19 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -43,6 +43,7 @@ IGES_ENTITY_408::IGES_ENTITY_408( IGES* aParent ) : IGES_ENTITY( aParent )
     entityType = 408;
     form = 0;
 
+    iDE = 0;
     DE = NULL;
     X = 0.0;
     Y = 0.0;
diff --git a/src/idf/idf_common.cpp b/src/idf/idf_common.cpp
index 652b699..c887beb 100644
--- a/src/idf/idf_common.cpp
+++ b/src/idf/idf_common.cpp
@@ -1054,6 +1054,9 @@ IDF_SEGMENT::IDF_SEGMENT( const IDF_POINT& aStartPoint,
                           double aAngle,
                           bool aFromKicad )
 {
+    offsetAngle = 0.0;
+    radius = 0.0;
+
     double diff = abs( aAngle ) - 360.0;
 
     if( ( diff < MIN_ANG
-- 
2.43.0


From e1b3d47fcf2385893b2959713eb636cea4d2e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 62/93] fix: 126::SetNURBSData: forget the released SISL curve

---
 src/entities/entity126.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index ea8f790..2f819a8 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1042,7 +1042,10 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
 {
 #ifdef USE_SISL
     if( NULL != scurve )
+    {
         freeCurve( scurve );
+        scurve = NULL;
+    }
 #endif
 
     if( !knot || !coeff )
-- 
2.43.0


From 689b1aabfd0601d59c2ea53a901b14524831d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 63/93] fix: 128::readPD: release earlier knots and
 coefficients

---
 src/entities/entity128.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index e49b795..cca1d95 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -638,6 +638,19 @@ bool IGES_ENTITY_128::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     nKnots1 = 2 + K1 + M1;
 
+    if( knots1 )
+        delete [] knots1;
+
+    if( knots2 )
+        delete [] knots2;
+
+    if( coeffs )
+        delete [] coeffs;
+
+    knots1 = NULL;
+    knots2 = NULL;
+    coeffs = NULL;
+
     knots1 = new double[nKnots1];
 
     if( NULL == knots1 )
-- 
2.43.0


From dbdfe89955d6d1af2bc78ccad5134a87919da35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 64/93] fix: 508::associate: release loop data of a rejected
 file

---
 src/entities/entity508.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 67f6e1f..54d3c65 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -126,6 +126,23 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 }
 
 
+// release edge data which was not added to the loop
+static void freeLoopData( LOOP_DATA* aEdge )
+{
+    vector< LOOP_PAIR* >::iterator sP = aEdge->pcurves.begin();
+    vector< LOOP_PAIR* >::iterator eP = aEdge->pcurves.end();
+
+    while( sP != eP )
+    {
+        delete *sP;
+        ++sP;
+    }
+
+    delete aEdge;
+    return;
+}
+
+
 bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
 {
     if( !IGES_ENTITY::associate(entities) )
@@ -159,6 +176,7 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
         {
             ERRMSG << "\n + [CORRUPT FILE] edge index exceeds number of entities in DE ";
             cerr << sequenceNumber << "\n";
+            freeLoopData( ldata );
             deItems.clear();
             return false;
         }
@@ -175,6 +193,7 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
             {
                 ERRMSG << "\n + [CORRUPT FILE] PS curve index exceeds number of entities in DE";
                 cerr << sequenceNumber << "\n";
+                freeLoopData( ldata );
                 deItems.clear();
                 return false;
             }
@@ -189,7 +208,7 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
 
         if( !AddEdge( ldata ) )
         {
-            delete ldata;
+            freeLoopData( ldata );
             ERRMSG << "\n + [INFO] could not add edge data for entity ";
             cerr << sequenceNumber << "\n";
             deItems.clear();
-- 
2.43.0


From c930ff63fdf8a8ac02c97225de368deceba9a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 65/93] fix: IDF3_BOARD::AddSlot: release an outline which was
 not added

---
 src/idf/idf_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index cf305e8..49bbf42 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -3513,6 +3513,7 @@ bool IDF3_BOARD::AddSlot( double aWidth, double aLength, double aOrientation, do
     if( !olnBoard.addOutline( outline ) )
     {
         errormsg = olnBoard.GetError();
+        delete outline;
         return false;
     }
 
-- 
2.43.0


From 424039d33170be342929ced686068d4f291ce017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 66/93] fix: edge lists check that their vertex pointers refer
 to vertex lists

---
 src/entities/entity504.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index f005b45..7d8c6f8 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -137,6 +137,14 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( ENT_VERTEX != (*entities)[lI]->GetEntityType() )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] SVP does not refer to a Vertex List in DE ";
+            cerr << sequenceNumber << "\n";
+            deItems.clear();
+            return false;
+        }
+
         lp0 = (IGES_ENTITY_502*)((*entities)[lI]);
 
         lI = sI->tvp >> 1;
@@ -149,6 +157,14 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( ENT_VERTEX != (*entities)[lI]->GetEntityType() )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] TVP does not refer to a Vertex List in DE ";
+            cerr << sequenceNumber << "\n";
+            deItems.clear();
+            return false;
+        }
+
         lp1 = (IGES_ENTITY_502*)((*entities)[lI]);
 
         if( !AddEdge( cp, lp0, sI->sv, lp1, sI->tv ) )
-- 
2.43.0


From 61dab330662a943bf92b7e589f7a2ba1c5891769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 67/93] fix: 510::SetSurface takes only the surface types which
 associate() accepts

---
 src/entities/entity510.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 6b25a79..fa8a588 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -597,6 +597,12 @@ bool IGES_ENTITY_510::SetSurface( IGES_ENTITY* aSurface )
     if( aSurface == msurface )
         return true;
 
+    if( !checkSurfType( aSurface ) )
+    {
+        ERRMSG << "\n + [INFO] invalid surface entity\n";
+        return false;
+    }
+
     bool dup = false;
 
     if( !aSurface->addReference( this, dup ) )
-- 
2.43.0


From 900fba5c4237521ab7d6a31c59645efeac1a29b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 68/93] fix: NewAPIEntity creates the wrapper of property
 entities

---
 src/dllapi/dll_iges.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index 14f27fe..9ddd65e 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -303,6 +303,10 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
         aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, false );
         break;
 
+    case ENT_PROPERTY:
+        aEntityPointer = new DLL_IGES_ENTITY_406( this->m_iges, false );
+        break;
+
     case ENT_SINGULAR_SUBFIGURE_INSTANCE:
         aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, false );
         break;
-- 
2.43.0


From e2b95a2224fcf58a772937fcdc4969adc5939900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 69/93] fix: planes (entity 108) are created by the factory,
 and bounded planes are not orphans

---
 src/entities/entity108.cpp | 4 ++--
 src/iges/iges.cpp          | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index e670de8..fff0c7b 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -104,7 +104,7 @@ bool IGES_ENTITY_108::associate(std::vector<IGES_ENTITY *> *entities)
         pLineFontPattern = NULL;
     }
 
-    if( 1 < iPtr )
+    if( 0 < iPtr )
     {
         int iEnt = (iPtr >> 1);
         int sEnt = (int) entities->size();
@@ -379,7 +379,7 @@ bool IGES_ENTITY_108::unlink(IGES_ENTITY *aChildEntity)
 
 bool IGES_ENTITY_108::isOrphaned( void )
 {
-    if( (refs.empty() && (depends != STAT_INDEPENDENT) ) || ((0 != form) && (NULL != PTR)) )
+    if( (refs.empty() && (depends != STAT_INDEPENDENT) ) || ((0 != form) && (NULL == PTR)) )
     {
         return true;
     }
diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 49d5065..b0577b6 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -853,6 +853,10 @@ bool IGES::NewEntity( int aEntityType, IGES_ENTITY** aEntityPointer )
             ep = new IGES_ENTITY_104( this );
             break;
 
+        case ENT_PLANE:
+            ep = new IGES_ENTITY_108( this );
+            break;
+
         case ENT_LINE:
             ep = new IGES_ENTITY_110( this );
             break;
-- 
2.43.0


From 344adc4d096d9a10005e64c5c29300447f3c4cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:15 +0000
Subject: [PATCH 70/93] fix: DLL_IGES_ENTITY_122::SetGeneratrixEnd stores all
 three coordinates

---
 src/dllapi/dll_entity122.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dllapi/dll_entity122.cpp b/src/dllapi/dll_entity122.cpp
index 0a6fb98..b2271b0 100644
--- a/src/dllapi/dll_entity122.cpp
+++ b/src/dllapi/dll_entity122.cpp
@@ -131,8 +131,8 @@ bool DLL_IGES_ENTITY_122::SetGeneratrixEnd( MCAD_POINT pt )
         return false;
 
     ((IGES_ENTITY_122*)m_entity)->LX = pt.x;
-    ((IGES_ENTITY_122*)m_entity)->LX = pt.y;
-    ((IGES_ENTITY_122*)m_entity)->LX = pt.z;
+    ((IGES_ENTITY_122*)m_entity)->LY = pt.y;
+    ((IGES_ENTITY_122*)m_entity)->LZ = pt.z;
     return true;
 }
 
@@ -143,8 +143,8 @@ bool DLL_IGES_ENTITY_122::SetGeneratrixEnd( double aX, double aY, double aZ )
         return false;
 
     ((IGES_ENTITY_122*)m_entity)->LX = aX;
-    ((IGES_ENTITY_122*)m_entity)->LX = aY;
-    ((IGES_ENTITY_122*)m_entity)->LX = aZ;
+    ((IGES_ENTITY_122*)m_entity)->LY = aY;
+    ((IGES_ENTITY_122*)m_entity)->LZ = aZ;
     return true;
 }
 
-- 
2.43.0


From 14e4cddc739bd1282cd99ecbe78c71794d99828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:15 +0000
Subject: [PATCH 71/93] fix: GetColor and GetColorEntity recognise a color
 entity which was set

---
 src/entities/iges_entity.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 947362c..5ceb4f4 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2319,7 +2319,7 @@ bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
 
 bool IGES_ENTITY::GetColor(IGES_COLOR& aColor)
 {
-    if( colorNum & 0x80000000 )
+    if( NULL != pColor || (colorNum & 0x80000000) )
     {
         aColor = COLOR_NONE;
         return false;
@@ -2332,7 +2332,10 @@ bool IGES_ENTITY::GetColor(IGES_COLOR& aColor)
 
 bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 {
-    *aColor = NULL;
+    *aColor = pColor;
+
+    if( NULL != pColor )
+        return true;
 
     if( 0 == (colorNum & 0x80000000) )
     {
@@ -2343,15 +2346,9 @@ bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 
     }
 
-    if( pColor == NULL )
-    {
-        ERRMSG << "\n + [BAD DATA] invalid color entity in entity type #";
-        cerr << entityType << "\n";
-        return false;
-    }
-
-    *aColor = pColor;
-    return true;
+    ERRMSG << "\n + [BAD DATA] invalid color entity in entity type #";
+    cerr << entityType << "\n";
+    return false;
 }
 
 
-- 
2.43.0


From 81c064cd27e26f3b308cfd805d979b76c4658a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:15 +0000
Subject: [PATCH 72/93] fix: GetLabelAssoc delivers an entity which was set

---
 src/entities/iges_entity.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 5ceb4f4..7943faf 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2252,20 +2252,14 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
 
 bool IGES_ENTITY::GetLabelAssoc(IGES_ENTITY** aLabelAssoc)
 {
-    *aLabelAssoc = NULL;
+    *aLabelAssoc = pLabelAssoc;
 
-    if( 0 == (labelAssoc & 0x80000000) )
+    if( NULL != pLabelAssoc || 0 == (labelAssoc & 0x80000000) )
         return true;
 
-    if( !pLabelAssoc )
-    {
-        ERRMSG << "\n + [BAD DATA] invalid Label Association pointer in entity type #";
-        cerr << entityType << "\n";
-        return false;
-    }
-
-    *aLabelAssoc = pLabelAssoc;
-    return true;
+    ERRMSG << "\n + [BAD DATA] invalid Label Association pointer in entity type #";
+    cerr << entityType << "\n";
+    return false;
 }
 
 
-- 
2.43.0


From b8b740bba71247973b23214c34846237c59d59d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:15 +0000
Subject: [PATCH 73/93] fix: SetView accepts view entities

---
 src/entities/iges_entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 7943faf..aca9826 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2149,7 +2149,7 @@ bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
     int tEnt = aView->GetEntityType();
     int tFrm = aView->GetEntityForm();
 
-    if( tEnt != ENT_VIEW || tEnt != ENT_ASSOCIATIVITY_INSTANCE
+    if( (tEnt != ENT_VIEW && tEnt != ENT_ASSOCIATIVITY_INSTANCE)
         || (tEnt == ENT_ASSOCIATIVITY_INSTANCE && tFrm != 3 && tFrm != 4 && tFrm != 19) )
     {
         ERRMSG << "\n + [BUG] invalid entity (" << tEnt << "-" << tFrm;
-- 
2.43.0


From ce1c7aa325156a83af885158e1d1eb791e65773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:41 +0000
Subject: [PATCH 74/93] fix: GetHeaders and GetLoopData deliver the length of
 the list

---
 src/entities/entity508.cpp   | 2 +-
 src/iges/iges.cpp            | 2 +-
 src/include/core/entity508.h | 2 +-
 src/include/core/iges.h      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 54d3c65..90bb87c 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -942,7 +942,7 @@ bool IGES_ENTITY_508::delPCurve( IGES_ENTITY* aCurve, bool aFlagDelEdge, bool aF
 }
 
 
-bool IGES_ENTITY_508::GetLoopData( size_t aListSize, LOOP_DATA**& aEdgeList )
+bool IGES_ENTITY_508::GetLoopData( size_t& aListSize, LOOP_DATA**& aEdgeList )
 {
     if( edges.empty() )
     {
diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index b0577b6..f954004 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1889,7 +1889,7 @@ bool IGES::ChangeModelScale( double aScale )
 }
 
 
-bool IGES::GetHeaders( size_t aListSize, char const**& aHeaderList )
+bool IGES::GetHeaders( size_t& aListSize, char const**& aHeaderList )
 {
     if( startSection.empty() )
     {
diff --git a/src/include/core/entity508.h b/src/include/core/entity508.h
index 0105663..f530f02 100644
--- a/src/include/core/entity508.h
+++ b/src/include/core/entity508.h
@@ -165,7 +165,7 @@ public:
      * returns a pointer to the list of data structures
      * representing this loop entity.
      */
-    bool GetLoopData( size_t aListSize, LOOP_DATA**& aEdgeList );
+    bool GetLoopData( size_t& aListSize, LOOP_DATA**& aEdgeList );
 
 
     /**
diff --git a/src/include/core/iges.h b/src/include/core/iges.h
index df9ca75..b9f6a12 100644
--- a/src/include/core/iges.h
+++ b/src/include/core/iges.h
@@ -299,7 +299,7 @@ public:
      * returns a pointer to the list of strings read from or to be
      * written to the Start Section of the IGES file.
      */
-    bool GetHeaders( size_t aListSize, char const**& aHeaderList );
+    bool GetHeaders( size_t& aListSize, char const**& aHeaderList );
 
 
     /**
-- 
2.43.0


From 520379dbcd26226ee3984c0abee54a74e7bccec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:41 +0000
Subject: [PATCH 75/93] fix: a Shell entity read from a file may be of Form 2

---
 src/entities/entity514.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index ba05431..179ef33 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -321,7 +321,7 @@ bool IGES_ENTITY_514::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     lineWeightNum = 0;              // N.A.
     colorNum = 0;                   // N.A.
 
-    if( form != 1 )
+    if( form != 1 && form != 2 )
     {
         ERRMSG << "\n + [CORRUPT FILE] invalid Form Number in Shell\n";
         cerr << " + DE: " << aRecord->index << "\n";
-- 
2.43.0


From ba4d374ebd35df5b1ed42d380a2562d123bf36f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:41 +0000
Subject: [PATCH 76/93] fix: IGES_ENTITY_108::SetEntityForm refuses form
 numbers out of range

---
 src/entities/entity108.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index fff0c7b..167653d 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -567,6 +567,7 @@ bool IGES_ENTITY_108::SetEntityForm( int aForm )
     {
         ERRMSG << "\n + [WARNING] [BUG] Entity 108 only supports Forms -1,0,1 (requested form: ";
         cerr << aForm << ")\n";
+        return false;
     }
 
     form = aForm;
-- 
2.43.0


From 381705d36f4d49f1ce4896ae6bf2d7566b3e81e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:41 +0000
Subject: [PATCH 77/93] fix: IGES_ENTITY_124 refuses invalid form numbers

---
 src/entities/entity124.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 90cb649..a11e336 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -297,7 +297,7 @@ bool IGES_ENTITY_124::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     visible = true;                 // N.A., but true => Blank Status = 0
     hierarchy = STAT_HIER_ALL_SUB;  // field ignored
 
-    if( form != 0 && form != 1 && form < 10 && form > 12 )
+    if( form != 0 && form != 1 && (form < 10 || form > 12) )
     {
         ERRMSG << "\n + [CORRUPT FILE] invalid Form Number in Transform\n";
         cerr << " + DE: " << aRecord->index << "\n";
@@ -379,7 +379,7 @@ bool IGES_ENTITY_124::readPD(std::ifstream &aFile, int &aSequenceVar)
 
 bool IGES_ENTITY_124::SetEntityForm( int aForm )
 {
-    if( aForm != 0 && aForm != 1 && aForm < 10 && aForm > 12 )
+    if( aForm != 0 && aForm != 1 && (aForm < 10 || aForm > 12) )
     {
         ERRMSG << "\n + [BUG] invalid Form Number (" << aForm << ") specified\n";
         return false;
-- 
2.43.0


From 8d5dbffc422b843e6326553dd0c08f70eb577488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:47 +0000
Subject: [PATCH 78/93] fix: SetNURBSData keeps the former spline when it
 refuses the data

---
 src/entities/entity126.cpp | 14 ++++++++------
 src/entities/entity128.cpp | 27 +++++++++++++++------------
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 2f819a8..9f36fef 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1070,24 +1070,26 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots = nCoeff + order;
-    nCoeffs = nCoeff;
-    K = nCoeff - 1;
-    M = order - 1;
+    int nk = nCoeff + order;
 
     // ensure V0, V1 are within the knot range
-    if( v0 < knot[0] || v0 >= knot[nKnots -1] )
+    if( v0 < knot[0] || v0 >= knot[nk - 1] )
     {
         ERRMSG << "\n + [INFO] v0 does not satisfy the requirement T(-M) <= v0 < T(N+M)\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot[nKnots -1] )
+    if( v1 <= v0 || v1 > knot[nk - 1] )
     {
         ERRMSG << "\n + [INFO] v1 does not satisfy the requirement v0 < v1 <= T(N+M)\n";
         return false;
     }
 
+    nKnots = nk;
+    nCoeffs = nCoeff;
+    K = nCoeff - 1;
+    M = order - 1;
+
     if( knots )
     {
         delete [] knots;
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index cca1d95..a738be4 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -1033,40 +1033,43 @@ bool IGES_ENTITY_128::SetNURBSData( int nCoeff1, int nCoeff2, int order1, int or
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots1 = nCoeff1 + order1;
-    nKnots2 = nCoeff2 + order2;
-    nCoeffs1 = nCoeff1;
-    nCoeffs2 = nCoeff2;
-    K1 = nCoeff1 - 1;
-    K2 = nCoeff2 - 1;
-    M1 = order1 - 1;
-    M2 = order2 - 1;
+    int nk1 = nCoeff1 + order1;
+    int nk2 = nCoeff2 + order2;
 
     // check validity of (u, v)
-    if( u0 < knot1[0] || u0 >= knot1[nKnots1 -1] )
+    if( u0 < knot1[0] || u0 >= knot1[nk1 - 1] )
     {
         ERRMSG << "\n + [INFO] u0 is invalid\n";
         return false;
     }
 
-    if( u1 <= u0 || u1 > knot1[nKnots1 -1] )
+    if( u1 <= u0 || u1 > knot1[nk1 - 1] )
     {
         ERRMSG << "\n + [INFO] u1 is invalid\n";
         return false;
     }
 
-    if( v0 < knot2[0] || v0 >= knot2[nKnots2 -1] )
+    if( v0 < knot2[0] || v0 >= knot2[nk2 - 1] )
     {
         ERRMSG << "\n + [INFO] v0 is invalid\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot2[nKnots2 -1] )
+    if( v1 <= v0 || v1 > knot2[nk2 - 1] )
     {
         ERRMSG << "\n + [INFO] v1 is invalid\n";
         return false;
     }
 
+    nKnots1 = nk1;
+    nKnots2 = nk2;
+    nCoeffs1 = nCoeff1;
+    nCoeffs2 = nCoeff2;
+    K1 = nCoeff1 - 1;
+    K2 = nCoeff2 - 1;
+    M1 = order1 - 1;
+    M2 = order2 - 1;
+
     if( knots1 )
     {
         delete [] knots1;
-- 
2.43.0


From 1ed4224a3e373519e80fa8473b4fe8570dca1330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 79/93] fix: IGES_ENTITY_406 ignores status values its reader
 replaces

---
 src/entities/entity406.cpp   | 21 +++++++++++++++++++++
 src/include/core/entity406.h |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/src/entities/entity406.cpp b/src/entities/entity406.cpp
index 13906f5..b2137c1 100644
--- a/src/entities/entity406.cpp
+++ b/src/entities/entity406.cpp
@@ -476,6 +476,27 @@ bool IGES_ENTITY_406::SetLineWeightNum( int aLineWeight )
 }
 
 
+bool IGES_ENTITY_406::SetVisibility( bool isVisible )
+{
+    ERRMSG << "\n + [WARNING] [BUG] method not supported by Entity Type 406\n";
+    return true;
+}
+
+
+bool IGES_ENTITY_406::SetEntityUse( IGES_STAT_USE aUseCase )
+{
+    ERRMSG << "\n + [WARNING] [BUG] method not supported by Entity Type 406\n";
+    return true;
+}
+
+
+bool IGES_ENTITY_406::SetHierarchy( IGES_STAT_HIER aHierarchy )
+{
+    ERRMSG << "\n + [WARNING] [BUG] method not supported by Entity Type 406\n";
+    return true;
+}
+
+
 bool IGES_ENTITY_406::SetColor( IGES_COLOR aColor )
 {
     ERRMSG << "\n + [WARNING] [BUG] method not supported by Entity Type 406\n";
diff --git a/src/include/core/entity406.h b/src/include/core/entity406.h
index f9c95f3..63fc826 100644
--- a/src/include/core/entity406.h
+++ b/src/include/core/entity406.h
@@ -149,6 +149,9 @@ public:
     virtual bool SetTransform( IGES_ENTITY* aTransform );
     virtual bool SetLabelAssoc( IGES_ENTITY* aLabelAssoc );
     virtual bool SetLineWeightNum( int aLineWeight );
+    virtual bool SetVisibility( bool isVisible );
+    virtual bool SetEntityUse( IGES_STAT_USE aUseCase );
+    virtual bool SetHierarchy( IGES_STAT_HIER aHierarchy );
     virtual bool SetColor( IGES_COLOR aColor );
     virtual bool SetColor( IGES_ENTITY* aColor );
 
-- 
2.43.0


From cd711ea8df672f5d35f5606c8ac9e29c4e320a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:01 +0000
Subject: [PATCH 80/93] fix: IGES_ENTITY_504::GetEdges delivers the length of
 the list

---
 src/entities/entity504.cpp   | 2 +-
 src/include/core/entity504.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 7d8c6f8..5ea5cc2 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -581,7 +581,7 @@ bool IGES_ENTITY_504::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 
 bool
-IGES_ENTITY_504::GetEdges( size_t aListSize, EDGE_DATA const*& aEdgeList )
+IGES_ENTITY_504::GetEdges( size_t& aListSize, EDGE_DATA const*& aEdgeList )
 {
     if( edges.empty() )
     {
diff --git a/src/include/core/entity504.h b/src/include/core/entity504.h
index 621de8c..be88435 100644
--- a/src/include/core/entity504.h
+++ b/src/include/core/entity504.h
@@ -143,7 +143,7 @@ public:
      * Function GetEdges
      * returns a vector containing Edge data for convenient access by users
      */
-    bool GetEdges( size_t aListSize, EDGE_DATA const*& aEdgeList );
+    bool GetEdges( size_t& aListSize, EDGE_DATA const*& aEdgeList );
 
 
     /**
-- 
2.43.0


From 1802acf256f6813bd3923cc218e01fe5af526cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:38 +0000
Subject: [PATCH 81/93] fix: IGES_ENTITY_504::GetEdges reports success and the
 number of edges

---
 src/entities/entity504.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 5ea5cc2..80476e2 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -604,9 +604,9 @@ IGES_ENTITY_504::GetEdges( size_t& aListSize, EDGE_DATA const*& aEdgeList )
         }
     }
 
-    aListSize = 0;
+    aListSize = vedges.size();
     aEdgeList = &vedges[0];
-    return false;
+    return true;
 }
 
 
-- 
2.43.0


From 1f269d2a795aa4184c1dfcfc6f2d9d21b199ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:37 +0000
Subject: [PATCH 82/93] fix: IGES_ENTITY_314::SetEntityForm refuses form
 numbers it does not support

---
 src/entities/entity314.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity314.cpp b/src/entities/entity314.cpp
index 8430a76..2bea614 100644
--- a/src/entities/entity314.cpp
+++ b/src/entities/entity314.cpp
@@ -419,6 +419,7 @@ bool IGES_ENTITY_314::SetEntityForm( int aForm )
     {
         ERRMSG << "\n + [WARNING] [BUG] Color Definition Entity only supports Form 0 (requested form: ";
         cerr << aForm << ")\n";
+        return false;
     }
 
     return true;
-- 
2.43.0


From 842be53a77febcbfd1db51595cb9e51a906a4374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:47 +0000
Subject: [PATCH 83/93] fix: write comments of an entity in 64 columns followed
 by the DE pointer, so that the file can be read back

---
 src/entities/iges_entity.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index aca9826..fcef691 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2813,13 +2813,21 @@ bool IGES_ENTITY::formatComments( int& pdSeq )
 
         for( sidx = 0; sidx < sz; )
         {
-            tmp = sCom->substr( sidx, 72 );
+            tmp = sCom->substr( sidx, 64 );
             sidx += tmp.length();
 
-            if( tmp.length() < 72 )
-                tmp.append( 72 - tmp.length(), ' ' );
+            if( tmp.length() < 64 )
+                tmp.append( 64 - tmp.length(), ' ' );
 
-            if( !FormatDEInt( tmp1, pdSeq++ ) )
+            if( !FormatDEInt( tmp1, sequenceNumber ) )
+            {
+                ERRMSG << "\n + [BUG] could not format DE sequence number of optional comment\n";
+                return false;
+            }
+
+            tmp += tmp1;
+
+            if( !FormatDEInt( tmp1, pdSeq++ ) || tmp1[0] != ' ' )
             {
                 ERRMSG << "\n + [BUG] could not format optional parameter comment\n";
                 return false;
-- 
2.43.0


From b242cef121bcc006918c2d66b095c06210a4fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:06 +0000
Subject: [PATCH 84/93] fix: AddToHeader keeps a header of exactly 72
 characters

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index f954004..2c6b2e4 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1936,12 +1936,12 @@ bool IGES::AddToHeader( const char*& comments )
     size_t slen = tStr.length();
     size_t slen1;
 
-    if( slen < 72 )
+    if( slen <= 72 )
     {
         tStr.append( 72 - slen, ' ' );
         startSection.push_back( tStr );
     }
-    else if( slen > 72 )
+    else
     {
         for( size_t i = 0; i < slen; i += 72 )
         {
-- 
2.43.0


From a44beb4fa577eae5a0ed5c7b256fda879503182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:06 +0000
Subject: [PATCH 85/93] fix: refuse to write record numbers of more than seven
 digits

---
 src/iges/iges.cpp    |  2 +-
 src/iges/iges_io.cpp | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 2c6b2e4..cc55b3b 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2006,7 +2006,7 @@ bool IGES::writeStart( std::ofstream& file )
 
     while( ssc != esc )
     {
-        if( !FormatDEInt( tStr1, nsc++ ) )
+        if( !FormatDEInt( tStr1, nsc++ ) || tStr1[0] != ' ' )
         {
             ERRMSG << "\n + [INFO] could not format START section\n";
             return false;
diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index e7fe920..48b6cf7 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -660,7 +660,7 @@ bool AddPDItem( std::string& tStr, std::string& fStr, std::string& fOut,
         fStr += seq;
 
         // add PD Sequence Number
-        if( !FormatDEInt( seq, pdIndex ) )
+        if( !FormatDEInt( seq, pdIndex ) || seq[0] != ' ' )
         {
             ERRMSG << "\n + [BUG] cannot tack on PD Sequence Number\n";
             return false;
@@ -703,7 +703,7 @@ bool AddPDItem( std::string& tStr, std::string& fStr, std::string& fOut,
         fStr += seq;
 
         // add PD Sequence Number
-        if( !FormatDEInt( seq, pdIndex ) )
+        if( !FormatDEInt( seq, pdIndex ) || seq[0] != ' ' )
         {
             ERRMSG << "\n + [BUG] cannot tack on PD Sequence Number\n";
             return false;
@@ -763,7 +763,7 @@ bool AddSecItem( std::string& tStr, std::string& fStr, std::string& fOut,
         // add global section sequence number
         std::string seq;
 
-        if( !FormatDEInt( seq, index ) )
+        if( !FormatDEInt( seq, index ) || seq[0] != ' ' )
         {
             ERRMSG << "\n + [BUG] cannot tack on Global Sequence Number\n";
             return false;
@@ -791,7 +791,7 @@ bool AddSecItem( std::string& tStr, std::string& fStr, std::string& fOut,
         // add sequence number
         std::string seq;
 
-        if( !FormatDEInt( seq, index ) )
+        if( !FormatDEInt( seq, index ) || seq[0] != ' ' )
         {
             ERRMSG << "\n + [BUG] cannot tack on Global Sequence Number\n";
             return false;
@@ -863,7 +863,7 @@ bool AddSecHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
     {
         fStr.append( 72 - fStr.length(), ' ' );
 
-        if( !FormatDEInt( tmp, index++ ) )
+        if( !FormatDEInt( tmp, index++ ) || tmp[0] != ' ' )
         {
             ERRMSG << "\n + [BUG] could not format global section sequence number\n";
             return false;
@@ -890,7 +890,7 @@ bool AddSecHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
 
         if( fStr.length() == 72 )
         {
-            if( !FormatDEInt( tmp, index++ ) )
+            if( !FormatDEInt( tmp, index++ ) || tmp[0] != ' ' )
             {
                 ERRMSG << "\n + [BUG] could not format global section sequence number\n";
                 return false;
@@ -909,7 +909,7 @@ bool AddSecHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
         if( fStr.length() != 72 )
             fStr.append( 72 - fStr.length(), ' ' );
 
-        if( !FormatDEInt( tmp, index++ ) )
+        if( !FormatDEInt( tmp, index++ ) || tmp[0] != ' ' )
         {
             ERRMSG << "\n + [BUG] could not format global section sequence number\n";
             return false;
@@ -972,7 +972,7 @@ bool AddPDHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
 
         fStr += tmp;
 
-        if( !FormatDEInt( tmp, index++ ) )
+        if( !FormatDEInt( tmp, index++ ) || tmp[0] != ' ' )
         {
             ERRMSG << "\n + [BUG] could not format PD section index\n";
             return false;
@@ -1008,7 +1008,7 @@ bool AddPDHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
 
             fStr += tmp;
 
-            if( !FormatDEInt( tmp, index++ ) )
+            if( !FormatDEInt( tmp, index++ ) || tmp[0] != ' ' )
             {
                 ERRMSG << "\n + [BUG] could not format PD section index\n";
                 return false;
@@ -1036,7 +1036,7 @@ bool AddPDHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
 
         fStr += tmp;
 
-        if( !FormatDEInt( tmp, index++ ) )
+        if( !FormatDEInt( tmp, index++ ) || tmp[0] != ' ' )
         {
             ERRMSG << "\n + [BUG] could not format PD section index\n";
             return false;
-- 
2.43.0


From 130870b6c2dc94925a7f100669e09979e3840bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:03 +0000
Subject: [PATCH 86/93] fix: an entity is owned by one model only, and a failed
 Export() gives all entities back

---
 src/iges/iges.cpp | 50 +++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index cc55b3b..521c82b 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -980,6 +980,10 @@ bool IGES::AddEntity( IGES_ENTITY* aEntity )
         ++sEnt;
     }
 
+    // an entity is owned by one model only
+    if( aEntity->parent && aEntity->parent != this )
+        aEntity->parent->UnlinkEntity( aEntity );
+
     entities.push_back( aEntity );
     aEntity->parent = this;
 
@@ -1032,6 +1036,10 @@ bool IGES::UnlinkEntity( IGES_ENTITY* aEntity )
         if( *sEnt == aEntity )
         {
             entities.erase( sEnt );
+
+            if( aEntity->parent == this )
+                aEntity->parent = NULL;
+
             return true;
         }
 
@@ -2427,6 +2435,14 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
         return false;
     }
 
+    *packagedEntity = NULL;
+
+    if( this == newParent )
+    {
+        ERRMSG << "\n + [BUG] Export() invoked with the model itself as the new parent\n";
+        return false;
+    }
+
     if( entities.empty() )
         return true;
 
@@ -2541,6 +2557,8 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
         return false;
     }
 
+    // entities leave this model as soon as the new parent takes them over
+    const vector<IGES_ENTITY*> ents( entities );
     bool isAssy = false;
     list<IGES_ENTITY*>::iterator sEnt;
     list<IGES_ENTITY*>::iterator eEnt;
@@ -2558,12 +2576,11 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             if( !p308->AddDE(*sEnt) )
             {
                 ERRMSG << "\n + [INFO] could not transfer entity to Subfigure Definition\n";
-                ep = p308;
-                sEnt = sslist.begin();
+                newParent->DelEntity( ep );
 
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
+                for( size_t i = 0; i < nEnt; ++ i )
+                    AddEntity( ents[i] );
 
-                newParent->DelEntity( ep );
                 return false;
             }
 
@@ -2580,11 +2597,11 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             if( !p308->AddDE(*sEnt) )
             {
                 ERRMSG << "\n + [INFO] could not transfer entity to Subfigure Definition\n";
-                sEnt = tplist.begin();
+                newParent->DelEntity( ep );
 
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
+                for( size_t i = 0; i < nEnt; ++ i )
+                    AddEntity( ents[i] );
 
-                newParent->DelEntity( ep );
                 return false;
             }
 
@@ -2601,11 +2618,11 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             if( !p308->AddDE(*sEnt) )
             {
                 ERRMSG << "\n + [INFO] could not transfer MSBO entity to Subfigure Definition\n";
-                sEnt = brlist.begin();
+                newParent->DelEntity( ep );
 
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
+                for( size_t i = 0; i < nEnt; ++ i )
+                    AddEntity( ents[i] );
 
-                newParent->DelEntity( ep );
                 return false;
             }
 
@@ -2615,20 +2632,15 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 
     for( size_t i = 0; i < nEnt; ++ i )
     {
-        if( !newParent->AddEntity( entities[i] ) )
+        if( !newParent->AddEntity( ents[i] ) )
         {
             ERRMSG << "\n + [INFO] could not transfer entity to parent\n";
 
-            ep = (IGES_ENTITY*)p308;
-            newParent->UnlinkEntity( ep );
+            newParent->DelEntity( ep );
 
-            for( size_t j = 0; j < i; ++j )
-            {
-                newParent->UnlinkEntity( entities[j] );
-                entities[j]->parent = this;
-            }
+            for( size_t j = 0; j < nEnt; ++j )
+                AddEntity( ents[j] );
 
-            delete ep;
             return false;
         }
     }
-- 
2.43.0


From 6775098745bb43035b121ac51b321009493b463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:03 +0000
Subject: [PATCH 87/93] fix: Export() checks its arguments before use and
 refuses the model itself

---
 src/iges/iges.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 521c82b..1d0bf91 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2421,8 +2421,6 @@ bool IGES::writeGlobals( std::ofstream& file )
 // export all entities to the given IGES* (to be used for creating Assemblies)
 bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 {
-    *packagedEntity = NULL;
-
     if( NULL == newParent )
     {
         ERRMSG << "\n + [BUG] Export() invoked without a valid IGES pointer\n";
-- 
2.43.0


From 596a67df04d6142d9030ee3a0ae73ccfe3c51f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:11 +0000
Subject: [PATCH 88/93] fix: convert numbers in the classic C and C++ locale in
 all operations of IGES

---
 src/iges/iges.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 1d0bf91..901b143 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -38,6 +38,7 @@
 
 #include <libigesconf.h>
 #include <locale.h>
+#include <locale>
 #include <cstdlib>
 #include <cerrno>
 #include <sstream>
@@ -239,26 +240,29 @@ static bool checkDate( const std::string aDate )
 class IGES_LOCALE
 {
 private:
-    char locale[80];
+    std::string locale;         // the user's C locale
+    std::locale cxxlocale;      // the user's C++ locale, which streams use
+
 public:
     IGES_LOCALE()
     {
-        const char *cp = setlocale( LC_NUMERIC, NULL );
+        const char *cp = setlocale( LC_ALL, NULL );
+
         if (NULL != cp)
-        {
-            sprintf(locale, "%.79s", cp);
-        }
-        else
-        {
-            locale[0] = 0;
-        }
+            locale = cp;
 
-        setlocale( LC_NUMERIC, "C" );     // switch the numerics locale to "C"
+        // switch to the "C" locale, in C as well as in C++
+        std::locale::global( std::locale::classic() );
+        setlocale( LC_NUMERIC, "C" );
     }
 
     ~IGES_LOCALE()
     {
-        setlocale( LC_NUMERIC, locale );  // revert to the current numerics default locale
+        // revert to the user's locale
+        std::locale::global( cxxlocale );
+
+        if( !locale.empty() )
+            setlocale( LC_ALL, locale.c_str() );
     }
 };
 
@@ -2671,6 +2675,8 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 
 void IGES::GetNewPartName( std::string& name )
 {
+    IGES_LOCALE igloc;
+
     name.clear();
     time_t now;
     time( &now );
@@ -2691,6 +2697,8 @@ void IGES::GetNewPartName( std::string& name )
 
 void IGES::GetNewAssemblyName( std::string& name )
 {
+    IGES_LOCALE igloc;
+
     name.clear();
     time_t now;
     time( &now );
-- 
2.43.0


From 60989baf8a71aa960037dca607a7ec159da4f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:20 +0000
Subject: [PATCH 89/93] fix: drop the list of header lines handed out when the
 header is replaced

---
 src/iges/iges.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 901b143..18c0355 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -396,6 +396,7 @@ bool IGES::init(void)
     globalData.convert = false;
 
     startSection.clear();
+    vStartSection.clear();
     nGlobSecLines = 0;
     nDESecLines = 0;
     nPDSecLines = 0;
@@ -1973,6 +1974,9 @@ bool IGES::AddToHeader( const char*& comments )
 // write out the START SECTION
 bool IGES::writeStart( std::ofstream& file )
 {
+    // the lines may change below
+    vStartSection.clear();
+
     if( startSection.empty() )
         startSection.push_back( "# Created via the free libIGES (https://github.com/cbernardo/libIGES)" );
 
-- 
2.43.0


From b454c0302312cacb77f5bc5e189a23314a7acaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:20 +0000
Subject: [PATCH 90/93] fix: write all sections of a file with the same minimum
 resolution

---
 src/iges/iges.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 18c0355..6fbed5c 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -669,6 +669,10 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
 
     nDESecLines = (int)(nEnt << 1);
 
+    // all sections are written with the same resolution
+    if( globalData.minResolution < 1e-12 )
+        globalData.minResolution = 0.001;
+
     // Format PD entries for output and update some DE items
     for( iEnt = 0; iEnt < nEnt; ++iEnt )
     {
@@ -2057,9 +2061,6 @@ bool IGES::writeGlobals( std::ofstream& file )
     char pd = globalData.pdelim;
     char rd = globalData.rdelim;
 
-    if( globalData.minResolution < 1e-12 )
-        globalData.minResolution = 0.001;
-
     // Item 1: (HStr) Parameter Delimeter
     // REQ DEF ","
     if( pd == ',' )
-- 
2.43.0


From 425f97293e2a78c24407f8a228c44d4ff13dc818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:20 +0000
Subject: [PATCH 91/93] fix: convert line weights by a real ratio in Export()

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 6fbed5c..8277828 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2478,7 +2478,7 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     // determine crude linewidth adjustment; the new linewidths are guaranteed to
     // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
     // for the new parent IGES and the IGES being merged.
-    double lws = maxLWG / globalData.maxLinewidthGrad;
+    double lws = double( maxLWG ) / double( globalData.maxLinewidthGrad );
     int llw;
 
     for( size_t i = 0; i < nEnt; ++ i )
-- 
2.43.0


From e180199aeca30cdba202b3b773bedb115f09a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:20 +0000
Subject: [PATCH 92/93] fix: drop the list of edges handed out when an edge is
 added

---
 src/entities/entity504.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 80476e2..b02ab0c 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -669,6 +669,7 @@ bool IGES_ENTITY_504::AddEdge( IGES_ENTITY* aCurve,
     nc.tv = aTV;
 
     edges.push_back( nc );
+    vedges.clear();
 
     if( NULL != parent )
     {
-- 
2.43.0


From 3bfcddc20714e734e58c86da8bb194811cf8b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:20 +0000
Subject: [PATCH 93/93] fix: calculate the bounding box before an outline is
 tested for a point inside

---
 src/geom/mcad_outline.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index b8e84ef..377f677 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -294,6 +294,10 @@ bool MCAD_OUTLINE::IsInside( MCAD_POINT aPoint, bool& error )
         return false;
     }
 
+    // the outline may have changed since the bounding box was calculated
+    if( !mBBisOK )
+        calcBoundingBox();
+
     // Steps:
     // 1. take a line passing through this point and directly to the
     //    left or right, whichever is the shortest segment.
@@ -880,6 +884,9 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
 
     } while( 0 );
 
+    // the tests above may have calculated the bounding box
+    mBBisOK = false;
+
     MCAD_POINT pF[2];   // final point order
     bool isEnd[2];      // indicates if pF[n] is an endpoint
     list<MCAD_SEGMENT*>::iterator pSeg[2]; // segment iterators associated with each point
@@ -1638,6 +1645,9 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         return false;
     }
 
+    // the test above may have calculated the bounding box
+    mBBisOK = false;
+
     // f. A test for invalid geometry: if both (d) and (e) are
     //    inside (or outside) then we have invalid geometry due
     //    to a case of 2 non-overlapping outlines coinciding at
-- 
2.43.0

