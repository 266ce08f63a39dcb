From eb93fefb383955129dd105af6ea8386301692cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 01/25] fix: hour: look up the short area only when there is
 one

An hour in which no area is short raised an IndexError before the
'no loss' return.
---
 reliabilityassessment/monte_carlo/hour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index c001c67..d22c60b 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -138,7 +138,6 @@ def hour(
         FLAG = 0
         MARGIN = (SYSCON[:NOAREA] - CAPREQ[:NOAREA]).astype(int)
         FLAG += sum(MARGIN < 0)
-        IT = np.where(MARGIN < 0)[0][-1]
 
         if FLAG == 0:
             # print('Returning: No Loss')
@@ -156,6 +155,7 @@ def hour(
             if FLAG > 1:
                 pass  # as the original Fortran logic
             else:
+                IT = np.where(MARGIN < 0)[0][-1]
                 NEED = abs(MARGIN[IT])
                 for j in np.where(MARGIN > 0)[0]:
                     N = LINENO[j, IT]
-- 
2.43.0


From 3afcf5597b1b41611f4f61b47204d84cbe15531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 02/25] fix: year: reset the annual area counters of every area

The arrays are (area, load level); the slices were swapped, so areas
beyond the number of load levels were never reset.
---
 reliabilityassessment/monte_carlo/year.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 45f622d..e1ab26a 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -634,14 +634,14 @@ def year(
     WGNTPP = 0.0
     WOLTPP = 0.0
 
-    LOLTHA[:NFCST, :NOAREA] = 0
-    LOLGHA[:NFCST, :NOAREA] = 0
-    MGNTHA[:NFCST, :NOAREA] = 0
-    MGNGHA[:NFCST, :NOAREA] = 0
-    LOLTPA[:NFCST, :NOAREA] = 0
-    LOLGPA[:NFCST, :NOAREA] = 0
-    MGNTPA[:NFCST, :NOAREA] = 0
-    MGNGPA[:NFCST, :NOAREA] = 0
+    LOLTHA[:NOAREA, :NFCST] = 0
+    LOLGHA[:NOAREA, :NFCST] = 0
+    MGNTHA[:NOAREA, :NFCST] = 0
+    MGNGHA[:NOAREA, :NFCST] = 0
+    LOLTPA[:NOAREA, :NFCST] = 0
+    LOLGPA[:NOAREA, :NFCST] = 0
+    MGNTPA[:NOAREA, :NFCST] = 0
+    MGNGPA[:NOAREA, :NFCST] = 0
 
     LOLTHP[:NFCST] = 0
     LOLGHP[:NFCST] = 0
-- 
2.43.0


From 4b9fed1f5a3998ef11e0764d3cf8ae254a72089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 03/25] fix: tm2: restore ZB from its own copy after the LP
 step

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index f76c144..afae266 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -302,6 +302,6 @@ def tm2(
 
     # GO TO 1000
     BB[:NX, :NX] = BT[:NX, :NX].copy()
-    ZB[:NX, :NX] = BT[:NX, :NX].copy()
+    ZB[:NX, :NX] = ZT[:NX, :NX].copy()
 
     return FLOW, INDIC
-- 
2.43.0


From 8d75c9f896f09f22db847d48e4ce84e8ea2e74a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 04/25] fix: tm2: keep BB and ZB in step for lines at the
 reference bus

The impedance matrix was updated with the new and the base admittance,
the admittance matrix twice with the new one, and a line out of service
was not removed at all.
---
 reliabilityassessment/monte_carlo/tm2.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index afae266..dc1928f 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -97,13 +97,12 @@ def tm2(
         NII = IEQ[NI]
         BIJ = BLP[i, 0]
 
-        if BIJ == 0.0:
-            continue
-
         for bij in [BIJ, -BLP0[i]]:
+            if bij == 0.0:
+                continue
             ZIJ = -1 / bij
             Z = ximpar(ZB, ZIJ, NII)
-            admref(BB, NII, BIJ)
+            admref(BB, NII, bij)
             ZB[:NX, :NX] = Z[:NX, :NX].copy()
 
     # Assigns injections at buses so as to balance
-- 
2.43.0


From 33fc32904549ff683ed71293b28d25b9cb96c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 05/25] fix: net: the first slack variable is at index N - M

0-based: its sign was not flipped like that of the other slacks.
---
 reliabilityassessment/monte_carlo/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/net.py b/reliabilityassessment/monte_carlo/net.py
index 298b0cf..b80531e 100644
--- a/reliabilityassessment/monte_carlo/net.py
+++ b/reliabilityassessment/monte_carlo/net.py
@@ -36,7 +36,7 @@ def _net(B, B1, RES, IBAS, BS, M, N):
 
     for i in range(M):
         k = IBAS[i]
-        if k > NX1:
+        if k >= NX1:
             RES[k, 0] = -BS[i]
             continue
         RES[k, 0] = BS[i]
@@ -80,7 +80,7 @@ def net(B, B1, RES, IBAS, BS, M, N):
     RES[:N, :3] = 0
 
     RES[IBAS[:M], 0] = BS[:M]
-    RES[IBAS[:M][IBAS[:M] > N - M], 0] *= -1
+    RES[IBAS[:M][IBAS[:M] >= N - M], 0] *= -1
 
     RES[N - M : N, 1][B1[:M] < 0] = 1
     RES[N - M : N, 0] += B[:M]
-- 
2.43.0


From 5abdd08232d1c490735b73fa0dc64fd917256da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 06/25] fix: smaint: an outage can include the last week of the
 year

j2 is an exclusive bound.
---
 reliabilityassessment/data_processing/smaint.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/smaint.py b/reliabilityassessment/data_processing/smaint.py
index de2f88b..3be642f 100644
--- a/reliabilityassessment/data_processing/smaint.py
+++ b/reliabilityassessment/data_processing/smaint.py
@@ -89,8 +89,9 @@ def smaint(
         for wi in {3, 5}:
             if ID[i, wi] != -1:
                 j1 = ID[i, wi]
-                # the index of last week of a simulation year is 51
-                j2 = min(51, j1 + ID[i, wi + 1])
+                # one past the index of the last week of the outage; the index of
+                # the last week of a simulation year is 51
+                j2 = min(52, j1 + ID[i, wi + 1])
                 # increase total number of units under maintenance for the weeks
                 JPLOUT[j1:j2, 0] += 1
                 JPLOUT[np.arange(j1, j2), JPLOUT[j1:j2, 0]] = int(ID[i, 0])
-- 
2.43.0


From d4e954e8d832b896a4b2736b9a018c15476011ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 07/25] fix: hour: the last hour of the year has index 8759,
 not -1

With -1 its peak statistics were never collected.
---
 reliabilityassessment/monte_carlo/hour.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index d22c60b..e50bbcd 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -87,15 +87,16 @@ def hour(
 
     # ..............UPDATE HOUR NUMBER.............
     DXX = 8760
-    JHOUR = -1 + int(CLOCK % DXX)  # DMOD(CLOCK,DXX) in original Fortran
+    JHOURT = -1 + int(CLOCK % DXX)  # DMOD(CLOCK,DXX) in original Fortran
     # need to minus 1 due to 0-based index in Python!
 
     # need to double check
+    JHOUR = JHOURT % DXX  # JHOURT is -1 in the last hour of the year
+
     JDAY = np.floor(JHOUR / 24).astype(
         int
     )  # original Fortran, (JHOUR-.1)/24 + 1, since 1-based
 
-    JHOURT = JHOUR
     if JSTEP == 24:  # if only daily peak stats are collected
         JHOUR = MXPLHR[JDAY]  # MXPLHR stores the pool peak hour
 
-- 
2.43.0


From 2ab21e20492ac5ae6f6254c1871c93c1e7bd103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 08/25] fix: week: use the week that starts, not the one that
 ended

The weekly event runs between hours 168*k - 1 and 168*k (0-based), so
JHOUR // 168 applied every planned outage one week late.
---
 reliabilityassessment/monte_carlo/week.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/week.py b/reliabilityassessment/monte_carlo/week.py
index 2625ab9..13a131f 100644
--- a/reliabilityassessment/monte_carlo/week.py
+++ b/reliabilityassessment/monte_carlo/week.py
@@ -37,8 +37,8 @@ def week(CLOCK, ATRIB, MFA, NUMINQ, IPOINT, EVNTS, PLNDST, JHOUR, JPLOUT):
 
     PLNDST[:] = 1.0
 
-    # in original Fortran code JWEEK = JHOUR/168 + 1 due to 1-based index
-    JWEEK = JHOUR // 168
+    # JHOUR is the (0-based) hour simulated last; the week starts at the next one
+    JWEEK = (JHOUR + 1) // 168
     if JWEEK > 51:
         return IPOINT, MFA, NUMINQ
 
-- 
2.43.0


From 853fc8e99d6fc9ef167499414bb74371366bb4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 09/25] fix: narpMain: start with the first season's ratings

quartr() advances IQ before it reads RATES, so the run started with the
ratings of the second season.
---
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index cdaa8b6..338088e 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -94,7 +94,7 @@ def narpMain(TEST_DIR):
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
     ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
-    IQ = 0  # initialize the quarter index to be 0 (i.e., the 1st quarter)
+    IQ = -1  # the first quarterly event advances it to 0 (i.e., the 1st quarter)
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
     XLAST = 0.0  # initial values for convergence-related quantities
-- 
2.43.0


From 7fd31f40fee095041ef018d92904b9abc4535db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 10/25] fix: initl: schedule the season changes at the user's
 weeks

The quarter times were hard-coded; END WK1-3 of ZZMC had no effect on
the simulation.
---
 reliabilityassessment/monte_carlo/initl.py    | 9 +++++----
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/initl.py b/reliabilityassessment/monte_carlo/initl.py
index d94c98c..11a18cb 100644
--- a/reliabilityassessment/monte_carlo/initl.py
+++ b/reliabilityassessment/monte_carlo/initl.py
@@ -74,13 +74,14 @@ def _initl(JSTEP, EVNTS, IPOINT, MFA, NUMINQ, QTR):
     return ATRIB, CLOCK, IPOINT, MFA, NUMINQ
 
 
-def initl(JSTEP, EVNTS):
+def initl(JSTEP, EVNTS, QTR=(2184.5, 4368.5, 6552.5)):
     """
     Initialization for the Monte Carlo Simulation
 
     :param int JSTEP: frequency of simulation statistics collection, 1: hourly 24:
         daily, i.e. only peak stats are collected
     :param numpy.ndarray EVNTS: 1D array of events
+    :param numpy.ndarray QTR: 1D array of ending hours of the first three seasons
     :return: (*tuple*) -- ATRIB: events attribute vector of length 2
                                  ATRIB[0] -- global simulation clock (in unit: hour)
                                  ATRIB[1] -- int, simulation type
@@ -102,9 +103,9 @@ def initl(JSTEP, EVNTS):
     EVNTS[:28] = np.array(
         [
             24,   0.5,    3, 0.0,  # noqa: E241 1st quarterly state change
-            8.0,  2184.5, 3, 0.0,  # noqa: E241 2nd quarterly state change
-            12.0, 4368.5, 3, 0.0,  # noqa: E241 3rd quarterly state change
-            16.0, 6552.5, 3, 0.0,  # noqa: E241 4th quarterly state change
+            8.0,  QTR[0], 3, 0.0,  # noqa: E241 2nd quarterly state change
+            12.0, QTR[1], 3, 0.0,  # noqa: E241 3rd quarterly state change
+            16.0, QTR[2], 3, 0.0,  # noqa: E241 4th quarterly state change
             -1.0, 8760.0, 4, 0.0,  # noqa: E241 first call to subroutine "year"
             0,    0.5,    2, 0.0,  # noqa: E241 first call to subroutine "week"
             4.0,  JSTEP,  1, 0.0,  # noqa: E241 first Monte Carlo draw
diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 338088e..b9a5506 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -93,7 +93,7 @@ def narpMain(TEST_DIR):
     # ----------------------------Finish data processing part--------------------------
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
-    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
+    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS, QTR)
     IQ = -1  # the first quarterly event advances it to 0 (i.e., the 1st quarter)
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
-- 
2.43.0


From 48c7ddc18047276f05af32369ad6ff2b47b6191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 11/25] fix: datax: read firm contracts

Any firm contract raised a TypeError; its 1-based days were used as
0-based indices, and a second contract of the same pair of areas was
mismatched.
---
 reliabilityassessment/data_processing/datax.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index cb83588..71fcf91 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -118,16 +118,19 @@ def datax(inputB_dict):
     # INTCHR: recording the from and to area no. for each contract
     INTCHR = np.zeros((MAX_CONTRACTS, 2))
     if inputB_dict["ZZFC"] and len(inputB_dict["ZZFC"]["SNRI"]) > 0:
-        for i, (src, dst) in enumerate(
-            dict.fromkeys(zip(inputB_dict["ZZFC"]["NAR"]), inputB_dict["ZZFC"]["NAE"])
+        contracts = {}
+        for n, (src, dst) in enumerate(
+            zip(inputB_dict["ZZFC"]["NAR"], inputB_dict["ZZFC"]["NAE"])
         ):
+            i = contracts.setdefault((src, dst), len(contracts))
             JENT[src, dst] = i
             INTCHR[i, :] = src, dst
+            # the days of the input are 1-based and inclusive
             beg_day, end_day = (
-                inputB_dict["ZZFC"]["BEG DAY"][i],
-                inputB_dict["ZZFC"]["END DAY"][i],
+                inputB_dict["ZZFC"]["BEG DAY"][n],
+                inputB_dict["ZZFC"]["END DAY"][n],
             )
-            INTCH[i, beg_day : end_day + 1] = inputB_dict["ZZFC"]["MW"][i]
+            INTCH[i, beg_day - 1 : end_day] = inputB_dict["ZZFC"]["MW"][n]
 
     # --------------------------------------------------------------
     # Read ownership of units and create appropriate arrays.
-- 
2.43.0


From b9dc0ff739e8e8fada5ed388960aa372e779acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 12/25] fix: resca: a peak day in the last season uses its
 ratings

argmax of an all-false array is 0, the first season.
---
 reliabilityassessment/data_processing/resca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index 02b6437..aa6a8ab 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,7 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.argmax(QTR > IDAY * 24)
+        IPER = np.sum(QTR < IDAY * 24)
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
-- 
2.43.0


From 6f2436e633cdef5dd3c2fd9bb416c39fd1c3a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 13/25] fix: report: the pool reserve is that of the pool

It was computed from the last area.
---
 reliabilityassessment/monte_carlo/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index b7e95a5..ec2dec3 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -534,8 +534,8 @@ def report(
         SUSTAT[NO1, 0] += SUSTAT[i, 0]
         SUSTAT[NO1, 1] += SUSTAT[i, 1]
 
-    if SUSTAT[i, 0] > 0:
-        SUSTAT[NO1, 2] = (SUSTAT[i, 1] - SUSTAT[i, 0]) / SUSTAT[i, 0] * 100
+    if SUSTAT[NO1, 0] > 0:
+        SUSTAT[NO1, 2] = (SUSTAT[NO1, 1] - SUSTAT[NO1, 0]) / SUSTAT[NO1, 0] * 100
 
     if INDX != 1:
         SSHL = 0.0
-- 
2.43.0


From 3f12602d1e3ae420765d4f3d6b2c45a2e7a60740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 14/25] fix: year: pool statistics without a generation loss of
 load

The averages were unbound, or those of another line of the table.
---
 reliabilityassessment/monte_carlo/year.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index e1ab26a..ffcffa4 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -485,13 +485,13 @@ def year(
         for N in range(NFCST):
             if LOLGHP[N] > 0:
                 XMGNH = (MGNGHP[N]) / (LOLGHP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNH = 0.0
 
             if LOLGPP[N] > 0:
                 XMGNP = (MGNGPP[N]) / (LOLGPP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNP = 0.0
 
             if INDX != 1:
                 f.write(
-- 
2.43.0


From 1dd6029b99b067c475c8733b55504199e2b3e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 15/25] fix: narpMain: accumulate the weighted pool totals over
 the years

They were passed to year() as numbers, so each year's addition was lost
and the report and the convergence test saw one year only.
---
 reliabilityassessment/monte_carlo/narpMain.py | 24 +++++++++----------
 reliabilityassessment/monte_carlo/year.py     |  1 +
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index b9a5506..0e30527 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -156,29 +156,29 @@ def narpMain(TEST_DIR):
     SOLTPA = np.zeros((NOAREA, 5))
     SOLTPP = np.zeros(5)
     SWLGHA = np.zeros(NOAREA)
-    SWLGHP = 0
+    SWLGHP = np.zeros(())
     SWLGPA = np.zeros(NOAREA)
-    SWLGPP = 0
+    SWLGPP = np.zeros(())
     SWLSHA = np.zeros(NOAREA)
-    SWLSHP = 0
+    SWLSHP = np.zeros(())
     SWLSPA = np.zeros(NOAREA)
-    SWLSPP = 0
+    SWLSPP = np.zeros(())
     SWLTHA = np.zeros(NOAREA)
-    SWLTHP = 0
+    SWLTHP = np.zeros(())
     SWLTPA = np.zeros(NOAREA)
-    SWLTPP = 0
+    SWLTPP = np.zeros(())
     SWNGHA = np.zeros(NOAREA)
-    SWNGHP = 0
+    SWNGHP = np.zeros(())
     SWNGPA = np.zeros(NOAREA)
-    SWNGPP = 0
+    SWNGPP = np.zeros(())
     SWNSHA = np.zeros(NOAREA)
-    SWNSHP = 0
+    SWNSHP = np.zeros(())
     SWNSPA = np.zeros(NOAREA)
-    SWNSPP = 0
+    SWNSPP = np.zeros(())
     SWNTHA = np.zeros(NOAREA)
-    SWNTHP = 0
+    SWNTHP = np.zeros(())
     SWNTPA = np.zeros(NOAREA)
-    SWNTPP = 0
+    SWNTPP = np.zeros(())
     XNEWA = np.zeros((NOAREA, 3))
     XNEWP = np.zeros(3)
 
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index ffcffa4..4410124 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -716,6 +716,7 @@ def year(
                 else:
                     SUM = SGNSPP[NOERR]
 
+    SUM = float(SUM)  # the pool totals are 0-d arrays, updated in place
     RFLAG, SSQ, XLAST = cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ)
     NOERR = 1
 
-- 
2.43.0


From 90ede77d1f902218e5dbce9c912741575d115c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 16/25] fix: tm2: call conls with its own arguments

conls() takes no INJB: the loss-sharing LP raised a TypeError.
---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index dc1928f..46f21da 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -233,7 +233,7 @@ def tm2(
                 )
     else:
         M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = conls(
-            BB, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS
+            BB, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS
         )
 
         # NXT = NX + 1 defined but not used in original Fortran
-- 
2.43.0


From 261bf43fce30ccf94398bef7043a3829d8be5453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 17/25] fix: tm2: range[JXX] is not callable syntax

The optional transmission printout raised a TypeError.
---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 46f21da..1387359 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -201,7 +201,7 @@ def tm2(
                     NNTAB[JXX] = -i
 
             f.write("%4d\n" % (JXX))
-            for i in range[JXX]:
+            for i in range(JXX):
                 f.write("%4d\n " % (NNTAB[i]))
 
             if JFLAG != 1:
-- 
2.43.0


From 0a41333fa5f1cbbf468a4dc52240f135887a5851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 18/25] fix: hrstat, pkstat: one class for an hour with zero
 pool margin

With a pool margin of exactly zero the pool event was counted in the
transmission class but the areas and the energy in the generation class.
---
 reliabilityassessment/monte_carlo/hrstat.py | 4 ++--
 reliabilityassessment/monte_carlo/pkstat.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/hrstat.py b/reliabilityassessment/monte_carlo/hrstat.py
index b4bdef8..4b93d88 100644
--- a/reliabilityassessment/monte_carlo/hrstat.py
+++ b/reliabilityassessment/monte_carlo/hrstat.py
@@ -56,7 +56,7 @@ def hrstat(
     for j, X in enumerate(MARGIN):
         if X < 0.0:
             LSFLG[j] += 1
-            if SUM > 0.0:
+            if SUM >= 0.0:
                 LOLTHA[j, NST] += 1
                 MGNTHA[j, NST] += int(-X)
                 MGNTHP[NST] += int(-X)
@@ -122,7 +122,7 @@ def _hrstat(
         LOLGHP[NST] += 1
 
     LSFLG[MARGIN < 0] += 1
-    if SUM > 0.0:
+    if SUM >= 0.0:
         LOLTHA[:, NST][MARGIN < 0] += 1
         MGNTHA[:, NST][MARGIN < 0] -= MARGIN[MARGIN < 0].astype(int)
         MGNTHP[NST] -= int(MARGIN[MARGIN < 0].sum())
diff --git a/reliabilityassessment/monte_carlo/pkstat.py b/reliabilityassessment/monte_carlo/pkstat.py
index c5a6d11..49da100 100644
--- a/reliabilityassessment/monte_carlo/pkstat.py
+++ b/reliabilityassessment/monte_carlo/pkstat.py
@@ -53,7 +53,7 @@ def _pkstat(
 
     for j, X in enumerate(MARGIN):
         if X < 0.0:
-            if SUM > 0.0:
+            if SUM >= 0.0:
                 LOLTPA[j, NST] += 1
                 MGNTPA[j, NST] -= int(X)
                 MGNTPP[NST] -= int(X)
@@ -114,7 +114,7 @@ def pkstat(NST, MARGIN, LOLGPA, LOLGPP, LOLTPA, LOLTPP, MGNGPA, MGNGPP, MGNTPA,
     else:
         LOLGPP[NST] += 1
 
-    if SUM > 0.0:
+    if SUM >= 0.0:
         LOLTPA[:, NST][MARGIN < 0] += 1
         MGNTPA[:, NST][MARGIN < 0] -= MARGIN[MARGIN < 0].astype(int)
         MGNTPP[NST] -= MARGIN[MARGIN < 0].sum().astype(int)
-- 
2.43.0


From 718b1d649ad46da5b6d635e07adbb5d93d7aa939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 19/25] fix: xldnew: area numbers of more than one digit

---
 reliabilityassessment/data_processing/xldnew.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/xldnew.py b/reliabilityassessment/data_processing/xldnew.py
index 9d4f510..da0ea9c 100644
--- a/reliabilityassessment/data_processing/xldnew.py
+++ b/reliabilityassessment/data_processing/xldnew.py
@@ -27,7 +27,7 @@ def xldnew(FileNameAndPath, PKLOAD):
 
     for line in Lines:
         if line[:4] == "AREA":
-            areaIdx = int(line[6]) - 1
+            areaIdx = int(line[6:].split()[0]) - 1
             hourIdx = 0
         else:
             HRLOAD[areaIdx, hourIdx : hourIdx + 12] = list(
-- 
2.43.0


From b55897fe58873c91b9cff3356346c4c1e9b2f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 20/25] fix: readInputB: read the ownership percentages of
 every area

The column stayed a vector of texts, so any ownership entry made datax fail.
---
 reliabilityassessment/data_processing/readInputB.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index f7ef13a..128a496 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -473,7 +473,12 @@ def read_card_ZZOD(filepath):
     """
     Percentage ownership by each area
     """
-    data["PERCENT"] = df_ZZOD["PERCENT OWNED BY AREA"].to_numpy()
+    data["PERCENT"] = np.array(
+        [
+            list(map(float, str(s).strip().split(",")))
+            for s in df_ZZOD["PERCENT OWNED BY AREA"]
+        ]
+    )
 
     return data
 
-- 
2.43.0


From cf412350bfb2b49c272e199866c0054835243381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 21/25] fix: intm: save the whole event record

---
 reliabilityassessment/monte_carlo/intm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/intm.py b/reliabilityassessment/monte_carlo/intm.py
index 2a4e5ef..80210f8 100644
--- a/reliabilityassessment/monte_carlo/intm.py
+++ b/reliabilityassessment/monte_carlo/intm.py
@@ -79,7 +79,7 @@ def intm(
     """
 
     snapshot_data = {
-        "ATRIB": ATRIB[1],
+        "ATRIB": ATRIB,
         "CLOCK": CLOCK,
         "IPOINT": IPOINT,
         "XLAST": XLAST,
-- 
2.43.0


From d419cea638b2f153a4d3085530af6b70aeba11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 22/25] fix: year: hand the random streams to the snapshot

---
 reliabilityassessment/monte_carlo/events.py |  2 ++
 reliabilityassessment/monte_carlo/year.py   | 10 ++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/events.py b/reliabilityassessment/monte_carlo/events.py
index d435845..4732c82 100644
--- a/reliabilityassessment/monte_carlo/events.py
+++ b/reliabilityassessment/monte_carlo/events.py
@@ -357,6 +357,8 @@ def events(
             SWNTPP,
             XNEWA,
             XNEWP,
+            IGSEED,
+            ILSEED,
         )
         return (
             RFLAG,
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 4410124..fc1f13e 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -106,6 +106,8 @@ def year(
     SWNTPP,
     XNEWA,
     XNEWP,
+    IGSEED=None,
+    ILSEED=None,
 ):
     """
     Update and summarize all reliability statistics when this 'simulation-year' event is triggered
@@ -732,8 +734,8 @@ def year(
             ITAB,
             INTVT,
             EVNTS,
-            123,  # IGSEED,
-            123,  # ILSEED,
+            IGSEED,
+            ILSEED,
             LT,
             BB,
             ZB,
@@ -799,8 +801,8 @@ def year(
                 ITAB,
                 INTVT,
                 EVNTS,
-                123,  # IGSEED,
-                123,  # ILSEED,
+                IGSEED,
+                ILSEED,
                 LT,
                 BB,
                 ZB,
-- 
2.43.0


From 045c74e302210950c593b07403d9dddbaff1c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 23/25] fix: transm: remaining area limits after the firm
 transfers

---
 reliabilityassessment/monte_carlo/transm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/transm.py b/reliabilityassessment/monte_carlo/transm.py
index de0446c..266c51c 100644
--- a/reliabilityassessment/monte_carlo/transm.py
+++ b/reliabilityassessment/monte_carlo/transm.py
@@ -112,10 +112,11 @@ def transm(
         BLP[:NL, 1] -= FLOW[:NL]
         BLP[:NL, 2] += FLOW[:NL]
         BLP[:NL, [1, 2]] = BLP[:NL, [1, 2]].clip(min=0.0)
-        BN[LP[:NL, 1], 3] += FLOW[:NL]
-        BN[LP[:NL, 1], 4] -= FLOW[:NL]
-        BN[LP[:NL, 2], 3] += FLOW[:NL]
-        BN[LP[:NL, 2], 4] -= FLOW[:NL]
+        np.add.at(BN[:, 3], LP[:NL, 1], FLOW[:NL])
+        np.subtract.at(BN[:, 4], LP[:NL, 1], FLOW[:NL])
+        np.subtract.at(BN[:, 3], LP[:NL, 2], FLOW[:NL])
+        np.add.at(BN[:, 4], LP[:NL, 2], FLOW[:NL])
+        BN[:NN, [3, 4]] = BN[:NN, [3, 4]].clip(min=0.0)
 
     FLOW, INDIC = tm2(
         BN,
-- 
2.43.0


From 1dd725715a2785b02ae3db457a03cb3e120e74c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 24/25] fix: linp: artificial variables stay at zero in phase 2

---
 reliabilityassessment/monte_carlo/linp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reliabilityassessment/monte_carlo/linp.py b/reliabilityassessment/monte_carlo/linp.py
index dc0e9b9..c56ec70 100644
--- a/reliabilityassessment/monte_carlo/linp.py
+++ b/reliabilityassessment/monte_carlo/linp.py
@@ -116,6 +116,14 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
                 if IPH != 2 and BS[i] == 0 and XOB[IBAS[i]] == 1:
                     IPIV = i
 
+            # an artificial variable still in the basis, at zero, leaves first: it
+            # must not become positive in phase 2
+            if IPH == 2:
+                for i in np.where(abs(P[:M]) > 0.0000001)[0]:
+                    if XOBI[0, IBAS[i]] == 1 and abs(BS[i]) < 0.0000001:
+                        IPIV = i
+                        break
+
             for i in np.where(P[:M] != 0)[0]:
                 if i == IPIV:
                     continue
-- 
2.43.0


From 23ca54018022b63932e321c4347f6420e365b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:21 +0000
Subject: [PATCH 25/25] fix: gsm: a unit whose outage rounds to zero leaves the
 table as it is

---
 reliabilityassessment/data_processing/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/gsm.py b/reliabilityassessment/data_processing/gsm.py
index f510de8..01f1946 100644
--- a/reliabilityassessment/data_processing/gsm.py
+++ b/reliabilityassessment/data_processing/gsm.py
@@ -45,7 +45,7 @@ def gsm(N, KT, KP, P1, P2, P3, PA, KA):
     L = 0  # 1 in original Fortran
     KA[0] = 0
     PA[0] = 1.0
-    J = np.array([1, KP == 0, 0])
+    J = np.array([1, KP == 0, KT == 0])
     while J.min() < N and PA[L] > 0.1e-08 and L < INGS1:
         L += 1
         KA[L] = KO[J, [0, 1, 2]].min()
-- 
2.43.0

