From a83eb3e78e67d16886884f59a8eeb1bb4ea01a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 01/47] fix: round the fraction of the second to microseconds
 instead of truncating binary floats

---
 src/georinex/nav2.py |  5 ++---
 src/georinex/obs2.py | 12 +++++-------
 src/georinex/obs3.py |  6 ++----
 3 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index de985d8..99c2151 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 import typing as T
 from pathlib import Path
-from datetime import datetime
+from datetime import datetime, timedelta
 import xarray
 import numpy as np
 import logging
@@ -246,8 +246,7 @@ def _timenav(ln: str) -> datetime:
         hour=int(ln[12:14]),
         minute=int(ln[15:17]),
         second=int(float(ln[17:20])),
-        microsecond=int(float(ln[17:22]) % 1 * 1000000),
-    )
+    ) + timedelta(microseconds=round(float(ln[17:22]) % 1 * 1000000))
 
 
 def _skip(f: T.TextIO, Nl: int):
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 292db34..9136be2 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -551,11 +551,11 @@ def _timehdr(ln: str) -> datetime:
         second = 0
 
     try:
-        usec = int(float(ln[30:43]) % 1 * 1000000)
+        usec = round(float(ln[30:43]) % 1 * 1000000)
     except ValueError:
         usec = 0
 
-    if not 0 <= usec <= 999999:
+    if not 0 <= usec <= 1000000:
         usec = 0
 
     return datetime(
@@ -565,8 +565,7 @@ def _timehdr(ln: str) -> datetime:
         hour=int(ln[18:24]),
         minute=int(ln[24:30]),
         second=second,
-        microsecond=usec,
-    )
+    ) + timedelta(microseconds=usec)
 
 
 def _timeobs(ln: str) -> datetime:
@@ -577,7 +576,7 @@ def _timeobs(ln: str) -> datetime:
         year += 1900
 
     try:
-        usec = int(float(ln[16:26]) % 1 * 1000000)
+        usec = round(float(ln[16:26]) % 1 * 1000000)
     except ValueError:
         usec = 0
 
@@ -588,8 +587,7 @@ def _timeobs(ln: str) -> datetime:
         hour=int(ln[10:12]),
         minute=int(ln[13:15]),
         second=int(ln[16:18]),
-        microsecond=usec,
-    )
+    ) + timedelta(microseconds=usec)
     # %% check if valid time
     eflag = int(ln[28])
     if eflag not in {0, 1, 5, 6}:  # EPOCH FLAG
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index a68dc21..aa6d89d 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -179,8 +179,7 @@ def _timeobs(ln: str) -> datetime:
         hour=int(ln[13:15]),
         minute=int(ln[16:18]),
         second=int(ln[19:21]),
-        microsecond=int(float(ln[19:29]) % 1 * 1000000),
-    )
+    ) + timedelta(microseconds=round(float(ln[19:29]) % 1 * 1000000))
 
 
 def obstime3(fn: T.TextIO | Path, verbose: bool = False):
@@ -337,8 +336,7 @@ def obsheader3(
             hour=int(t0s[18:24]),
             minute=int(t0s[24:30]),
             second=int(float(t0s[30:36])),
-            microsecond=int(float(t0s[30:43]) % 1 * 1000000),
-        )
+        ) + timedelta(microseconds=round(float(t0s[30:43]) % 1 * 1000000))
     except (KeyError, ValueError):
         pass
 
-- 
2.43.0


From 872f182d8f1fcc1f906acb2bba6615ab78861cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 02/47] fix: RINEX 2 OBS satellites numbered above 36 (BeiDou,
 SBAS) no longer overflow the array

---
 src/georinex/obs2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 9136be2..8bf18aa 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -104,10 +104,11 @@ def rinexsystem2(
     Nsvsys may need updating as GNSS systems grow.
     Let us know if you needed to change them.
 
-    Beidou is 35 max
+    Beidou is 63 max
     Galileo is 36 max
+    SBAS is 58 max
     """
-    Nsvsys = 36
+    Nsvsys = 63
 
     hdr = obsheader2(fn, useindicators, meas)
 
-- 
2.43.0


From 075fec8c53479c50f32e1a616edc76f315510c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 03/47] fix: RINEX 2 OBS blank satellite system means GPS;
 SBAS-only files use GPS time

---
 src/georinex/common.py | 2 +-
 src/georinex/obs2.py   | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 97bc0af..33a7601 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -52,7 +52,7 @@ def determine_time_system(header: dict[T.Hashable, T.Any]) -> str:
     except KeyError:
         file_type = header["systems"]
 
-    if file_type == "G":
+    if file_type in ("G", "S", " "):  # SBAS uses GPS time, RINEX 2 blank means GPS
         ts = "GPS"
     elif file_type == "R":
         ts = "GLO"
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 8bf18aa..c1bb3cc 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -395,6 +395,8 @@ def obsheader2(
         hdr["systems"] = hdr["RINEX VERSION / TYPE"][40]
     except KeyError:
         pass
+    if hdr["systems"] == " ":  # blank means GPS
+        hdr["systems"] = "G"
 
     hdr["Nobs"] = Nobs
     # 5 observations per line (incorporating LLI, SSI)
-- 
2.43.0


From 752a71378b4c6f59968dac0acdb3cc03a9042462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 04/47] fix: strict RINEX 2 OBS reading with interval= attached
 data to the wrong epochs; keep sub-millisecond epochs

---
 src/georinex/obs2.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index c1bb3cc..78d33ec 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -170,13 +170,12 @@ def rinexsystem2(
             if verbose:
                 print(time_epoch, end="\r")
 
-            if fast:
-                try:
-                    times[j] = time_epoch
-                except IndexError as e:
-                    raise IndexError(
-                        f'may be "fast" mode bug, try fast=False or "-strict" command-line option {e}'
-                    )
+            try:
+                times[j] = time_epoch
+            except IndexError as e:
+                raise IndexError(
+                    f'may be "fast" mode bug, try fast=False or "-strict" command-line option {e}'
+                )
             # %% Does anyone need this?
             #            try:
             #                toffset = ln[68:80]
@@ -253,6 +252,7 @@ def rinexsystem2(
                 else:
                     data[i, j, isv] = darr[:, k]
     # %% output gathering
+    times = times[: j + 1]
     data = data[:, : times.size, :]  # trims down for unneeded preallocated
 
     fields = []
@@ -520,7 +520,7 @@ def obstime2(fn: T.TextIO | Path, verbose: bool = False):
 
             _skip(f, ln, hdr["Nl_sv"])
 
-    times = np.asarray(times, dtype="datetime64[ms]")
+    times = np.asarray(times, dtype="datetime64[us]")
 
     check_unique_times(times)
 
-- 
2.43.0


From 6f8ca206048ef5db52b08d7fca73ddf39ea63936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 05/47] fix: RINEX 2 NAV blank or trimmed fields no longer
 shift the fields after them

---
 src/georinex/nav2.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 99c2151..fa2ec7f 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -141,10 +141,13 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
 
             times.append(time)
             # %% read the data as one big long string per SV
-            raw = ln[22:79]
+            # trailing blanks may be trimmed: pad, so that each field keeps its place
+            raw = f"{ln[22:79].rstrip():57s}"
             # NOTE: MUST be 79, not 80 due to some files that put \n a character early!
-            for _ in range(Nl[header["systems"]]):
-                raw += f.readline()[STARTCOL2:79]
+            for k in range(Nl[header["systems"]]):
+                # last field of Galileo broadcast orbit 5 is spare
+                w = 57 if svtype == "E" and k == 4 else 76
+                raw += f"{f.readline()[STARTCOL2:79][:w].rstrip():{w}s}"
             # one line per SV
             # Sebastijan also added .replace('  ', ' ').replace(' -', '-') here,
             # I didn't add that yet because I don't know if it's generally needed.
@@ -174,7 +177,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
             It assumes the blank is always in the last measurement for now.
             """
             dvec = [
-                float(raws[i][k * Lf : (k + 1) * Lf])
+                float(raws[i][k * Lf : (k + 1) * Lf].strip() or "nan")
                 for k in range(min(len(fields), len(raws[i]) // Lf))
             ]
             data[: len(dvec), it, j] = dvec
-- 
2.43.0


From 09ea902571fd21cb0badb5a4212e9e1f52c78d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 06/47] fix: RINEX 3 NAV records with blank, trimmed or missing
 optional fields keep their fields in place

---
 src/georinex/nav3.py | 65 ++++++++++++--------------------------------
 1 file changed, 17 insertions(+), 48 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index aa936f8..6310953 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -72,10 +72,11 @@ def rinexnav3(
             # patch SV names in case of "G 7" => "G07"
 
             # %% get the data as one big long string per SV, unknown # of lines per SV
-            raw = line[23:80]  # NOTE: 80, files put data in the last column!
+            # trailing blanks may be trimmed: pad, so that each field keeps its place
+            raw = f"{line[23:80].rstrip():57s}"  # NOTE: 80, files put data in the last column!
 
             for _, ln in zip(range(Nl[sv[0]]), f):
-                raw += ln[STARTCOL3:80]
+                raw += f"{ln[STARTCOL3:80].rstrip():76s}"
             # one line per SV
             raws.append(raw.replace("D", "E").replace("\n", ""))
 
@@ -95,8 +96,7 @@ def rinexnav3(
             duplicate = tu.size != t[svi][check].size
 
             full_fields = fields[sv[0]]
-            compact_fields = _sparefields(full_fields, sys=sv[0], N=_num_fields(raws[svi[0]]))
-            compact_index = [i for i, c in enumerate(full_fields) if c in compact_fields]
+            compact_index = _sparefields(full_fields, sv[0], [raws[i] for i in svi])
 
             darr = np.empty((svi.size, len(full_fields)))
             darr.fill(np.nan)
@@ -105,7 +105,7 @@ def rinexnav3(
                 try:
                     darr[j, compact_index] = [
                         float(raws[i][LF * k : LF * (k + 1)].strip() or 0)
-                        for k in range(len(compact_index))
+                        for k in compact_index
                     ]
                 except ValueError:
                     logging.info(f"malformed line for {sv}")
@@ -187,56 +187,25 @@ def _time(ln: str) -> datetime:
     )
 
 
-def _sparefields(cf: list[str], sys: str, N: int) -> list[str]:
+def _sparefields(cf: list[str], sys: str, raws: list[str]) -> list[int]:
     """
+    indices of the fields present in the records "raws" of a satellite:
     check for optional spare fields, or GPS "fit interval" field
 
     You might find a new way that NAV3 files are irregular--please open a
     GitHub Issue or Pull Request.
     """
 
-    # %% patching for Spare entries, some receivers include, and some don't include...
-    if sys == "G":
-        if N == 30:
-            cf = cf[:-1]
-        elif N == 29:
-            cf = cf[:-2]
-        elif N == 28:
-            # no FitIntvl either
-            cf = cf[:-3]
-    elif sys == "C":
-        if N == 27:
-            cf = cf[:20] + [cf[21]] + cf[23:29]
-        elif N == 28:
-            cf = cf[:22] + cf[23:29]
-        elif N == 29:
-            cf = cf[:29]
-        elif N == 30:
-            cf = cf[:30]
-    elif sys == "J":
-        # QZSS
-        if N==28:
-            N = 29
-            cf = cf[:29]
-        elif N == 29:
-            cf = cf[:29]
-        elif N == 30:
-            cf = cf[:30]
-    elif sys == "E":
-        if N == 29:  # only one trailing spare fields
-            cf = cf[:-2]
-        elif N == 28:  # zero trailing spare fields
-            cf = cf[:-3]
-        elif N == 27:  # no middle or trailing spare fields
-            cf = cf[:22] + cf[23:-3]
-    elif sys == "I":
-        if N == 28:
-            cf = cf[:28]
-
-    if N != len(cf):
-        raise ValueError(f"System {sys} NAV data is not the same length as the number of fields.")
-
-    return cf
+    N = max(_num_fields(raw) for raw in raws)
+    if sys == "J":  # missing "fit interval" means zero
+        N = max(N, 29)
+
+    # some receivers include the spare fields, and some don't include...
+    return [
+        k
+        for k, c in enumerate(cf[:N])
+        if not c.startswith("spare") or any(raw[LF * k : LF * (k + 1)].strip() for raw in raws)
+    ]
 
 
 def _fields(ln: str, sv_sys: str) -> list[str]:
-- 
2.43.0


From 2f073f8cbae0179334979188be8136e381fa5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 07/47] fix: RINEX 3 NAV records after a blank line are no
 longer lost

---
 src/georinex/nav3.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 6310953..6a5247f 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -39,9 +39,6 @@ def rinexnav3(
         header = navheader3(f)
         # %% read Epoch / ToC (Time of Clock)
         for line in f:
-            if line.startswith("\n"):  # EOF
-                break
-
             try:
                 time = _time(line)
             except ValueError:  # blank or garbage line
-- 
2.43.0


From bf172ed5a4d42ae544a8d71d16345540add7e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 08/47] fix: RINEX 2 NAV record cut off at the end of the file
 no longer loses the records before it

---
 src/georinex/nav2.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index fa2ec7f..1d17622 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -176,10 +176,14 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
             some files sometimes drop the last measurement, this fixes that.
             It assumes the blank is always in the last measurement for now.
             """
-            dvec = [
-                float(raws[i][k * Lf : (k + 1) * Lf].strip() or "nan")
-                for k in range(min(len(fields), len(raws[i]) // Lf))
-            ]
+            try:
+                dvec = [
+                    float(raws[i][k * Lf : (k + 1) * Lf].strip() or "nan")
+                    for k in range(min(len(fields), len(raws[i]) // Lf))
+                ]
+            except ValueError:
+                logging.info(f"malformed line for {sv}")
+                continue
             data[: len(dvec), it, j] = dvec
 
     # %% assemble output
-- 
2.43.0


From 10005330abdbc75635b2b40e36fff2efc9873ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 09/47] fix: RINEX 2 OBS file that ends in the middle of an
 epoch no longer loses the epochs before it

---
 src/georinex/obs2.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 78d33ec..9df528b 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -221,18 +221,21 @@ def rinexsystem2(
                 for k in range(hdr["Nobs"]):
                     v = r[k * (Lf + 2) : (k + 1) * (Lf + 2)]
 
-                    if useindicators:
-                        if v[:-2].strip():
-                            darr[i, k * 3] = float(v[:-2])
-
-                        if v[-2].strip():
-                            darr[i, k * 3 + 1] = float(v[-2])
-
-                        if v[-1].strip():
-                            darr[i, k * 3 + 2] = float(v[-1])
-                    else:
-                        if v[:-2].strip():
-                            darr[i, k] = float(v[:-2])
+                    try:
+                        if useindicators:
+                            if v[:-2].strip():
+                                darr[i, k * 3] = float(v[:-2])
+
+                            if v[-2].strip():
+                                darr[i, k * 3 + 1] = float(v[-2])
+
+                            if v[-1].strip():
+                                darr[i, k * 3 + 2] = float(v[-1])
+                        else:
+                            if v[:-2].strip():
+                                darr[i, k] = float(v[:-2])
+                    except ValueError as e:  # e.g. number cut off at end of file
+                        logging.debug(e)
 
             assert darr.shape[0] == gsv.size
 
@@ -494,6 +497,8 @@ def _getSVlist(ln: str, N: int, sv: list[str]) -> list[str]:
     # compatibility for early rinex where a space
     # in SSI position is assumed to be GPS
     for i, s in enumerate(sv):
+        if len(s.rstrip()) < 3:
+            raise ValueError("satellite list truncated")
         if s[0] == " ":
             sv[i] = "G" + s[1:3]
 
@@ -532,7 +537,11 @@ def _skip(f: T.TextIO, ln: str, Nl_sv: int, sv: list[str] | None = None):
     skip ahead to next time step
     """
     if sv is None:
-        sv = _getsvind(f, ln)
+        try:
+            sv = _getsvind(f, ln)
+        except ValueError as e:
+            logging.debug(e)
+            return
 
     # f.seek(len(sv)*Nl_sv*80, 1)  # not for io.TextIOWrapper ?
     for _ in range(len(sv) * Nl_sv):
@@ -592,7 +601,7 @@ def _timeobs(ln: str) -> datetime:
         second=int(ln[16:18]),
     ) + timedelta(microseconds=usec)
     # %% check if valid time
-    eflag = int(ln[28])
+    eflag = int(ln[28:29])
     if eflag not in {0, 1, 5, 6}:  # EPOCH FLAG
         raise ValueError(f"{t}: epoch flag {eflag}")
 
-- 
2.43.0


From 976a4be02fea03ff297034be40bab98e96729c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 10/47] fix: RINEX 2 OBS loss of lock indicator of L6, L7, L8
 is no longer dropped

---
 src/georinex/obs2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 9df528b..c3b0c02 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -262,8 +262,8 @@ def rinexsystem2(
     for field in hdr["fields"]:
         fields.append(field)
         if useindicators:
-            if field not in {"S1", "S2", "S5"}:
-                if field in {"L1", "L2", "L5"}:
+            if not field.startswith("S"):
+                if field.startswith("L"):
                     fields.append(f"{field}lli")
                 else:
                     fields.append(None)
-- 
2.43.0


From 439cdab7cf57f2ac276a56db1bb7911d3135697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 11/47] fix: RINEX 3 OBS loss of lock indicator is no longer
 dropped on bands other than 1 and 2

---
 src/georinex/obs3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index aa6d89d..6da20e0 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -259,7 +259,7 @@ def _indicators(d: dict, k: str, arr: np.ndarray) -> dict[str, tuple]:
     """
     handle LLI (loss of lock) and SSI (signal strength)
     """
-    if k.startswith(("L1", "L2")):
+    if k.startswith("L"):
         d[k + "lli"] = (("time", "sv"), np.atleast_2d(arr[:, 0]))
 
     d[k + "ssi"] = (("time", "sv"), np.atleast_2d(arr[:, 1]))
-- 
2.43.0


From 68b5f58dd8e6d244a2dc98508be5bf2068234f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 12/47] fix: RINEX 3 OBS epochs with 100 or more satellites

---
 src/georinex/obs3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 6da20e0..7ba9d5a 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -98,7 +98,7 @@ def rinexobs3(
             sv = []
             raw = ""
             # Number of visible satellites this time %i3  pg. A13
-            for _ in range(int(ln[33:35])):
+            for _ in range(int(ln[32:35])):
                 ln = f.readline()
                 sv.append(ln[:3])
                 raw += ln[3:]
-- 
2.43.0


From 51ee7e7e4c07a7fd3a799bac5a71b54d6516f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 13/47] fix: RINEX 3 OBS event records, junk lines and cut off
 epochs neither add nor lose data

---
 src/georinex/obs3.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 7ba9d5a..6bca154 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -81,11 +81,9 @@ def rinexobs3(
         # %% process OBS file
         time_offset = []
         for ln in f:
-            if not ln.startswith(">"):  # end of file
-                break
-
             try:
                 time = _timeobs(ln)
+                Nsv = int(ln[32:35])  # Number of visible satellites this time %i3  pg. A13
             except ValueError:  # garbage between header and RINEX data
                 logging.debug(f"garbage detected in {fn}, trying to parse at next time step")
                 continue
@@ -97,11 +95,13 @@ def rinexobs3(
             # %% get SV indices
             sv = []
             raw = ""
-            # Number of visible satellites this time %i3  pg. A13
-            for _ in range(int(ln[32:35])):
-                ln = f.readline()
+            for _, ln in zip(range(Nsv), f):
                 sv.append(ln[:3])
-                raw += ln[3:]
+                raw += ln[3:].rstrip("\r\n") + "\n"
+
+            if len(sv) != Nsv or not all(s.rstrip()[1:] for s in sv):
+                logging.debug(f"incomplete epoch {time} in {fn}")
+                continue
 
             if tlim is not None:
                 if time < tlim[0]:
@@ -172,6 +172,9 @@ def _timeobs(ln: str) -> datetime:
     if not ln.startswith("> "):  # pg. A13
         raise ValueError('RINEX 3 line beginning "> " is not present')
 
+    if ln[31:32] in {"2", "3", "4", "5"}:  # event record, not observations
+        raise ValueError(f"epoch flag {ln[31]}")
+
     return datetime(
         int(ln[2:6]),
         int(ln[7:9]),
-- 
2.43.0


From ac5e5c948790624cf096d7c9b7296b6f04fbc6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 14/47] fix: SP3 velocity and clock rate are NaN, not
 uninitialized memory, when not in the file

---
 src/georinex/sp3.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 6408077..7efa2ec 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -63,9 +63,10 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
         ecefs = []
         clocks = []
         vels = []
-        ecef = np.empty((Nsv, 3))
-        clock = np.empty((Nsv, 2))
-        vel = np.empty((Nsv, 3))
+        # may not always have velocity and clock rate-of-change
+        ecef = np.full((Nsv, 3), np.nan)
+        clock = np.full((Nsv, 2), np.nan)
+        vel = np.full((Nsv, 3), np.nan)
         i = 0
 
         times = [sp3dt(ln)]
@@ -77,11 +78,9 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
                 clocks.append(clock)
                 vels.append(vel)
 
-                ecef = np.empty((Nsv, 3))
-                clock = np.empty((Nsv, 2))  # clock and clock rate-of-change
-
-                vel = np.empty((Nsv, 3))
-                vel.fill(np.nan)  # may not always have velocity
+                ecef = np.full((Nsv, 3), np.nan)
+                clock = np.full((Nsv, 2), np.nan)  # clock and clock rate-of-change
+                vel = np.full((Nsv, 3), np.nan)
 
                 i = 0
                 continue
-- 
2.43.0


From fa2f8e245d8b98143d59be6092445e686c1d5bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 15/47] fix: load() of SP3 from StringIO

---
 src/georinex/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 60f079a..6feda3a 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -77,11 +77,12 @@ def load(
             interval=interval,
         )
 
-    assert isinstance(rinexfn, Path)
-
     if info["rinextype"] == "sp3":
         return load_sp3(rinexfn, outfn)
-    elif rinexfn.suffix == ".nc":
+
+    assert isinstance(rinexfn, Path)
+
+    if rinexfn.suffix == ".nc":
         # outfn not used here, because we already have the converted file!
         try:
             nav = rinexnav(rinexfn)
-- 
2.43.0


From d022cd01f4018290657566a615d0b7cacea4bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 16/47] fix: tlim strings are compared as times, not as text

---
 src/georinex/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 6feda3a..5aa6607 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -56,6 +56,7 @@ def load(
     if tlim is not None:
         if len(tlim) != 2:
             raise ValueError("time bounds are specified as start stop")
+        tlim = _tlim(tlim)
         if tlim[1] < tlim[0]:
             raise ValueError("stop time must be after start time")
 
-- 
2.43.0


From a8a1838ba95a4019a381fb233e3523754b2ad1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 17/47] fix: batch_convert goes on after a file that cannot be
 read

---
 src/georinex/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 5aa6607..2c201ea 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -135,7 +135,7 @@ def batch_convert(
                 verbose=verbose,
                 fast=fast,
             )
-        except ValueError as e:
+        except Exception as e:  # one bad file must not stop the others
             logging.error(f"{fn.name}: {e}")
 
 
-- 
2.43.0


From 6b2b18d602f9a15f20820e3802b25f1a52e71c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 18/47] fix: load() and rinexinfo() of a NetCDF file with both
 OBS and NAV

---
 src/georinex/rio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index cae2bde..fac37ca 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -145,14 +145,16 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         fn = Path(f).expanduser()
 
         if fn.suffix == ".nc":
-            attrs: dict[T.Hashable, T.Any] = {"rinextype": []}
+            attrs: dict[T.Hashable, T.Any] = {}
+            rinextype = []
             for g in ("OBS", "NAV"):
                 try:
                     dat = xarray.open_dataset(fn, group=g)
-                    attrs["rinextype"].append(g.lower())
+                    rinextype.append(g.lower())
                 except OSError:
                     continue
                 attrs.update(dat.attrs)
+            attrs["rinextype"] = rinextype[0] if len(rinextype) == 1 else rinextype
             return attrs
 
         with opener(fn, header=True) as f:
-- 
2.43.0


From dd6caefa9dbf529b64a928cb2161539c6d36b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 19/47] fix: zip compressed CRINEX; same text decoding whatever
 the compression

---
 src/georinex/rio.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index fac37ca..dcdbd21 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -50,7 +50,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
         suffix = fn.suffix.lower()
 
         if suffix == ".gz" or magic.startswith(b"\x1f\x8b"):
-            with gzip.open(fn, "rt") as f:
+            with gzip.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -66,7 +66,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
             """
             plain bzip2 files, NOT tar.bz2, which requires f.seek(512)
             """
-            with bz2.open(fn, "rt") as f:
+            with bz2.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -84,13 +84,23 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                         f = io.StringIO(
                             io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read()  # type: ignore
                         )
+                        _, is_crinex = rinex_version(first_nonblank_line(f))
+                        f.seek(0)
+
+                        if is_crinex and not header:
+                            """
+                            zip compressed CRINEX
+                            """
+                            f = io.StringIO(crx2rnx(f.read()))
                         yield f
         elif suffix == ".z" or magic.startswith(b"\x1f\x9d"):
             if unlzw is None:
                 raise ImportError("ncompress unlzw not available")
 
             with fn.open("rb") as zu:
-                with io.StringIO(unlzw(zu.read()).decode("ascii")) as f:
+                with io.StringIO(
+                    unlzw(zu.read()).decode("ascii", errors="ignore"), newline=None
+                ) as f:
                     _, is_crinex = rinex_version(first_nonblank_line(f))
                     f.seek(0)
 
-- 
2.43.0


From fb92b691b0fe9ec584ee9da7db90e367f51955e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 20/47] fix: get_locations mixed up files with the same name,
 and stopped at NetCDF files without OBS

---
 src/georinex/geo.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/georinex/geo.py b/src/georinex/geo.py
index 4691ab6..d6cd11a 100644
--- a/src/georinex/geo.py
+++ b/src/georinex/geo.py
@@ -17,19 +17,20 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
     if isinstance(files, (Path, io.StringIO)):
         files = [files]
 
-    if isinstance(files[0], io.StringIO):
-        locs = pandas.DataFrame(index=["0"], columns=["lat", "lon", "interval"])
-    elif isinstance(files[0], Path):
-        locs = pandas.DataFrame(
-            index=[file.name for file in files], columns=["lat", "lon", "interval"]
-        )
-    else:
+    if not isinstance(files[0], (Path, io.StringIO)):
         raise TypeError("Expecting pathlib.Path")
 
+    # one row per file, as different files may have the same name
+    keys: list[str] = []
+    rows: list[list[T.Any]] = []
+
     hdr: dict[T.Hashable, T.Any]
-    for file in files:
+    for i, file in enumerate(files):
         if isinstance(file, Path) and file.suffix == ".nc":
-            dat = xarray.open_dataset(file, group="OBS")
+            try:
+                dat = xarray.open_dataset(file, group="OBS")
+            except OSError:
+                continue
             hdr = dat.attrs
         else:
             try:
@@ -40,15 +41,17 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
         if isinstance(file, Path):
             key = file.name
         else:
-            key = "0"
+            key = str(i)
 
         if "position_geodetic" not in hdr:
             continue
 
-        locs.loc[key, "lat"] = hdr["position_geodetic"][0]
-        locs.loc[key, "lon"] = hdr["position_geodetic"][1]
-        if "interval" in hdr and hdr["interval"] is not None:
-            locs.loc[key, "interval"] = hdr["interval"]
+        lat, lon = hdr["position_geodetic"][:2]
+        keys.append(key)
+        interval = hdr.get("interval")
+        rows.append([lat, lon, float("nan") if interval is None else interval])
+
+    locs = pandas.DataFrame(rows, index=keys, columns=["lat", "lon", "interval"], dtype=object)
 
     locs = locs.loc[locs.loc[:, ["lat", "lon"]].notna().all(axis=1), :]
 
-- 
2.43.0


From d37c9debdbaa8711a035ff8946e840793999f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 21/47] fix: keplerian2ecef of a satellite selected from a
 loaded NAV file

---
 src/georinex/keplerian.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 19f0c13..5ec42b5 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -22,7 +22,12 @@ def keplerian2ecef(
     http://web.cecs.pdx.edu/~ssp/Reports/2006/Monaghan.pdf
     """
 
-    if "sv" in sv and sv["sv"] in {"R", "S"}:
+    if "sv" in sv:
+        svtype = str(np.atleast_1d(sv["sv"].values)[0])[0]
+    else:
+        svtype = sv.svtype[0]
+
+    if svtype in {"R", "S"}:
         return sv["X"], sv["Y"], sv["Z"]
 
     # sv = sv.dropna(dim='time', how='all')
@@ -38,13 +43,13 @@ def keplerian2ecef(
     n = n0 + sv["DeltaN"].values  # corrected mean motion
 
     # from GPS Week 0
-    if sv.svtype[0] == "E":
+    if svtype == "E":
         weeks = sv["GALWeek"].values - 1024
         # TODO: need to add N*4096 for year 2058 and beyond
-    elif sv.svtype[0] == "G":
+    elif svtype == "G":
         weeks = sv["GPSWeek"].values
     else:
-        raise ValueError(f"Unknown system type {sv.svtype[0]}")
+        raise ValueError(f"Unknown system type {svtype}")
     # %% shaping
     weeks = np.atleast_1d(weeks).astype(float)
     Toe = np.atleast_1d(sv["Toe"].values).astype(float)
-- 
2.43.0


From 43019a3ad93ec8c886418719ad5f030b1a73088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 22/47] fix: reject a negative timedelta interval like a
 negative number

---
 src/georinex/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 33a7601..8404066 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -80,7 +80,8 @@ def check_time_interval(interval: float | int | timedelta | None) -> timedelta |
             raise ValueError("time interval must be non-negative")
         interval = timedelta(seconds=interval)
     elif isinstance(interval, timedelta):
-        pass
+        if interval < timedelta(0):
+            raise ValueError("time interval must be non-negative")
     elif interval is None:
         pass
     else:
-- 
2.43.0


From d29324cc57a825c7a665dddd90d546d395df4846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:34 +0000
Subject: [PATCH 23/47] fix: reading a NetCDF file leaves it closed, so that it
 can be written to afterwards

---
 src/georinex/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 2c201ea..b3c68ad 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -155,7 +155,7 @@ def rinexnav(
 
         if fn.suffix == ".nc":
             try:
-                return xarray.open_dataset(fn, group=group)
+                return xarray.load_dataset(fn, group=group)
             except OSError as e:
                 raise LookupError(f"Group {group} not found in {fn}    {e}")
 
@@ -206,7 +206,7 @@ def rinexobs(
         # %% NetCDF4
         if fn.suffix == ".nc":
             try:
-                return xarray.open_dataset(fn, group=group)
+                return xarray.load_dataset(fn, group=group)
             except OSError as e:
                 raise LookupError(f"Group {group} not found in {fn}   {e}")
 
-- 
2.43.0


From 1c06b26308dad1a5cf840506f76ba76ea2d92f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:06 +0000
Subject: [PATCH 24/47] fix: solve Kepler's equation for the eccentric anomaly

One step of the iteration leaves an error of e**2/2 radian, which is
160 m for the example of the test and kilometres for the eccentric
Galileo satellites.
---
 src/georinex/keplerian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 5ec42b5..3adf14b 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -66,7 +66,9 @@ def keplerian2ecef(
         tk[i] = (tsv - toe).total_seconds()  # type: ignore
     # %% Kepler's eqn of eccentric anomaly
     Mk = sv["M0"].values + n * tk  # Mean Anomaly
-    Ek = Mk + e * np.sin(Mk)  # Eccentric anomaly
+    Ek = Mk  # Eccentric anomaly: Ek - e * sin(Ek) = Mk, each iteration reduces the error by a factor e
+    for _ in range(50):
+        Ek = Mk + e * np.sin(Ek)
     # %% true anomaly
     nuK = np.arctan2(np.sqrt(1 - e**2) * np.sin(Ek), np.cos(Ek) - e)
     # %% latitude
-- 
2.43.0


From 4c36718d23588cad2032c758360024af4cb9f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:58 +0000
Subject: [PATCH 25/47] fix: Galileo ephemerides are given in GPS weeks

RINEX aligns the Galileo week number with the GPS week (as in all the
test data); subtracting 1024 propagated the orbits over 1024 weeks.
---
 src/georinex/keplerian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 3adf14b..c993afb 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -44,8 +44,8 @@ def keplerian2ecef(
 
     # from GPS Week 0
     if svtype == "E":
-        weeks = sv["GALWeek"].values - 1024
-        # TODO: need to add N*4096 for year 2058 and beyond
+        # RINEX Galileo weeks are continuous and identical to GPS weeks
+        weeks = sv["GALWeek"].values
     elif svtype == "G":
         weeks = sv["GPSWeek"].values
     else:
-- 
2.43.0


From 9bf63e82964fb6cd0142e5e6def0bbaa9dcc17ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 26/47] fix: one set of Keplerian elements at several times

---
 src/georinex/keplerian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index c993afb..8ddcc4e 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -51,8 +51,10 @@ def keplerian2ecef(
     else:
         raise ValueError(f"Unknown system type {svtype}")
     # %% shaping
-    weeks = np.atleast_1d(weeks).astype(float)
-    Toe = np.atleast_1d(sv["Toe"].values).astype(float)
+    # one set of elements may apply to several times
+    shape = (sv["time"].size,)
+    weeks = np.broadcast_to(np.atleast_1d(weeks).astype(float), shape)
+    Toe = np.broadcast_to(np.atleast_1d(sv["Toe"].values).astype(float), shape)
     e = sv["Eccentricity"].values
 
     T0 = [datetime(1980, 1, 6) + timedelta(weeks=week) for week in weeks]
-- 
2.43.0


From 57261395db9ae0e67e1230df8cae117058c4d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 27/47] fix: get_locations stopped at a truncated compressed
 file or one named .nc that is no NetCDF

---
 src/georinex/geo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/geo.py b/src/georinex/geo.py
index d6cd11a..c5150fc 100644
--- a/src/georinex/geo.py
+++ b/src/georinex/geo.py
@@ -29,13 +29,15 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
         if isinstance(file, Path) and file.suffix == ".nc":
             try:
                 dat = xarray.open_dataset(file, group="OBS")
-            except OSError:
+            except (OSError, ValueError):
                 continue
             hdr = dat.attrs
         else:
             try:
                 hdr = rinexheader(file)
-            except ValueError:
+            except FileNotFoundError:
+                raise
+            except (EOFError, OSError, ValueError):
                 continue
 
         if isinstance(file, Path):
-- 
2.43.0


From 1c54b188bdb324196f0133916a4142f7cdb98810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 28/47] fix: georinex.time stopped at the first truncated or
 corrupt file of a directory

---
 src/georinex/time/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/time/__main__.py b/src/georinex/time/__main__.py
index b1b1917..1db15f8 100644
--- a/src/georinex/time/__main__.py
+++ b/src/georinex/time/__main__.py
@@ -50,7 +50,7 @@ if filename.is_dir():
     for f in flist:
         try:
             eachfile(f)
-        except ValueError as err:
+        except Exception as err:  # one bad file must not stop the others
             logging.error(f"{f.name}: {err}")
 elif filename.is_file():
     eachfile(filename)
-- 
2.43.0


From b32df7f3e6aa5b20a773630e22bccdb66beca4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 29/47] fix: georinex.time failed on files whose header
 INTERVAL is zero

---
 src/georinex/time/__main__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/georinex/time/__main__.py b/src/georinex/time/__main__.py
index 1db15f8..c0d00a5 100644
--- a/src/georinex/time/__main__.py
+++ b/src/georinex/time/__main__.py
@@ -27,9 +27,10 @@ def eachfile(fn: Path):
     interval = hdr.get("interval", np.nan)
     if ~np.isnan(interval):
         ostr += f" {interval}"
-        Nexpect = (t1 - t0) // timedelta(seconds=interval) + 1
-        if Nexpect != Ntimes:
-            logging.warning(f"{fn.name}: expected {Nexpect} but got {Ntimes} times")
+        if interval > 0:
+            Nexpect = (t1 - t0) // timedelta(seconds=interval) + 1
+            if Nexpect != Ntimes:
+                logging.warning(f"{fn.name}: expected {Nexpect} but got {Ntimes} times")
 
     print(ostr)
 
-- 
2.43.0


From bd61999b516d577e7bba07be45b58c7e7ca7a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 30/47] fix: maps with cartopy failed, gca() takes no
 projection any more

---
 src/georinex/plots_geo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index 32f5f6f..57a9f6f 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -25,7 +25,7 @@ def navtimeseries(nav: xarray.Dataset):
     svs = nav.sv.values
 
     if cartopy is not None:
-        ax = figure().gca(projection=cartopy.crs.PlateCarree())
+        ax = figure().add_subplot(projection=cartopy.crs.PlateCarree())
 
         ax.add_feature(cpf.LAND)
         ax.add_feature(cpf.OCEAN)
@@ -91,7 +91,7 @@ def receiver_locations(locs: pandas.DataFrame):
         return
 
     if cartopy is not None:
-        ax = figure().gca(projection=cartopy.crs.PlateCarree())
+        ax = figure().add_subplot(projection=cartopy.crs.PlateCarree())
 
         ax.add_feature(cpf.LAND)
         ax.add_feature(cpf.OCEAN)
-- 
2.43.0


From b417a9a65b9f2b638615bbc66807e67be0e0a348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 31/47] fix: navtimeseries failed where GPS or Galileo
 satellites have records at different times

---
 src/georinex/plots_geo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index 57a9f6f..e406c7d 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -62,7 +62,7 @@ def navtimeseries(nav: xarray.Dataset):
                 logging.warning("GLONASS inclination ~ 65 degrees")
 
         elif sv[0] == "G":
-            ecef = keplerian2ecef(nav.sel(sv=sv))
+            ecef = keplerian2ecef(nav.sel(sv=sv).dropna(dim="time", how="all"))
             lat, lon, alt = pm.ecef2geodetic(*ecef)
 
             if ((alt < 19.4e6) | (alt > 21.0e6)).any():
@@ -71,7 +71,7 @@ def navtimeseries(nav: xarray.Dataset):
             if ((lat < -57) | (lat > 57)).any():
                 logging.warning("GPS inclination ~ 55 degrees")
         elif sv[0] == "E":
-            ecef = keplerian2ecef(nav.sel(sv=sv))
+            ecef = keplerian2ecef(nav.sel(sv=sv).dropna(dim="time", how="all"))
             lat, lon, alt = pm.ecef2geodetic(*ecef)
 
             if ((alt < 23e6) | (alt > 24e6)).any():
-- 
2.43.0


From c5347dc0df0be11fb1845cfbe5b4d427cdf8c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 32/47] fix: receiver_locations failed for intervals of 5 to 15
 seconds, whose colour was none

---
 src/georinex/plots_geo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index e406c7d..b9ebf20 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -104,7 +104,7 @@ def receiver_locations(locs: pandas.DataFrame):
         if 15 <= loc.interval < 30:
             c = "g"
         elif 5 <= loc.interval < 15:
-            c = "o"
+            c = "orange"
         elif loc.interval < 5:
             c = "r"
         else:  # large or undefined interval
-- 
2.43.0


From ccb9cf294936505d4273b7b26aa5fd365ecd145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 33/47] fix: receiver_locations divided by an interval of zero

---
 src/georinex/plots_geo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index b9ebf20..ef798f1 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -105,12 +105,12 @@ def receiver_locations(locs: pandas.DataFrame):
             c = "g"
         elif 5 <= loc.interval < 15:
             c = "orange"
-        elif loc.interval < 5:
+        elif 0 < loc.interval < 5:
             c = "r"
         else:  # large or undefined interval
             c = "b"
 
-        if np.isfinite(loc.interval):
+        if 0 < loc.interval < np.inf:
             ax.scatter(loc.lon, loc.lat, s=1000 * 1 / loc.interval, c=c, label=name)
         else:
             ax.scatter(loc.lon, loc.lat, c=c, label=name)
-- 
2.43.0


From 8b94256c23e32b3cd57215c9ce6e684e5eeac364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 34/47] fix: georinex.plot failed for satellites of other
 systems than GPS

---
 src/georinex/plot/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/plot/__main__.py b/src/georinex/plot/__main__.py
index 2c38232..ef0e65a 100644
--- a/src/georinex/plot/__main__.py
+++ b/src/georinex/plot/__main__.py
@@ -28,7 +28,7 @@ P = p.parse_args()
 
 rinexfn = Path(P.rinexfn).expanduser()
 
-obs = gr.load(rinexfn, use={"G"})
+obs = gr.load(rinexfn, use={sv[0] for sv in P.sv})
 
 # %% optional time indexing demo
 # can use datetime or string
-- 
2.43.0


From 1f52d2155b9633e6ce616db60fb7edf5338a60d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 35/47] fix: georinex.plot failed where a satellite has no or
 only one value of a measurement

---
 src/georinex/plot/__main__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/georinex/plot/__main__.py b/src/georinex/plot/__main__.py
index ef0e65a..24bf82c 100644
--- a/src/georinex/plot/__main__.py
+++ b/src/georinex/plot/__main__.py
@@ -54,7 +54,13 @@ for v, ax in zip(what, axs):
 
     Satobs = obs[v][i].sel(sv=SV).dropna(dim="time", how="all")
 
-    Satobs.plot(ax=ax)
+    if Satobs.size == 0:
+        continue
+
+    if Satobs.size == 1:  # xarray does not choose a plot for a single value
+        Satobs.plot.line(ax=ax, x="time")
+    else:
+        Satobs.plot(ax=ax)
 
     ax.set_title(v)
     # ax.set_ylabel(ylabel)
-- 
2.43.0


From d8f6596fe81a73d32a99730b21671b2dbd379f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 36/47] fix: SP3 epoch times were cut off to the microsecond
 instead of rounded to the nearest

---
 src/georinex/sp3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 7efa2ec..bf5d617 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -161,8 +161,7 @@ def sp3dt(ln: str) -> datetime:
         hour=hour,
         minute=minute,
         second=second,
-        microsecond=int(ln[23:29]),
-    )
+    ) + timedelta(microseconds=round(float(ln[20:31]) % 1 * 1000000))
 
     for t in dt:
         time += t
-- 
2.43.0


From f142cae809b5e3da8a4972f0702386af885b4b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 37/47] fix: obstimeseries failed for data loaded from a text
 stream

---
 src/georinex/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/plots.py b/src/georinex/plots.py
index 3444f6e..7e41697 100644
--- a/src/georinex/plots.py
+++ b/src/georinex/plots.py
@@ -42,7 +42,7 @@ def obstimeseries(obs: xarray.Dataset):
 
         ax.plot(time, dat)
 
-        ax.set_title(obs.filename)
+        ax.set_title(obs.attrs.get("filename", ""))  # text streams have no name
         ax.set_xlabel("time [UTC]")
         ax.set_ylabel(p)
         ax.grid(True)
-- 
2.43.0


From 3423fa6ae15e1d018d1fea8149e4bf7b3a69b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 38/47] fix: georinex.plot dropped the measurements beyond the
 fourth

---
 src/georinex/plot/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/plot/__main__.py b/src/georinex/plot/__main__.py
index 24bf82c..011f532 100644
--- a/src/georinex/plot/__main__.py
+++ b/src/georinex/plot/__main__.py
@@ -46,7 +46,7 @@ what = P.what
 # ylabels = ['Pseudoranges', 'Phase', 'Doppler', 'signal strength']
 
 fg = figure(figsize=(9, 9))
-axs = fg.subplots(4, 1, sharex=True)
+axs = fg.subplots(max(4, len(what)), 1, sharex=True)
 
 for v, ax in zip(what, axs):
     if v not in obs:
-- 
2.43.0


From 36c051fb479ae888f7aece7b576b94e5e315b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 39/47] fix: reject a negative year in RINEX 2 epoch lines

A line whose two-digit year reads as a negative number (-1) yielded an epoch of 1999.
---
 src/georinex/nav2.py | 2 +-
 src/georinex/obs2.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 1d17622..5932ef8 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -241,7 +241,7 @@ def _timenav(ln: str) -> datetime:
     year = int(ln[3:5])
     if 80 <= year <= 99:
         year += 1900
-    elif year < 80:  # because we might pass in four-digit year
+    elif 0 <= year < 80:  # because we might pass in four-digit year
         year += 2000
     else:
         raise ValueError(f"unknown year format {year}")
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index c3b0c02..d059478 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -582,6 +582,9 @@ def _timehdr(ln: str) -> datetime:
 
 def _timeobs(ln: str) -> datetime:
     year = int(ln[1:3])
+    if year < 0:
+        raise ValueError(f"unknown year format {year}")
+
     if year < 80:
         year += 2000
     else:
-- 
2.43.0


From d7f659962d372077df0c20555b6942fa394087d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 40/47] fix: gettime took header comment lines that look like
 an epoch of RINEX 3 OBS for epochs

The header is skipped before the epochs are listed.
---
 src/georinex/obs3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 6bca154..3dac3ff 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -193,6 +193,10 @@ def obstime3(fn: T.TextIO | Path, verbose: bool = False):
     times = []
 
     with opener(fn) as f:
+        for ln in f:
+            if "END OF HEADER" in ln:
+                break
+
         for ln in f:
             if ln.startswith("> "):
                 try:
-- 
2.43.0


From 478170e3a529eb015b16ba95adc67d973d488d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:38 +0000
Subject: [PATCH 41/47] fix: time_offset listed the receiver clock offsets of
 epochs that are not returned

---
 src/georinex/obs3.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 3dac3ff..200fee6 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -88,10 +88,7 @@ def rinexobs3(
                 logging.debug(f"garbage detected in {fn}, trying to parse at next time step")
                 continue
 
-            try:
-                time_offset.append(float(ln[41:56]))
-            except ValueError:
-                pass
+            clock_offset = ln[41:56]
             # %% get SV indices
             sv = []
             raw = ""
@@ -124,6 +121,13 @@ def rinexobs3(
             # this time epoch is complete, assemble the data.
             data = _epoch(data, raw, hdr, time, sv, useindicators, verbose)
 
+            # receiver clock offsets of the epochs that are in the data
+            if any(s[0] in hdr["fields"] for s in sv):
+                try:
+                    time_offset.append(float(clock_offset))
+                except ValueError:
+                    pass
+
     # %% patch SV names in case of "G 7" => "G07"
     data = data.assign_coords(sv=[s.replace(" ", "0") for s in data.sv.values.tolist()])
     # %% other attributes
-- 
2.43.0


From 1d4b906f10f6d1f8338ee14eb4e378bddc599016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:38 +0000
Subject: [PATCH 42/47] fix: the derived interval of RINEX 2 OBS was that of
 whichever system was read last

---
 src/georinex/obs2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index d059478..dd75ced 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -59,6 +59,10 @@ def rinexobs2(
 
     obs.attrs = attrs
 
+    if attrs and "interval" not in obsheader2(fn):
+        # of the epochs of all systems, not of the system that happened to be read last
+        obs.attrs["interval"] = np.median(np.diff(obs.time) / np.timedelta64(1, "s"))
+
     return obs
 
 
-- 
2.43.0


From 16987778c7bdcf8dd305071263a230e54cc7d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:38 +0000
Subject: [PATCH 43/47] fix: Hatanaka text passed as StringIO was read as if it
 were plain RINEX

---
 src/georinex/rio.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index dcdbd21..d388442 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -32,7 +32,16 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
 
     if isinstance(fn, io.StringIO):
         fn.seek(0)
-        yield fn
+        try:
+            _, is_crinex = rinex_version(first_nonblank_line(fn))
+        except (AttributeError, ValueError):  # blank or unknown: for the reader to reject
+            is_crinex = False
+        fn.seek(0)
+
+        if is_crinex and not header:
+            yield io.StringIO(crx2rnx(fn.read()))
+        else:
+            yield fn
     elif isinstance(fn, Path):
         # need to have this check for Windows
         if not fn.is_file():
-- 
2.43.0


From 1e6271ee6673070adb7ad354fba4608155fde093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:38 +0000
Subject: [PATCH 44/47] fix: get_locations raised IndexError for an empty list
 of files

---
 src/georinex/geo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/geo.py b/src/georinex/geo.py
index c5150fc..66b1fb0 100644
--- a/src/georinex/geo.py
+++ b/src/georinex/geo.py
@@ -17,7 +17,7 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
     if isinstance(files, (Path, io.StringIO)):
         files = [files]
 
-    if not isinstance(files[0], (Path, io.StringIO)):
+    if files and not isinstance(files[0], (Path, io.StringIO)):
         raise TypeError("Expecting pathlib.Path")
 
     # one row per file, as different files may have the same name
-- 
2.43.0


From e26851c07d6f13369cf3375a9b036c6c95fc4b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:38 +0000
Subject: [PATCH 45/47] fix: timeseries drew nothing for OBS and NAV together

---
 src/georinex/plots.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/georinex/plots.py b/src/georinex/plots.py
index 7e41697..729aa37 100644
--- a/src/georinex/plots.py
+++ b/src/georinex/plots.py
@@ -9,7 +9,10 @@ except ImportError as e:
 
 
 def timeseries(data):
-    if not isinstance(data, xarray.Dataset):
+    if isinstance(data, dict):  # NetCDF file with OBS and NAV
+        data = data["obs"], data["nav"]
+
+    if not isinstance(data, (xarray.Dataset, tuple)):
         return
 
     if isinstance(data, tuple):
-- 
2.43.0


From fefb225ca4496ed44681b2b5cd17bcfe58444917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 46/47] fix: cycle slip records (epoch flag 6) were read as
 observations

---
 src/georinex/obs2.py | 2 +-
 src/georinex/obs3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index dd75ced..91a5741 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -609,7 +609,7 @@ def _timeobs(ln: str) -> datetime:
     ) + timedelta(microseconds=usec)
     # %% check if valid time
     eflag = int(ln[28:29])
-    if eflag not in {0, 1, 5, 6}:  # EPOCH FLAG
+    if eflag not in {0, 1}:  # EPOCH FLAG: event or cycle slip record
         raise ValueError(f"{t}: epoch flag {eflag}")
 
     return t
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 200fee6..32cb389 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -176,7 +176,7 @@ def _timeobs(ln: str) -> datetime:
     if not ln.startswith("> "):  # pg. A13
         raise ValueError('RINEX 3 line beginning "> " is not present')
 
-    if ln[31:32] in {"2", "3", "4", "5"}:  # event record, not observations
+    if ln[31:32] in {"2", "3", "4", "5", "6"}:  # event or cycle slip record, not observations
         raise ValueError(f"epoch flag {ln[31]}")
 
     return datetime(
-- 
2.43.0


From 44954620f43d7680118191c92f8befbfbdb2bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:00 +0000
Subject: [PATCH 47/47] fix: receiver model from its columns, whatever words
 the number and version have

---
 src/georinex/obs2.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 91a5741..cae9f5e 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -465,9 +465,8 @@ def obsheader2(
     except (KeyError, ValueError):
         pass
 
-    try:
-        s = " "
-        hdr["rxmodel"] = s.join(hdr["REC # / TYPE / VERS"].split()[1:-1])
+    try:  # columns: receiver number [0:20], type [20:40], version [40:60]
+        hdr["rxmodel"] = hdr["REC # / TYPE / VERS"][20:40].strip()
     except (KeyError, ValueError):
         pass
 
-- 
2.43.0

