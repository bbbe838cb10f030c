From 89adbb613a4e53fcdd46eb300b8e132a26ecbfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 01/12] fix: advance past all 10 bits of IODC in message 1044

The offset moved by 8, so the following fit flag was read from inside IODC
and the final length check rejected every QZSS ephemeris.
---
 sub_decoders/RTCM_EPH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_EPH.py b/sub_decoders/RTCM_EPH.py
index 359f788..f467677 100644
--- a/sub_decoders/RTCM_EPH.py
+++ b/sub_decoders/RTCM_EPH.py
@@ -617,7 +617,7 @@ class EphemerisDecoder(Bits):
         eph.URA, offset = self.getbitu(buf, offset, 4), offset + 4  # DF453
         eph.SVH, offset = self.getbitu(buf, offset, 6), offset + 6  # DF454
         eph.TGD, offset = self.getbits(buf, offset, 8), offset + 8  # DF455
-        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 8  # DF456
+        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 10  # DF456
         eph.Fit, offset = self.getbitu(buf, offset, 1), offset + 1  # DF457
 
         # expected offcet value is 485+24=509
-- 
2.43.0


From 7d3e4dc6dbe4dd05302bbfe96cc693246f12023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:16 +0000
Subject: [PATCH 02/12] fix: exclude frame header and CRC when inferring Nm in
 message 1013

With Nm == 0 the number of announcements was computed from the whole frame,
so the 48 bits of header and CRC were counted as announcements.
---
 sub_decoders/RTCM_BASE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 571db59..f7153b9 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -238,7 +238,7 @@ class BaseStationDataDecoder(Bits):
         if bs.Nm != 0:
             Nm = bs.Nm
         else:
-            Nm = math.floor((8 * len(buf) - 70) / 29)
+            Nm = math.floor((8 * (len(buf) - 6) - 70) / 29)
 
         for _ in range(Nm):
             ID, offset = self.getbitu(buf, offset, 12), offset + 12  # DF055
-- 
2.43.0


From a02451f02394870fac26756bb5a03c5104a2f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:20 +0000
Subject: [PATCH 03/12] fix: accept empty strings in messages 1007, 1008, 1029,
 1033

''.split(' ') yields [''] and int('', 16) raised, so a message with any
zero-length string was lost.
---
 sub_decoders/RTCM_BASE.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index f7153b9..4940285 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -195,27 +195,27 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1007/1008/1033 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.descr.split(" ")
+        symbols = ibs.descr.split()
         bs.descr = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSN, BaseADSNRC)):
             # bs.msgNum == 1007:
             return bs
 
-        symbols = bs.serialNumber.split(" ")
+        symbols = bs.serialNumber.split()
         bs.serialNumber = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSNRC)):
             # bs.msgNum == 1008:
             return bs
 
-        symbols = bs.rcvDescriptor.split(" ")
+        symbols = bs.rcvDescriptor.split()
         bs.rcvDescriptor = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvFWVersion.split(" ")
+        symbols = bs.rcvFWVersion.split()
         bs.rcvFWVersion = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvSerNum.split(" ")
+        symbols = bs.rcvSerNum.split()
         bs.rcvSerNum = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
@@ -291,7 +291,7 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1029 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.message.split(" ")
+        symbols = ibs.message.split()
         bs.message = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
-- 
2.43.0


From e722ba072633f816df64e1a15bfa42ac7e35554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:23 +0000
Subject: [PATCH 04/12] fix: correct expected length of MSM2 and MSM3 messages

A cell takes 22+4+1=27 bits in MSM2 and 15+22+4+1=42 bits in MSM3. The
estimate was one bit per cell too long, so valid messages were rejected.
---
 sub_decoders/RTCM_MSM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 2992432..37ef252 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -273,10 +273,10 @@ class BareObservablesMSM17Decoder(Bits):
             est_len = ((offset + 10 * Nsat + 15 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_1)
         elif self.bd.atr.is_msm2:
-            est_len = ((offset + 10 * Nsat + 28 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 27 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_2)
         elif self.bd.atr.is_msm3:
-            est_len = ((offset + 10 * Nsat + 43 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 42 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_3)
         else:
             bw = (b for b in self.__BIT_WIDTH_3)
-- 
2.43.0


From 2f1e4540489095e37bd93d56ef6ed1591bf4ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:27 +0000
Subject: [PATCH 05/12] fix: do not subtract frame overhead from MSM payload
 length

The length field counts payload bytes only. Subtracting 3 rejected valid
MSM messages whose satellite mask is empty.
---
 sub_decoders/RTCM_MSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 37ef252..4162a18 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -105,7 +105,7 @@ class BareObservablesMSM17Decoder(Bits):
         """Conv. binary header into integers"""
 
         # Check minimal length
-        bits_elapsed = (self.getbitu(buf, 14, 10) - 3) * 8
+        bits_elapsed = self.getbitu(buf, 14, 10) * 8
         if bits_elapsed < self.__MIN_HDR_LEN:
             raise ExceptionBareDataStructure(f"MSM hdr1 :{bits_elapsed=}")
 
-- 
2.43.0


From 5460e26fdb73659324194053da3af237ccfaaf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:31 +0000
Subject: [PATCH 06/12] fix: keep phase when fine code range is missing in MSM3

The flag was never restored, so one cell with an undefined code range
dropped the valid phase, lock time and half-cycle data of this and all the
following signals of the satellite.
---
 sub_decoders/RTCM_MSM.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 4162a18..1328bc1 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -632,7 +632,6 @@ class Bare2Scaled:
                         logger.info(
                             f"No fine range:gnss={src.atr.gnss},({sat=},{sgn=})"
                         )
-                        ph_ok = False
 
                 # Make fine phase range
                 if ph_ok:
-- 
2.43.0


From aa1a4c168dfc561f679c8fff3e682bdbb7bcf262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:34 +0000
Subject: [PATCH 07/12] fix: take parsing errors into account in the final
 status

printing_errors was tested twice and parsing_errors was not tested at all,
so a damaged stream could be reported as 'Finished without errors'.
---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index d045c4c..c18f3ca 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -337,7 +337,7 @@ def main(local_args: str | None = None) -> None:
         if decode_rtcm_file(fpath, converter):
             err = converter.get_statistics()
             if (
-                err.printing_errors
+                err.parsing_errors
                 or err.decoding_errors
                 or err.printing_errors
             ):
-- 
2.43.0


From f294b0244d1ffe9ba9d046433d744643ba41b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:38 +0000
Subject: [PATCH 08/12] fix: report MARGO rows which could not be saved as a
 printing error

The result of __append() was ignored, so a block whose output file could
not be created was counted as printed.
---
 printers/margo_printer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/printers/margo_printer.py b/printers/margo_printer.py
index 2b6ab63..7481229 100644
--- a/printers/margo_printer.py
+++ b/printers/margo_printer.py
@@ -445,6 +445,7 @@ class PrintMARGO:
         if not pbuf:
             return
 
+        all_saved = True
         for f, observables in pbuf.items():
             ptype = f[1]  # C, L, D, S,...
             # Make textual representation of values
@@ -452,7 +453,9 @@ class PrintMARGO:
             obs_string = self.core.format_obs_string(
                 observables, *column_format
             )
-            self.__append(f, obs_string)
+            all_saved = self.__append(f, obs_string) and all_saved
+
+        assert all_saved, "MARGO: some observables were not saved."
 
     # def __print_BareObservablesMSM4567(self, obs: BareObservablesMSM4567):
     #     pass
-- 
2.43.0


From d5b97c11c46bd53d1bbdd1a377b8574935878eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 09/12] fix: make L5 and S flags dataclass fields of EphNAVIC

Without annotations they were class attributes, so they were absent from
JSON output, copies and comparisons.
---
 gnss_types/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gnss_types/ephemeris.py b/gnss_types/ephemeris.py
index 9f69e79..9a6facc 100644
--- a/gnss_types/ephemeris.py
+++ b/gnss_types/ephemeris.py
@@ -134,8 +134,8 @@ class EphNAVIC(DataClassMethods, Keplerians, ClockBias, EphHdr):
     URA: int | float = 0
     TGD: int | float = 0
     IODEC: int = 0
-    L5_Flag = 0
-    S_Flag = 0
+    L5_Flag: int = 0
+    S_Flag: int = 0
 
 
 @dataclass
-- 
2.43.0


From 8bd5a98bdd68ccffaff14ca972ef99f73e79645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:45 +0000
Subject: [PATCH 10/12] fix: use 0.02 m resolution of GLONASS code-phase biases
 (DF423-DF426)

---
 sub_decoders/RTCM_BASE.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 4940285..ebfeee5 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -365,10 +365,10 @@ class BaseStationDataDecoder(Bits):
         bs.validity["1P"] = bs.validity["1P"] == 1  # DF422
         bs.validity["2C"] = bs.validity["2C"] == 1  # DF422
         bs.validity["2P"] = bs.validity["2P"] == 1  # DF422
-        bs.correction["1C"] *= 0.2  # DF423 [m]
-        bs.correction["1P"] *= 0.2  # DF424 [m]
-        bs.correction["2C"] *= 0.2  # DF425 [m]
-        bs.correction["2P"] *= 0.2  # DF426 [m]
+        bs.correction["1C"] *= 0.02  # DF423 [m]
+        bs.correction["1P"] *= 0.02  # DF424 [m]
+        bs.correction["2C"] *= 0.02  # DF425 [m]
+        bs.correction["2P"] *= 0.02  # DF426 [m]
 
         return bs
 
-- 
2.43.0


From 9ec953fd6dc3563e7973faca0c50c114177ab38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:48 +0000
Subject: [PATCH 11/12] fix: apply relative tolerance to negative references in
 compare()

The parenthesis was misplaced, so negative values were compared with an
absolute tolerance. Pass the tolerance to nested dataclasses as well.
---
 gnss_types/data_class_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index b4b53ca..cd55118 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -70,7 +70,7 @@ class DataClassMethods:
             if math.isnan(A) or math.isnan(B):
                 return False
 
-            if math.fabs(B > f_tolerance):
+            if math.fabs(B) > f_tolerance:
                 diff = math.fabs((B - A) / B)
             else:
                 diff = math.fabs(B - A)
@@ -114,7 +114,7 @@ class DataClassMethods:
 
             if is_dataclass(value):
                 if isinstance(value, DataClassMethods):
-                    eq = value.compare(ref)
+                    eq = value.compare(ref, f_tolerance)
                 else:
                     eq = False
             else:
-- 
2.43.0


From def1cf6796f2f6812dd14d112c8c34e94c4e0168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:15 +0000
Subject: [PATCH 12/12] fix: compare() reports a missing field of the reference
 as a mismatch

---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index cd55118..ea3ee74 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -109,7 +109,7 @@ class DataClassMethods:
         for key, value in self.items():
             try:
                 ref = getattr(refs, key)
-            except IndexError:
+            except AttributeError:
                 return False
 
             if is_dataclass(value):
-- 
2.43.0

