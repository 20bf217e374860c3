From 882839ec364bca4cde8a7fcfbdd5552acf9b2984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 01/50] fix: sky bin search with tolerance wrapped around the
 horizon

---
 raytools/translate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/translate.py b/raytools/translate.py
index 4acecee..bca4d61 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -180,6 +180,8 @@ def xyz2skybin(xyz, side, tol=0, normalize=False):
         tol = tol/side
         uvi = np.linspace(-tol, tol, 3)
         uvs = np.stack(np.meshgrid(uvi, uvi)).reshape(2, 9).T + uv
+        # past the horizon there are no patches (and bins would wrap around)
+        uvs = uvs[np.all((uvs >= 0) & (uvs < 1) & (uv[:, 0:1] <= 1), axis=1)]
         sbin = np.unique(uv2bin(uvs, side)).astype(int)
         skybin = sbin[sbin < side**2]
     else:
-- 
2.43.0


From e281704f6b6e0b11ea175898a0315bf49a146d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 02/50] fix: tpnorm wrapped theta=pi to the opposite pole and
 changed its argument

---
 raytools/translate.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index bca4d61..ec5d1a3 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -234,9 +234,11 @@ def xyz2xy(xyz, axes=(0, 1, 2), flip=False):
 def tpnorm(thetaphi):
     """normalize angular vector to 0-pi, 0-2pi"""
     thetaphi = np.atleast_2d(thetaphi)
-    thetaphi[:, 0] = np.mod(thetaphi[:, 0] + np.pi, np.pi)
-    thetaphi[:, 1] = np.mod(thetaphi[:, 1] + 2*np.pi, 2*np.pi)
-    return thetaphi
+    # theta = pi is in range, it must not wrap to the opposite pole
+    theta = np.where(thetaphi[:, 0] == np.pi, np.pi,
+                     np.mod(thetaphi[:, 0] + np.pi, np.pi))
+    phi = np.mod(thetaphi[:, 1] + 2*np.pi, 2*np.pi)
+    return np.column_stack([theta, phi])
 
 
 def tp2xyz(thetaphi, normalize=True):
-- 
2.43.0


From a6c1bf70083dfca879784a634a0436dd3129899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 03/50] fix: xyz2tp lost the azimuth of directions near the
 nadir

---
 raytools/translate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index ec5d1a3..3a17caa 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -259,7 +259,7 @@ def xyz2tp(xyz):
     xyz = np.atleast_2d(xyz)
     theta = np.arccos(xyz[:, 2])
     phi = np.where(np.isclose(theta, 0.0, atol=1e-10), np.pi,
-                   np.where(np.isclose(theta, np.pi, atol=1e-10),
+                   np.where(np.isclose(theta, np.pi, rtol=0, atol=1e-10),
                             np.pi, np.arctan2(xyz[:, 1], xyz[:, 0])))
     return tpnorm(np.column_stack([theta, phi]))
 
-- 
2.43.0


From 608f2b6c3adc66fdee73d319953d3cda98ae038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 04/50] fix: xyz2aa returned azimuths outside (-180, 180)

---
 raytools/translate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 3a17caa..1f1ac25 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -277,7 +277,9 @@ def xyz2aa(xyz):
     xyz = np.atleast_2d(xyz)
     tp = xyz2tp(xyz)
     tp[:, 1] -= np.pi
-    return (np.pi/2 - tp)/(np.pi/180)
+    aa = (np.pi/2 - tp)/(np.pi/180)
+    aa[:, 1] = np.where(aa[:, 1] > 180, aa[:, 1] - 360, aa[:, 1])
+    return aa
 
 
 def chord2theta(c):
-- 
2.43.0


From 0e5c291249249a001e6898c93dd696979a7e83ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 05/50] fix: resample truncated reduction factors like 93 or 99
 to the next lower integer

---
 raytools/translate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 1f1ac25..69ec436 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -389,7 +389,7 @@ def resample(samps, ts=None, gauss=True, radius=None):
                 radius = tuple(rs - 1)
             samps = gaussian_filter(samps, radius)
     elif np.prod(rs) < 1:
-        rs = (1/rs).astype(int)
+        rs = np.array(samps.shape) // np.array(ts)
         og = (-rs/2).astype(int)
         samps = uniform_filter(samps, rs, origin=og)
         for i, j in enumerate(rs):
-- 
2.43.0


From ed68e25c75605a0fce2aef0929ba8217a669d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 06/50] fix: weighted_quantile depended on the order of tied
 data

---
 raytools/translate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 69ec436..4f6faef 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -430,9 +430,11 @@ def weighted_quantile(d, weights=None, q=0.5, t=0.0):
         return np.quantile(d, q)
     else:
         d = np.asarray(d).ravel()
-        si = np.argsort(d)
+        w = np.asarray(weights).ravel()
+        # break ties by weight, so that the order of the input does not matter
+        si = np.lexsort((w, d))
         d = d[si]
-        w = np.asarray(weights).ravel()[si]
+        w = w[si]
         d = d[w > t]
         w = w[w > t]
         cw = np.cumsum(w)
-- 
2.43.0


From 41a99ce7384969144b185285fedfe0ca19f01bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 07/50] fix: weighted_quantile fell back to the last but one
 item for quantiles within 1e-5 of one

---
 raytools/translate.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 4f6faef..6b30097 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -441,14 +441,9 @@ def weighted_quantile(d, weights=None, q=0.5, t=0.0):
         cw = cw - cw[0]
         midp = np.asarray(q) * cw[-1]
         li = np.searchsorted(cw, midp, side='right') - 1
-        ri = np.where(np.isclose(q, 1), li, li+1)
-        try:
-            dn = np.where(np.isclose(q, 1), 1, (cw[ri] - cw[li]))
-        except IndexError as ex:
-            result = np.quantile(d, q)
-        else:
-            result = d[li] + (d[ri] - d[li]) * (midp - cw[li])/dn
-        return result
+        ri = np.minimum(li + 1, len(d) - 1)
+        dn = np.where(ri == li, 1, cw[ri] - cw[li])
+        return d[li] + (d[ri] - d[li]) * (midp - cw[li])/dn
 
 
 def weighted_median(d, weights=None, t=0.0):
-- 
2.43.0


From a8e5241d02dc9062f499da6586658f95c7b541b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 08/50] fix: non_uniform_gaussian_filter returned unsorted
 samples in sorted order

---
 raytools/translate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 6b30097..4d76c80 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -561,8 +561,8 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         idxs = xr
     amu = np.apply_along_axis(nugf, 0, np.reshape(idxs, (1, -1)), x, y, sigma)
     # sort back unless already sorted or resampled
-    if inv_sort is not None and resample is None:
-        amu = amu[inv_sort]
+    if inv_sort is not None and xr is None:
+        amu = amu[..., inv_sort]
     return amu
 
 
-- 
2.43.0


From d5afc47975b553bd6fa36d8256f582f92a9029d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 09/50] fix: non_uniform_gaussian_filter failed with several
 features between distant samples and for medians

---
 raytools/translate.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 4d76c80..2f23073 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -503,7 +503,12 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         n = stats.norm(loc=x0, scale=sp)
         weights = n.pdf(xp)
         if np.sum(weights) > 0:
-            mu = afunc(yp, weights=weights, **akwargs)
+            if 'axis' in akwargs or len(yp) == 1:
+                mu = afunc(yp, weights=weights, **akwargs)
+            else:
+                # quantiles work on flat data, each feature has its own
+                mu = np.ravel([afunc(yi, weights=weights, **akwargs)
+                               for yi in yp])
         else:
             # fall back to linear interpolation
             mui = np.searchsorted(xp, x0)[0]
@@ -512,9 +517,10 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
             elif mui == 0:
                 mu = yp[:, 0]
             else:
+                x1 = np.ravel(x0)[0]
                 mu = np.average((yp[:, mui], yp[:, mui-1]), axis=0,
-                                weights=(x0-xp[mui-1], xp[mui]-x0))
-            if 'q' in akwargs:
+                                weights=(x1-xp[mui-1], xp[mui]-x1))
+            if 'q' in akwargs and len(akwargs['q']) > 1:
                 mu = np.full(len(akwargs['q']), mu)
         return mu
 
-- 
2.43.0


From 767aebecac3fdabb7cf859575781f727e472688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 10/50] fix: weighted_quantile cancelled small weights against
 a large first one

---
 raytools/translate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 2f23073..3d4b91e 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -437,8 +437,8 @@ def weighted_quantile(d, weights=None, q=0.5, t=0.0):
         w = w[si]
         d = d[w > t]
         w = w[w > t]
-        cw = np.cumsum(w)
-        cw = cw - cw[0]
+        # the smallest item is at 0 (no subtraction: it would cancel small weights)
+        cw = np.cumsum(np.concatenate(([0.0], w[1:])))
         midp = np.asarray(q) * cw[-1]
         li = np.searchsorted(cw, midp, side='right') - 1
         ri = np.minimum(li + 1, len(d) - 1)
-- 
2.43.0


From ca04b61a27b288f97cb40aeb91309902a2dbf852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 11/50] fix: quotes and backslashes in header lines were lost
 or failed when writing hdr images

---
 raytools/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index e5f3292..725f108 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -144,8 +144,7 @@ def _array2hdr(ar, imgf, header, pval, clean=False):
     if header is not None:
         if clean:
             header = clean_header(header)
-        hdr = "' '".join(header)
-        getinfo = shlex.split(f"getinfo -a '{hdr}'")
+        getinfo = ["getinfo", "-a", *(header or [""])]
         p = Popen(pval.split(), stdin=PIPE, stdout=PIPE)
         q = Popen(getinfo, stdin=p.stdout, stdout=f)
     else:
-- 
2.43.0


From 8c0936b7d33c15330924d373aafdaa0367fc9533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 12/50] fix: hdr files with spaces or quotes in their path
 could not be read

---
 raytools/imagetools.py |  4 ++--
 raytools/io.py         | 11 ++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 65afb52..17bb0d3 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -219,7 +219,7 @@ def vf_to_vm(view):
 
 
 def img_size(imgf):
-    hd = cst.pipeline([f"getinfo -d {imgf}"]).strip().split()
+    hd = cst.pipeline([f"getinfo -d {io._quote(imgf)}"]).strip().split()
     x = 1
     y = 1
     for i in range(2, len(hd)):
@@ -232,7 +232,7 @@ def img_size(imgf):
 
 def hdr2vm(imgf, vpt=False):
     """hdr to ViewMapper"""
-    header, err = cst.pipeline([f"getinfo {imgf}"], caperr=True)
+    header, err = cst.pipeline([f"getinfo {io._quote(imgf)}"], caperr=True)
     try:
         err = err.decode("utf-8")
     except AttributeError:
diff --git a/raytools/io.py b/raytools/io.py
index 725f108..fdc2ec5 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -202,6 +202,11 @@ def carray2hdr(ar, imgf, header=None, clean=False):
     return _array2hdr(ar.T[::-1], imgf, header, pval, clean=clean)
 
 
+def _quote(imgf):
+    """quote file path for a command line ("" reads from stdin)"""
+    return "" if imgf == "" else shlex.quote(str(imgf))
+
+
 def _hdr_in(pval, imgf, stdin):
     p = Popen(shlex.split(pval), stdin=stdin, stdout=PIPE, stderr=PIPE)
     shape = p.stdout.readline().strip().split()
@@ -237,7 +242,7 @@ def hdr2array(imgf, stdin=None, header=False, vlambda=None):
         imgd = hdr2carray(imgf, stdin)
         imgd = np.einsum("ijk,i->jk", imgd, vlambda)
     else:
-        pval = f'pvalue -b -h -df -o {imgf}'
+        pval = f'pvalue -b -h -df -o {_quote(imgf)}'
         imgd = bytes2np(*_hdr_in(pval, imgf, stdin)).T[:, ::-1]
     if header:
         return imgd, hdr_header(imgf)
@@ -257,7 +262,7 @@ def hdr2carray(imgf, stdin=None, header=False):
     -------
     ar: np.array
     """
-    pval = f'pvalue -n -h -df -o {imgf}'
+    pval = f'pvalue -n -h -df -o {_quote(imgf)}'
     data, shape = _hdr_in(pval, imgf, stdin)
     shape = (3, *shape)
     imgd = np.transpose(bytes2np(data, shape)[:, ::-1], (0, 2, 1))
@@ -302,7 +307,7 @@ def is_hdr(imgf):
 
 
 def hdr_header(imgf, clean=False, items=None):
-    p = Popen(shlex.split(f"getinfo {imgf}"), stdout=PIPE,
+    p = Popen(shlex.split(f"getinfo {_quote(imgf)}"), stdout=PIPE,
               stderr=PIPE).communicate()
     err = p[1]
     try:
-- 
2.43.0


From 5444fbe54522dc48d7c35b81e29efdf39a6cdee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 13/50] fix: header cleaning failed on a continuation line that
 follows nothing

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index fdc2ec5..35572c3 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -515,7 +515,7 @@ class CleanHeader(object):
                 curf = cs[-1]['content']
             else:
                 curf = files
-            if key == "..." or key == lastkey and len(curf) > 0:  # unwrap previously cleaned header
+            if (key == "..." or key == lastkey) and len(curf) > 0:  # unwrap previously cleaned header
                 curf[-1] += " " + val.lstrip()
                 vals[-1] += " " + val.lstrip()
             elif cl in vals:  # promote
-- 
2.43.0


From 2d38be291269202711693b972fa1f69ca9f82fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 14/50] fix: header cleaning appended to another entry after a
 repeated line

---
 raytools/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytools/io.py b/raytools/io.py
index 35572c3..374493e 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -527,6 +527,7 @@ class CleanHeader(object):
                         k += 1
                         f = f[j]['content']
                     f.insert(idx[k], cl)
+                key = None  # next line does not continue this one
             else:
                 vals.append(f"{key}{sep}{val}")
                 if len(cs) > 0 and depth <= cs[-1]['depth']:
-- 
2.43.0


From 72570ec219d08b6e5f44f1e5fb9994c90ef40dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 15/50] fix: header cleaning duplicated lines repeated in
 sibling files

---
 raytools/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 374493e..2eaece3 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -554,8 +554,10 @@ class CleanHeader(object):
                     data.pop(i)
                     return idx + [i]
                 continue
-            return self._pop_and_promote(v['content'], val, idx + [i])
-        return idx
+            found = self._pop_and_promote(v['content'], val, idx + [i])
+            if found is not None:
+                return found
+        return None
 
     def _clean_up(self, data, depth=0, da=0):
         """recursive function to format the prepocessed data into a new
-- 
2.43.0


From 0cc8489e14166b17cf863b49c2c25a1d5d8ea409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 16/50] fix: rgbe2lum wrapped exponents below 128 of unsigned
 bytes

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 2eaece3..08185f6 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -353,7 +353,7 @@ def rgbe2lum(rgbe):
     -------
     lum: luminance in cd/m^2
     """
-    v = np.power(2., rgbe[:, 3] - 128).reshape(-1, 1) / 256
+    v = np.power(2., rgbe[:, 3].astype(int) - 128).reshape(-1, 1) / 256
     rgb = np.where(rgbe[:, 0:3] == 0, 0, (rgbe[:, 0:3] + 0.5) * v)
     # luminance = 179 * (0.265*R + 0.670*G + 0.065*B)
     return rgb2lum(rgb)
-- 
2.43.0


From 5de706a7471d27c5e3d717d68cf811adea28064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 17/50] fix: is_hdr never recognized a Radiance image

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 08185f6..04d8643 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -300,7 +300,7 @@ def clean_header(header):
 
 
 def is_hdr(imgf):
-    f = open(imgf)
+    f = open(imgf, "rb")
     ishdr = f.read(10) == b'#?RADIANCE'
     f.close()
     return ishdr
-- 
2.43.0


From 39c25eed931f12839e5847ed3e8d690c3dc29771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 18/50] fix: images with 'cannot open' in their header were
 reported as not found

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 04d8643..02eb841 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -320,7 +320,7 @@ def hdr_header(imgf, clean=False, items=None):
         header = p[0].decode("utf-8")
     except UnicodeDecodeError:
         raise IOError(f"{err} - wrong file type?")
-    if "cannot open" in header:
+    if header.strip() == f"{imgf}: cannot open".strip():
         raise FileNotFoundError(f"{imgf} not found")
     header = [i for i in header.strip().splitlines() if not re.match(r".*#?RADIANCE.*", i)]
     if items is not None:
-- 
2.43.0


From 355e8e7f95948f47f4701cddc3b7f59fc6a10024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:52 +0000
Subject: [PATCH 19/50] fix: load_txt failed for existing files given by a
 bytes path

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 02eb841..890f40b 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -386,7 +386,7 @@ def load_txt(farray, **kwargs):
     if isinstance(farray, (str, bytes)):
         if os.path.isfile(farray):
             try:
-                return np.loadtxt(farray, **kwargs)
+                return np.loadtxt(os.fsdecode(farray), **kwargs)
             except (ValueError, AttributeError):
                 raise ValueError
         else:
-- 
2.43.0


From 4629413060e8b180add682e25fbfdfe340be7c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 20/50] fix: uv2xy and uv2xyz switched off numpy warnings for
 the whole process

---
 raytools/translate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 3d4b91e..28eba98 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -37,7 +37,6 @@ def uv2xy(uv):
     -map.html.
     """
     uv = np.atleast_2d(uv)
-    np.seterr(all="ignore")
     xy = np.empty((uv.shape[0], 2), float)
     u = uv[:, 0]
     v = uv[:, 1]
@@ -47,7 +46,8 @@ def uv2xy(uv):
     b = 2. * v - 1
     cond = a*a > b*b
     r = np.where(cond, a, np.where(b == 0, 0, b))
-    phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
+    with np.errstate(all="ignore"):
+        phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
     xy[:, 0] = n*np.cos(phi)*r
     xy[:, 1] = np.sin(phi)*r
     return xy
@@ -58,7 +58,6 @@ def uv2xyz(uv, axes=(0, 1, 2), xsign=1):
     http://psgraphics.blogspot.com/2011/01/improved-code-for-concentric
     -map.html.
     """
-    np.seterr(all="ignore")
     uv = np.atleast_2d(uv)
     xyz = np.empty((uv.shape[0], 3), float)
     u = uv[:, 0]
@@ -71,7 +70,8 @@ def uv2xyz(uv, axes=(0, 1, 2), xsign=1):
     b = 2. * v - 1
     cond = a*a > b*b
     r = np.where(cond, a, np.where(b == 0, 0, b))
-    phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
+    with np.errstate(all="ignore"):
+        phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
     sphterm = r*np.sqrt(2 - r*r)
     # flip back x in positive z space
     xyz[:, axes[0]] = xsign*n*np.cos(phi)*sphterm
-- 
2.43.0


From 28786325dc5e7eddbed140cffdd6cfa90ee9b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 21/50] fix: vxy2xyz of angular mappers overwrote its argument
 and failed for integers

---
 raytools/mapper/angularmixin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index de6c559..2cd86f8 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -68,8 +68,7 @@ class AngularMixin(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
-        pxy = np.atleast_2d(xy)
-        pxy -= .5
+        pxy = np.atleast_2d(xy) - .5
         pxy *= (np.array([self._xsign, 1]) *
                 (self.viewangle * self._chordfactor) / 180)
         d = np.sqrt(np.sum(np.square(pxy), -1))
-- 
2.43.0


From 7818eb8db455680f61bf5ea9aa8b36713728f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 22/50] fix: bright rays at the edge of a view overwrote each
 other's solid angle and the caller's array

---
 raytools/evaluate/basemetricset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytools/evaluate/basemetricset.py b/raytools/evaluate/basemetricset.py
index bbda4a9..f190890 100644
--- a/raytools/evaluate/basemetricset.py
+++ b/raytools/evaluate/basemetricset.py
@@ -85,6 +85,7 @@ class BaseMetricSet(object):
             else:
                 stray = []
             if len(stray) > 0:
+                omega = np.copy(omega)
                 ost = np.atleast_1d(omega[stray])
                 vsts = v[stray].reshape(-1, 3)
                 ds = self.vm.radians(vsts)
@@ -97,8 +98,8 @@ class BaseMetricSet(object):
                         x = (a2 - b2 + np.square(d)) / (2 * d)
                         x2 = np.square(x)
                         y = np.sqrt(a2 - x2)
-                        omega[stray] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
-                                        y * (x + np.sqrt(b2 - a2 + x2)))
+                        omega[s] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
+                                    y * (x + np.sqrt(b2 - a2 + x2)))
                         up = np.cross(vst, self.vm.dxyz)
                         r = d - x
                         ymtx, pmtx = translate.rmtx_yp(up)
-- 
2.43.0


From 2554c4adebfc664f9ce74827c80a52c6955c3206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 23/50] fix: planar vxy2xyz mirrored x (unlike xyz2vxy) and
 overwrote its argument

---
 raytools/mapper/mapper.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index fecf9e0..2fce16e 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -132,7 +132,6 @@ class Mapper(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
-        xy[..., 0] = 1 - xy[..., 0]
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
     @functools.lru_cache(1)
-- 
2.43.0


From ebd3a4b30ce87381513dded1d18af9398a5712fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 24/50] fix: framesize of planar mappers was stale after a
 change of aspect

---
 raytools/mapper/mapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index 2fce16e..adbef60 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -6,8 +6,6 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 # =======================================================================
-import functools
-
 import numpy as np
 from scipy.ndimage import uniform_filter
 
@@ -134,7 +132,6 @@ class Mapper(object):
         """transform from view image space (2d) to world xyz"""
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
-    @functools.lru_cache(1)
     def framesize(self, res):
         if self.aspect < 1:
             yres = res
-- 
2.43.0


From 9a3ff3d82cfc9fd281fbbcfdbf935502b15e72d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 25/50] fix: jittered pixel coordinates could not be generated

---
 raytools/mapper/mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index adbef60..30ba1ac 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -146,7 +146,7 @@ class Mapper(object):
         xres, yres = self.framesize(res)
         if jitter > 0:
             rng = ((1 - jitter)/2, (1 + jitter)/2)
-            offset = np.random.default_rng().uniform(*rng, (xres, yres)).T
+            offset = np.random.default_rng().uniform(*rng, (xres, yres, 2))
         else:
             offset = 0.5
         return np.stack(np.mgrid[0:xres, 0:yres], 2) + offset
-- 
2.43.0


From 0a1a08066c5ed9eaec133a7268a4e22d716b2bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:21 +0000
Subject: [PATCH 26/50] fix: re-aiming a GSS kept the view values of the
 earlier view

---
 raytools/evaluate/hvsgsm.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index a7e4818..5bd63f9 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -345,7 +345,11 @@ class GSS:
     @lum.setter
     def lum(self, img):
         """reads image and updates view based values if necessary"""
-        self._lum = io.hdr2array(img)*self.scale
+        self._set_lum(io.hdr2array(img)*self.scale)
+
+    def _set_lum(self, lum):
+        """updates view based values if necessary"""
+        self._lum = lum
         r = self._lum.shape[0]
         if self._res != r:
             self._vecs = self.vm.pixelrays(r)
@@ -422,6 +426,10 @@ class GSS:
             if vm is None:
                 vm = ViewMapper(viewangle=180)
         self._vm = vm
+        # force update of view based values
+        self._res = 0
+        if self._lum is not None:
+            self._set_lum(self._lum)
 
     # Step 3
     def pupil(self, ev):
-- 
2.43.0


From 8837ae63ca9318b973263903811b82cf9220d06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 27/50] fix: planar mappers drew nan into channels given as
 None

---
 raytools/mapper/mapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index 30ba1ac..451fb59 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -248,8 +248,11 @@ class Mapper(object):
             if grow > 0:
                 img = uniform_filter(img*r**2, r)
         else:
-            imgv = np.moveaxis(img, 0, 2)
-            imgv[xp, yp] = channels
+            channels = np.broadcast_to(np.array(channels, dtype=object),
+                                       img.shape[:1])
+            for i, channel in enumerate(channels):
+                if channel is not None:
+                    img[i, xp, yp] = channel
             if grow > 0:
                 img = uniform_filter(img*r**2, (1, r, r))
         return img
-- 
2.43.0


From 62d989682d82733b86057207ed9b844b7e94ec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 28/50] fix: hdr2vm reported images with 'cannot open' in their
 header as not found

---
 raytools/imagetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 17bb0d3..3a58151 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -239,7 +239,7 @@ def hdr2vm(imgf, vpt=False):
         pass
     if "bad header!" in err:
         raise IOError(f"{err} - wrong file type?")
-    elif "cannot open" in header:
+    elif header.strip() == f"{imgf}: cannot open".strip():
         raise FileNotFoundError(f"{imgf} not found")
     vp = None
     if "VIEW= -vta" in header:
-- 
2.43.0


From d77621977fb66918b643f50607852774992c785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 29/50] fix: img_size failed for file names with a word
 containing X or Y

---
 raytools/imagetools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 3a58151..08e6c3d 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -220,9 +220,11 @@ def vf_to_vm(view):
 
 def img_size(imgf):
     hd = cst.pipeline([f"getinfo -d {io._quote(imgf)}"]).strip().split()
+    # the resolution string follows the file name (which can have spaces)
+    hd = hd[-4:]
     x = 1
     y = 1
-    for i in range(2, len(hd)):
+    for i in range(1, len(hd), 2):
         if 'X' in hd[i - 1]:
             x = int(hd[i])
         elif 'Y' in hd[i - 1]:
-- 
2.43.0


From b3095bbefc088f5a49862fbdb112d1313f95d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 30/50] fix: vf_to_vm failed for views without a direction

---
 raytools/imagetools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 08e6c3d..59ea9e9 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -213,8 +213,12 @@ def vf_to_vm(view):
         raise ValueError(f"no valid -vta view in file {view}")
     vp = vl[-1].split()
     view_angle = float(vp[vp.index("-vh") + 1])
-    vd = vp.index("-vd")
-    view_dir = [float(vp[i]) for i in range(vd + 1, vd + 4)]
+    try:
+        vd = vp.index("-vd")
+    except ValueError:
+        view_dir = [0.0, 1.0, 0.0]
+    else:
+        view_dir = [float(vp[i]) for i in range(vd + 1, vd + 4)]
     return ViewMapper(view_dir, view_angle)
 
 
-- 
2.43.0


From 7e630ae81966b1a91ed523f70758a44f64756e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:29 +0000
Subject: [PATCH 31/50] fix: array_ang2uv dropped the rear half of 360 degree
 images

---
 raytools/imagetools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 59ea9e9..bfb35c2 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -51,13 +51,14 @@ def array_ang2uv(imarray, vm=None):
     if vm is None:
         vm = ViewMapper(viewangle=180)
     res = imarray.shape[-1]
-    uv = translate.bin2uv(np.arange(res*res), res)
+    resx = res*vm.aspect
+    uv = translate.bin2uv(np.arange(resx*res), res)
     xyz = vm.uv2xyz(uv)
     pxy = vm.ray2pixel(xyz, imarray.shape[-1])
     if len(imarray.shape) == 3:
-        return imarray[:, pxy[:, 0], pxy[:, 1]].reshape(3, res, res)
+        return imarray[:, pxy[:, 0], pxy[:, 1]].reshape(3, resx, res)
     else:
-        return imarray[pxy[:, 0], pxy[:, 1]].reshape(res, res)
+        return imarray[pxy[:, 0], pxy[:, 1]].reshape(resx, res)
 
 
 def hdr_ang2uv(imgf, useview=True, outf=None, stdout=False, **kwargs):
-- 
2.43.0


From 94d4ef69c79cca3f7c3f26e7370dcabb6587b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:16 +0000
Subject: [PATCH 32/50] fix: array_rotate shifted images by half a pixel

---
 raytools/imagetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index bfb35c2..3852b94 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -121,7 +121,7 @@ def array_rotate(imarray, ang, center=None, rotate_first=True, fill_value=None,
             pxyz = vm2.view2world(vm.world2view(pxyz))
 
     pxy = vm.ray2pixel(pxyz, res, integer=False)
-    x = np.arange(res)
+    x = np.arange(res) + .5
     if nearest:
         method = "nearest"
     else:
-- 
2.43.0


From e6a8a0fa6db20777d9b096678213c4655c2b37ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:19 +0000
Subject: [PATCH 33/50] fix: rotate_first of array_rotate had no effect

---
 raytools/imagetools.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 3852b94..156671a 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -106,19 +106,26 @@ def array_rotate(imarray, ang, center=None, rotate_first=True, fill_value=None,
                                             indices=False)
 
     pxyz = pxyz.reshape(-1, 3)
-    if rotate_first and ang != 0:
-        pxyz = translate.rotate_elem(pxyz, ang, 1)
+    rotate_first = rotate_first and ang != 0
+    # pxyz traces back from the output to the source image: the operation that
+    # comes first is undone last
     if center is not None:
         if len(center) == 4:
             targets = vm.pixel2ray(np.reshape(center, (2, 2)), res)
+            if rotate_first:
+                targets[0:1] = translate.rotate_elem(targets[0:1], -ang, 1)
             m1 = translate.rmtx_yp(targets[1])
             m2 = translate.rmtx_yp(targets[0])
             m3 = m2[0].T @ m2[1].T @ m1[1] @ m1[0]
             pxyz = (m3 @ pxyz.T).T
         else:
             cxyz = vm.pixel2ray(np.atleast_2d(center)[:, 0:2], res)
+            if rotate_first:
+                cxyz = translate.rotate_elem(cxyz, -ang, 1)
             vm2 = ViewMapper(dxyz=cxyz[0], viewangle=180)
             pxyz = vm2.view2world(vm.world2view(pxyz))
+    if rotate_first:
+        pxyz = translate.rotate_elem(pxyz, ang, 1)
 
     pxy = vm.ray2pixel(pxyz, res, integer=False)
     x = np.arange(res) + .5
-- 
2.43.0


From 88391c956ac11c8910fc5bad22a0b6f83cdbc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:11 +0000
Subject: [PATCH 34/50] fix: header lines mentioning RADIANCE were dropped when
 reading headers

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 890f40b..4f6a1ab 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -322,7 +322,7 @@ def hdr_header(imgf, clean=False, items=None):
         raise IOError(f"{err} - wrong file type?")
     if header.strip() == f"{imgf}: cannot open".strip():
         raise FileNotFoundError(f"{imgf} not found")
-    header = [i for i in header.strip().splitlines() if not re.match(r".*#?RADIANCE.*", i)]
+    header = [i for i in header.strip().splitlines() if not re.match(r"\s*#\?RADIANCE", i)]
     if items is not None:
         header = header_items(header, items=items)
     elif clean:
-- 
2.43.0


From 87bdfbb50bbbf998dc5990e9fd9d0f876ae7a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:51 +0000
Subject: [PATCH 35/50] fix: hdr2vol returned solid angles for half of a 360
 degree image only

---
 raytools/imagetools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 156671a..d18088a 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -211,6 +211,8 @@ def hdr2vol(imgf, vm=None, color=False, vlambda=None):
         vm = hdr2vm(imgf)
     vecs = vm.pixelrays(ar.shape[-1]).reshape(-1, 3)
     oga = vm.pixel2omega(vm.pixels(ar.shape[-1]), ar.shape[-1]).ravel()
+    # both halves of 360 degree images
+    oga = np.tile(oga, vm.aspect)
     return vecs, oga, np.squeeze(ar.reshape(-1, ar.shape[-1]*ar.shape[-2])).T
 
 
-- 
2.43.0


From 741c89815407cc58ba73335fd06397d25697b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:44 +0000
Subject: [PATCH 36/50] fix: peak normalization depended on the order of
 equally bright rays

---
 raytools/imagetools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index d18088a..2634084 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -292,7 +292,7 @@ def gather_strays(pvol, peakt, cosrad):
     # only do something if some pixels above peakt
     if pc.size > 3:
         # first sort descending by luminance
-        pc = pc[np.argsort(-pvol[pc, 4])]
+        pc = pc[np.argsort(-pvol[pc, 4], kind="stable")]
         pvols = pvol[pc]
         # calculate angular distance from peak ray and filter strays
         pd = np.einsum("i,ji->j", pvols[0, 0:3], pvols[:, 0:3])
@@ -314,8 +314,8 @@ def find_peak(v, o, l, scale=179, peaka=6.7967e-05, peakt=1e5, peakr=4,
     # only do something if some pixels above peakt
     if pc.size == 0:
         return None, None, pc
-    # first sort descending by luminance
-    pc = pc[np.argsort(-l[pc, 0])]
+    # first sort descending by luminance (ties do not depend on the ray order)
+    pc = pc[np.lexsort((*v[pc].T, o[pc], -l[pc, 0]))]
     pvol = np.hstack((v[pc], o[pc, None], l[pc]))
     # establish maximum radius for grouping
     cosrad = np.cos((peaka / np.pi) ** .5 * peakrad)
-- 
2.43.0


From 3c03146b63fee4471458b802ae5837a0221a1054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 37/50] fix: colour metrics of images failed without
 LuminanceRGB and ignored it for the peak

---
 raytools/imagetools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 2634084..8240939 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -486,11 +486,15 @@ def imgmetric(imgf, metrics, peakn=False, scale=179, lumrgb=None, threshold=2000
             if not needscolor and np.allclose((0.26507413, 0.67011463, 0.06481124), lumrgb, atol=.001):
                 lumrgb = None
     v, o, l = hdr2vol(imgf, vm, needscolor, vlambda=lumrgb)
+    # without weights the default of the radiance rgb space applies
+    weights = {}
+    if needscolor and lumrgb is not None:
+        weights["vlambda"] = lumrgb
     if peakn:
-        v, o, l = normalize_peak(v, o, l, scale, **peakwargs)
+        v, o, l = normalize_peak(v, o, l, scale, **{**weights, **peakwargs})
     if needscolor:
         return ColorMetricSet(v, o, l, vm, metrics, scale=scale,
                               threshold=threshold, lowlight=lowlight,
-                              vlambda=lumrgb)()
+                              **weights)()
     return MetricSet(v, o, l, vm, metrics, scale=scale, threshold=threshold,
                      lowlight=lowlight)()
-- 
2.43.0


From 4a6b7cf802742b5acb5f4881d002979168400828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:49 +0000
Subject: [PATCH 38/50] fix: GSS failed for images without a view

---
 raytools/evaluate/hvsgsm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index 5bd63f9..c9255a8 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -416,15 +416,15 @@ class GSS:
 
     @vm.setter
     def vm(self, view):
-        if isinstance(view, ViewMapper):
+        if view is None or isinstance(view, ViewMapper):
             vm = view
         else:
             try:
                 vm = itl.hdr2vm(view)
             except ValueError:
                 vm = None
-            if vm is None:
-                vm = ViewMapper(viewangle=180)
+        if vm is None:
+            vm = ViewMapper(viewangle=180)
         self._vm = vm
         # force update of view based values
         self._res = 0
-- 
2.43.0


From 0d76fc14cf5a9a376d8c338f30c643c5974cdaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:38 +0000
Subject: [PATCH 39/50] fix: retinal densities were wrong or infinite for
 integer coordinates

---
 raytools/evaluate/retina.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/evaluate/retina.py b/raytools/evaluate/retina.py
index ef58b31..85ae14b 100644
--- a/raytools/evaluate/retina.py
+++ b/raytools/evaluate/retina.py
@@ -154,7 +154,7 @@ def rgcf_density_xy(xy, func=rgcf_density_on_meridian):
     ymi = np.where(xy[:, 0] > 0, 1, 3)
     dx = func(r, xmi)
     dy = func(r, ymi)
-    xy2 = np.square(xy)
+    xy2 = np.square(xy, dtype=float)
     xy2[:, 0] = xy2[:, 0] / dx
     xy2[:, 1] = xy2[:, 1] / dy
     den = np.sum(xy2, axis=-1)
-- 
2.43.0


From 883eaceacabeeed69e3cff578605ef4bf2e05cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:38 +0000
Subject: [PATCH 40/50] fix: rgcf_density_on_meridian failed for a single
 meridian index

---
 raytools/evaluate/retina.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytools/evaluate/retina.py b/raytools/evaluate/retina.py
index 85ae14b..f796223 100644
--- a/raytools/evaluate/retina.py
+++ b/raytools/evaluate/retina.py
@@ -98,8 +98,9 @@ def rgcf_density_on_meridian(deg, mi):
         (0.9729319961934142, 1.0841663616483523, 7.632575316432455),
         (0.9960391452747578, 0.993222146189384, 12.131840717293096)))
     mrd = mrdc[mi]
-    return (foveal_rgc_density * mrd[:, 0] * np.power(1 + deg / mrd[:, 1], -2) +
-            (1 - mrd[:, 0]) * np.exp(-deg / mrd[:, 2]))
+    return (foveal_rgc_density * mrd[..., 0] *
+            np.power(1 + deg / mrd[..., 1], -2) +
+            (1 - mrd[..., 0]) * np.exp(-deg / mrd[..., 2]))
 
 
 def rgc_density_on_meridian(deg, mi):
-- 
2.43.0


From b17dcb2eb6c1bdb99e82e8a8b39193dc49e93742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:09 +0000
Subject: [PATCH 41/50] fix: response images of files without an extension were
 saved next to a truncated path

---
 raytools/evaluate/hvsgsm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index c9255a8..965a807 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -5,6 +5,7 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 # =======================================================================
+import os
 import warnings
 
 import numpy as np
@@ -59,7 +60,7 @@ def process_gss(img, illum, ins, outf=False, outdir=None, suffix="_rg.hdr"):
     """called by gss_compute in parallel"""
     ins.lum = img
     if outf:
-        saverg = img.rsplit(".", 1)[0] + suffix
+        saverg = os.path.splitext(img)[0] + suffix
         if outdir is not None:
             saverg = outdir + "/" + saverg.rsplit("/")[-1]
     else:
-- 
2.43.0


From 894dec7f0d4f644a15775c43ee4987531af69cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:27 +0000
Subject: [PATCH 42/50] fix: GSS shifted images by a pixel depending on
 rounding for even kernels

---
 raytools/evaluate/hvsgsm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index 965a807..a09dfa4 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -536,7 +536,8 @@ class GSS:
         psfk *= oga
         # hack to fix peak to normalize to 1 (needed because center PSF will
         # always be sharper than pixel resolution
-        pk = np.unravel_index(psfk.argmax(), psfk.shape)
+        # (the origin of the convolution, even kernels have four equal peaks)
+        pk = tuple(i//2 for i in psfk.shape)
         psfk[pk] = 0
         psfk[pk] = cap_eg - np.sum(psfk)
 
-- 
2.43.0


From d3bd0116bf97f820df7f250e719a8906b4c04e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:19 +0000
Subject: [PATCH 43/50] fix: header items longer than 4096 characters were cut

---
 raytools/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 4f6a1ab..e615c9a 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -272,7 +272,8 @@ def hdr2carray(imgf, stdin=None, header=False):
 
 
 def header_items(header, items):
-    header = CleanHeader(header, headerwidth=4096).header
+    # no line is long enough to be wrapped (the rest would be lost)
+    header = CleanHeader(header, headerwidth=sys.maxsize).header
     items = [i.lower() for i in items]
     out = [""] * len(items)
     for line in header:
-- 
2.43.0


From d2f04c6220fff62cc4889e3c9a6d96b2fd5e8fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:19 +0000
Subject: [PATCH 44/50] fix: a header item requested twice was only returned
 for the first request

---
 raytools/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index e615c9a..c497302 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -289,8 +289,9 @@ def header_items(header, items):
             key = cl
             val = ''
         key = key.lower()
-        if key in items:
-            out[items.index(key)] = val.strip()
+        for i, item in enumerate(items):
+            if item == key:
+                out[i] = val.strip()
     return out
 
 
-- 
2.43.0


From 66740bdae60dc5fd09dd30f06c6e9ca444437b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 45/50] fix: restoring the aspect of a re-aimed 360 degree view
 lost its back half

---
 raytools/mapper/viewmapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytools/mapper/viewmapper.py b/raytools/mapper/viewmapper.py
index 0354a0b..f6c8d84 100644
--- a/raytools/mapper/viewmapper.py
+++ b/raytools/mapper/viewmapper.py
@@ -54,6 +54,9 @@ class ViewMapper(AngularMixin, Mapper):
         va = self.viewangle*np.pi/360
         clp = translate.theta2chord(va)/va
         self._chordfactor = cl/clp
+        # the direction may have changed while there was no inverse view
+        if a == 2 and hasattr(self, "_dxyz"):
+            self._ivm = ViewMapper(-self.dxyz, 180)
 
     @property
     def dxyz(self):
-- 
2.43.0


From ef6bcf8f61800f543f42f80228a3a0e24a1ec0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:04 +0000
Subject: [PATCH 46/50] fix: header of a view straight down gave an up vector
 parallel to the view

---
 raytools/mapper/angularmixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index 2cd86f8..14daa39 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -118,7 +118,7 @@ class AngularMixin(object):
             return mask
 
     def header(self, pt=(0, 0, 0), viewproj='vta', **kwargs):
-        if np.allclose(self.dxyz, (0, 0, 1)):
+        if np.allclose(np.abs(self.dxyz), (0, 0, 1)):
             vup = "0 1 0"
         else:
             vup = "0 0 1"
-- 
2.43.0


From 887be24d0eabff8c6ac2069a7773742dc7750000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:53 +0000
Subject: [PATCH 47/50] fix: plotting directions on a 360 degree view dropped
 its back half

---
 raytools/mapper/angularmixin.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index 14daa39..75f8445 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -9,7 +9,7 @@
 import numpy as np
 from scipy.ndimage import uniform_filter
 
-from raytools import translate
+from raytools import io, translate
 
 
 class AngularMixin(object):
@@ -249,6 +249,12 @@ class AngularMixin(object):
                 img = uniform_filter(img*r**2, (1, r, r))
         return img
 
+    def plot(self, xyz, outf, res=1000, grow=1, **kwargs):
+        # both halves of a 360 degree view
+        img = np.zeros((res * self.aspect, res))
+        img = self.add_vecs_to_img(img, xyz, grow=grow, **kwargs)
+        io.array2hdr(img, outf, [self.header()])
+
     @property
     def viewangle(self):
         """view angle"""
-- 
2.43.0


From 7c03fdca82f4b74bb572b0ecf4b01d50d372fde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:16 +0000
Subject: [PATCH 48/50] fix: keep the shape of the values when a single ray or
 pixel is left

---
 raytools/imagetools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 8240939..fa1acf2 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -213,7 +213,7 @@ def hdr2vol(imgf, vm=None, color=False, vlambda=None):
     oga = vm.pixel2omega(vm.pixels(ar.shape[-1]), ar.shape[-1]).ravel()
     # both halves of 360 degree images
     oga = np.tile(oga, vm.aspect)
-    return vecs, oga, np.squeeze(ar.reshape(-1, ar.shape[-1]*ar.shape[-2])).T
+    return vecs, oga, ar.reshape(*ar.shape[:-2], -1).T
 
 
 def vf_to_vm(view):
@@ -441,12 +441,12 @@ def normalize_peak(v, o, l, scale=179, peaka=6.7967e-05, peakt=1e5, peakr=4,
         if returnparts:
             v = vol[:, 0:3]
             omega = vol[:, 3]
-            lum = np.squeeze(vol[:, 4:])
+            lum = vol[:, 4:].reshape(-1, *l.shape[1:])
         else:
             # then add new consolidated ray back to output v, o, l
             v = np.vstack((vol[:, 0:3], [pvol[0]]))
             omega = np.concatenate((vol[:, 3], [pvol[1]]))
-            lum = np.squeeze(np.vstack((vol[:, 4:], np.atleast_2d(pvol[2].T))))
+            lum = np.vstack((vol[:, 4:], np.atleast_2d(pvol[2].T))).reshape(-1, *l.shape[1:])
     else:
         if len(l.shape) > 1:
             pvol = np.zeros(4 + l.shape[-1])
-- 
2.43.0


From de856233aec0cbaab96b0befe4196084cb58910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:51 +0000
Subject: [PATCH 49/50] fix: keep files of a nested header under the files that
 hold them when cleaning

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index c497302..3aa9ee6 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -488,7 +488,7 @@ class CleanHeader(object):
                     cs[-1]['content'].append(fi)
                     cs.append(fi)
                 else:
-                    le = depth - cs[-1]['depth']
+                    le = cs[-1]['depth'] - depth
                     cs = cs[:-(le+1)]
                     if len(cs) == 0:
                         cs.append(fi)
-- 
2.43.0


From 3e540180bc80b93f01ee88a5e863fe7cb69bd6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:42 +0000
Subject: [PATCH 50/50] fix: report images that could not be written instead of
 returning or waiting forever

---
 raytools/io.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 3aa9ee6..78af326 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -146,17 +146,18 @@ def _array2hdr(ar, imgf, header, pval, clean=False):
             header = clean_header(header)
         getinfo = ["getinfo", "-a", *(header or [""])]
         p = Popen(pval.split(), stdin=PIPE, stdout=PIPE)
-        q = Popen(getinfo, stdin=p.stdout, stdout=f)
+        q = Popen(getinfo, stdin=PIPE, stdout=f and PIPE)
+        img = q.communicate(p.communicate(np2bytes(ar))[0])[0]
     else:
-        p = Popen(pval.split(), stdin=PIPE, stdout=f)
+        p = Popen(pval.split(), stdin=PIPE, stdout=f and PIPE)
         q = p
-    p.stdin.write(np2bytes(ar))
-    p.stdin.flush()
-    q.communicate()
-    try:
-        f.close()
-    except AttributeError:
-        pass
+        img = p.communicate(np2bytes(ar))[0]
+    if f is not None:
+        # (getinfo does not notice when the device is full)
+        with f:
+            f.write(img)
+    if p.returncode != 0 or q.returncode != 0:
+        raise IOError(f"image '{imgf}' could not be written")
     return imgf
 
 
-- 
2.43.0

