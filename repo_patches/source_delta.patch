From 683d489b26cad0a1c3e182c4c4a822a0c10b9343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:31 +0000
Subject: [PATCH 001/104] fix: sample the genesis environmental pressure for
 every track

The value sampled for the first track of a season was stored in the
optional argument and reused for all later tracks, whatever their
genesis day and position.
---
 TrackGenerator/TrackGenerator.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 5819800..7e8d622 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -617,19 +617,21 @@ class TrackGenerator(object):
             # provided - dependent on initial day of year:
 
             if not initEnvPressure:
-                initEnvPressure = \
+                genesisEnvPressure = \
                     self.mslp.get_pressure(np.array([[genesisDay],
                                                      [genesisLat],
                                                      [genesisLon]]))
+            else:
+                genesisEnvPressure = initEnvPressure
 
             # Sample an initial pressure if none is provided
 
             if not initPressure:
                 # Sample subject to the constraint initPressure <
-                # initEnvPressure
+                # genesisEnvPressure
                 ind = self.allCDFInitPressure[:, 0] == initCellNum
                 cdfInitPressure = self.allCDFInitPressure[ind, 1:3]
-                ix = cdfInitPressure[:, 0].searchsorted(initEnvPressure)
+                ix = cdfInitPressure[:, 0].searchsorted(genesisEnvPressure)
                 upperProb = cdfInitPressure[ix - 1, 1]
                 genesisPressure = ppf(uniform(0.0, upperProb),
                                       cdfInitPressure)
@@ -645,7 +647,7 @@ class TrackGenerator(object):
                     ind = self.allCDFInitSize[:, 0] == initCellNum
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
-                dp = initEnvPressure - genesisPressure
+                dp = genesisEnvPressure - genesisPressure
                 self.rmwEps = np.random.normal(0, scale=0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
@@ -670,7 +672,7 @@ class TrackGenerator(object):
             log.debug('initBearing: %.2f initSpeed: %.2f' +
                       ' initEnvPressure: %.2f initPressure: %.2f' +
                       ' initRmax: %.2f',
-                      genesisBearing, genesisSpeed, initEnvPressure,
+                      genesisBearing, genesisSpeed, genesisEnvPressure,
                       genesisPressure, genesisRmax)
 
             xMin = self.gridLimit['xMin']
@@ -684,7 +686,7 @@ class TrackGenerator(object):
                           ' for this genesis point.')
                 continue
 
-            if (initEnvPressure - genesisPressure) < 2:
+            if (genesisEnvPressure - genesisPressure) < 2:
                 log.debug(("Track does not start with sufficient "
                            "pressure deficit"))
                 continue
@@ -694,7 +696,7 @@ class TrackGenerator(object):
 
             data = self._singleTrack(j, genesisLon, genesisLat,
                                      genesisSpeed, genesisBearing,
-                                     genesisPressure, initEnvPressure,
+                                     genesisPressure, genesisEnvPressure,
                                      genesisRmax, genesisTime)
 
             track_dtype = np.dtype({'names':TCRM_COLS, 'formats':TCRM_FMTS})
-- 
2.43.0


From 3c2a4b23fabe5f53ebb1308e8495ec07fddd9919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:31 +0000
Subject: [PATCH 002/104] fix: draw the size error term from the track random
 stream

The radius error term came from numpy's global generator, so tracks
depended on which other simulations had run on the same process.
---
 TrackGenerator/TrackGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 7e8d622..87922f3 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -648,13 +648,13 @@ class TrackGenerator(object):
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
                 dp = genesisEnvPressure - genesisPressure
-                self.rmwEps = np.random.normal(0, scale=0.335)
+                self.rmwEps = normal(0, 0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
                 # Censor the initial Rmax to be < 100 km.
                 if genesisRmax > 100.:
                     while genesisRmax > 100.:
-                        self.rmwEps = np.random.normal(0, scale=0.335)
+                        self.rmwEps = normal(0, 0.335)
                         genesisRmax = trackSize.rmax(dp,
                                                      genesisLat,
                                                      self.rmwEps)
-- 
2.43.0


From 43f663695dd066b4cf4679a248e742f297cec1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:31 +0000
Subject: [PATCH 003/104] fix: allow a track generation run with a single
 simulation

The progress message divided by the index of the last simulation,
which is zero when only one simulation is requested.
---
 TrackGenerator/TrackGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 87922f3..d0a6a1c 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1871,7 +1871,7 @@ def run(configFile, callback=None):
 
     comm.barrier()
 
-    N = sims[-1].index
+    N = max(sims[-1].index, 1)
 
     # Balance the simulations over the number of processors and do it
 
-- 
2.43.0


From d5eaf9de2e0dbb08d4a8c6d7232eaae17f9ddd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:31 +0000
Subject: [PATCH 004/104] fix: restart the over-land decay clock at each
 landfall

The time over land was never reset when a storm moved back over water,
so a second landfall started with the decay of the first one.
---
 TrackGenerator/TrackGenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index d0a6a1c..f75898d 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1015,6 +1015,7 @@ class TrackGenerator(object):
                 log.debug(('Central pressure {0} hours after landfall:'
                            '{1:.2f}'.format(tol, pressure[i])))
             else:
+                tol = 0.0
                 pstat = self.pStats.coeffs
                 pressure[i] = pressure[i - 1] + self.dp * self.dt
 
-- 
2.43.0


From ffc0d5693abda8719c1e924ef09ba582856f053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:59 +0000
Subject: [PATCH 005/104] fix: number grid cells by signed distance from the
 north-west corner

Coordinates were truncated to whole degrees and compared by absolute
value. Points were given the wrong cell for fractional cell sizes, for
domains that cross the equator or Greenwich, and for domains that are
not a whole number of cells wide.
---
 Utilities/stats.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/Utilities/stats.py b/Utilities/stats.py
index 67b5cbe..3bf5a80 100644
--- a/Utilities/stats.py
+++ b/Utilities/stats.py
@@ -90,17 +90,24 @@ def getCellNum(lon, lat, gridLimit, gridSpace):
     """
     Return the cell number given longitude and latititude
     """
-    lon = int(math.floor(lon))
-    lat = int(math.ceil(lat))
+    lon = float(lon)
+    lat = float(lat)
 
     if (lon < gridLimit['xMin'] or lon >= gridLimit['xMax'] or
             lat <= gridLimit['yMin'] or lat > gridLimit['yMax']):
         raise ValueError('Invalid input on cellNum: cell number is out of range')
 
-    j = abs((abs(lon) - abs(gridLimit['xMin']))) // abs(gridSpace['x'])
-    i = abs((abs(lat) - abs(gridLimit['yMax']))) // abs(gridSpace['y'])
+    latCells = np.size(np.arange(gridLimit['yMax'],
+                                 gridLimit['yMin'],
+                                 -gridSpace['y']))
+    lonCells = np.size(np.arange(gridLimit['xMin'],
+                                 gridLimit['xMax'],
+                                 gridSpace['x']))
+
+    j = min(int((lon - gridLimit['xMin']) // gridSpace['x']), lonCells - 1)
+    i = min(int((gridLimit['yMax'] - lat) // gridSpace['y']), latCells - 1)
 
-    return int(i * abs((gridLimit['xMax'] - gridLimit['xMin']) // gridSpace['x']) + j)
+    return i * lonCells + j
 
 
 def getCellLonLat(cellNum, gridLimit, gridSpace):
-- 
2.43.0


From adce22322437f71f3b6b9e5c267da0e61980633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:30 +0000
Subject: [PATCH 006/104] fix: pass the line of maximum winds angle to the
 field models in degrees

The boundary layer models convert the angle from degrees themselves. It was
converted to radians twice before it reached them, so the configured value
had almost no effect.
---
 wind/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index d909e64..cb6bf9d 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -30,7 +30,6 @@ calling the :meth:`run` with the location of a *configFile*::
 
 import logging as log
 import itertools
-import math
 import os
 import sys
 from os.path import join as pjoin
@@ -111,7 +110,7 @@ class WindfieldAroundTrack(object):
         self.beta = beta
         self.beta1 = beta1
         self.beta2 = beta2
-        self.thetaMax = math.radians(thetaMax)
+        self.thetaMax = thetaMax
         self.margin = margin
         self.resolution = resolution
         self.gustFactor = gustFactor
@@ -934,8 +933,6 @@ def run(configFile, callback=None):
     if config.has_option('Input', 'Multipliers'):
         multipliers = config.get('Input', 'Multipliers')
 
-    thetaMax = math.radians(thetaMax)
-
     # Attempt to start the track generator in parallel
     global MPI
     MPI = attemptParallel()
-- 
2.43.0


From 712dffb0ecfdb9a282a7240f919c5ead215cbc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:30 +0000
Subject: [PATCH 007/104] fix: keep the components of the strongest event when
 combining tracks

The combined gust was updated before it was used to select the components,
so the components and bearing always came from the first track.
---
 wind/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index cb6bf9d..968feff 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -499,9 +499,11 @@ class WindfieldGenerator(object):
 
         for result in results:
             gust1, bearing1, Vx1, Vy1, P1, lon1, lat1 = result
-            gust = np.where(gust1 > gust, gust1, gust)
-            Vx = np.where(gust1 > gust, Vx1, Vx)
-            Vy = np.where(gust1 > gust, Vy1, Vy)
+            mask = gust1 > gust
+            gust = np.where(mask, gust1, gust)
+            bearing = np.where(mask, bearing1, bearing)
+            Vx = np.where(mask, Vx1, Vx)
+            Vy = np.where(mask, Vy1, Vy)
             P = np.where(P1 < P, P1, P)
 
         return (gust, bearing, Vx, Vy, P, lon, lat)
-- 
2.43.0


From c5bef0971464f099ccd90d1b52bfc56864c2dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:09 +0000
Subject: [PATCH 008/104] fix: return compiled wind kernel results for any
 radius array layout

The result array copied the memory layout of the radius grid, and ravel() on
a Fortran-ordered array is a copy. The kernel filled the copy and the caller
received uninitialised memory.
---
 wind/windmodels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wind/windmodels.py b/wind/windmodels.py
index c275928..cccacac 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -383,7 +383,7 @@ class HollandWindProfile(WindProfileModel):
 
         try:
             from ._windmodels import fhollandvel
-            V = np.empty_like(R)
+            V = np.empty(R.shape)
             fhollandvel(
                 V.ravel(), R.ravel(), d2Vm, dVm, self.rMax,
                 self.vMax, self.beta, self.dP, self.rho, self.f, V.size
@@ -425,7 +425,7 @@ class HollandWindProfile(WindProfileModel):
 
         try:
             from ._windmodels import fhollandvort
-            Z = np.empty_like(R)
+            Z = np.empty(R.shape)
             fhollandvort(
                 Z.ravel(), R.ravel(), d2Vm, dVm, self.rMax, self.vMax,
                 self.beta, self.dP, self.rho, self.f, Z.size
@@ -1087,7 +1087,7 @@ class KepertWindField(WindFieldModel):
                 from ._windmodels import fkerpert
 
                 d2Vm, dVm = self.profile.secondDerivative(), self.profile.firstDerivative()
-                Ux, Vy = np.empty_like(R), np.empty_like(R)
+                Ux, Vy = np.empty(R.shape), np.empty(R.shape)
                 n = Ux.size
                 fkerpert(
                     R.ravel(), lam.ravel(), self.f, self.rMax, Vm, thetaFm,
-- 
2.43.0


From db06556344a5e4e78a152f1bc63a9409bd9cec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:03 +0000
Subject: [PATCH 009/104] fix: keep the sign of negative vorticity in the
 compiled wind kernels

Fortran's sign(Z, f) discards the sign of Z. Steep Holland profiles have
anticyclonic vorticity outside the radius of maximum winds, which the
compiled kernels reported as cyclonic while the Python code did not.
---
 wind/windmodels.f90 | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wind/windmodels.f90 b/wind/windmodels.f90
index a471243..26cffbf 100644
--- a/wind/windmodels.f90
+++ b/wind/windmodels.f90
@@ -74,8 +74,10 @@ subroutine fkerpert(R, lam, f, rMax, Vm, thetaFm, vFm, d2Vm, dVm, dP, beta, rho,
             (sqrt(beta * dP * delta * edelta / &
                      rho + (R(i) * f / 2)**2)) / R(i)
       end if
-      V = sign(V, f)
-      Z = sign(Z, f)
+      if (f < 0.) then
+         V = -V
+         Z = -Z
+      end if
 
       if (R(i) > 2 * rMax) then
          Vt  = Umod * exp(-((R(i) / (2.*rMax)) - 1.) ** 2.)
@@ -163,7 +165,7 @@ subroutine fhollandvel(V, R, d2Vm, dVm, rMax, vMax, beta, dP, rho, f, n)
          V(i) = sqrt((dP * beta / rho) * delta * edelta + (R(i) * f / 2.) ** 2) - R(i) * abs(f) / 2.
       end if
 
-      V(i) = sign(V(i), f)
+      if (f < 0.) V(i) = -V(i)
 
    end do
    !$OMP END PARALLEL DO
@@ -202,7 +204,7 @@ subroutine fhollandvort(Z, R, d2Vm, dVm, rMax, vMax, beta, dP, rho, f, n)
                      rho + (R(i) * f / 2)**2)) / R(i)
       end if
 
-      Z(i) = sign(Z(i), f)
+      if (f < 0.) Z(i) = -Z(i)
    end do
    !$OMP END PARALLEL DO
 
-- 
2.43.0


From e24124162c4756fdbbe9346e68616444369fc104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:25 +0000
Subject: [PATCH 010/104] fix: do not read past the last input point in akima
 interpolation

The loop over polynomial coefficients ran once per input point instead of
once per interval and read one element beyond both input arrays.
---
 Utilities/akima.c | 1028 ++++++++++++++++++++++-----------------------
 1 file changed, 514 insertions(+), 514 deletions(-)

diff --git a/Utilities/akima.c b/Utilities/akima.c
index 0df9dbd..376b10c 100755
--- a/Utilities/akima.c
+++ b/Utilities/akima.c
@@ -1,514 +1,514 @@
-/* akima.c
-
-A Python/Numpy C extension module for data interpolation using Akima's method.
-
-Refer to the akima.py module for documentation and tests.
-
-Tested on Python 2.7 and 3.2, 32-bit and 64-bit.
-
-Authors:
-  Christoph Gohlke <http://www.lfd.uci.edu/~gohlke/>,
-  Laboratory for Fluorescence Dynamics. University of California, Irvine.
-
-Copyright (c) 2007-2011, The Regents of the University of California
-Produced by the Laboratory for Fluorescence Dynamics.
-All rights reserved.
-
-Redistribution and use in source and binary forms, with or without
-modification, are permitted provided that the following conditions are met:
-
-* Redistributions of source code must retain the above copyright
-  notice, this list of conditions and the following disclaimer.
-* Redistributions in binary form must reproduce the above copyright
-  notice, this list of conditions and the following disclaimer in the
-  documentation and/or other materials provided with the distribution.
-* Neither the name of the copyright holders nor the names of any
-  contributors may be used to endorse or promote products derived
-  from this software without specific prior written permission.
-
-THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS"
-AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
-IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE
-ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT OWNER OR CONTRIBUTORS BE
-LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR
-CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF
-SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS
-INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN
-CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE)
-ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
-POSSIBILITY OF SUCH DAMAGE.
-*/
-
-/*****************************************************************************/
-/* setup.py
-
-"""A Python script to build the _akima extension module.
-
-Usage:: ``python setup.py build_ext --inplace``
-
-"""
-
-from distutils.core import setup, Extension
-import numpy
-
-setup(name='_akima', ext_modules=[Extension('_akima', ['akima.c'],
-    include_dirs=[numpy.get_include()], extra_compile_args=[])],)
-
-******************************************************************************/
-
-#define _VERSION_ "2011.07.07"
-
-#define WIN32_LEAN_AND_MEAN
-
-#include "Python.h"
-#include "arrayobject.h"
-
-
-/*
-A new method of interpolation and smooth curve fitting based on local
-procedures. Hiroshi Akima, J. ACM, October 1970, 17(4), 589-602.
-*/
-
-int interpolate(
-    Py_ssize_t si,            /* size of input arrays */
-    char *xi, Py_ssize_t dxi, /* x coordinates and stride */
-    char *yi, Py_ssize_t dyi, /* y coordinates and stride */
-    Py_ssize_t so,            /* size of output arrays */
-    char *xo, Py_ssize_t dxo, /* x coordinates of output and stride */
-    char *yo, Py_ssize_t dyo, /* y output coordinates and stride */
-    double *p           /* buffer for polynomial coefficients of size 4*si+4 */
-    )
-{
-    Py_ssize_t i, s;
-    double x0, x1, x2, x3;       /* extrapolated x values */
-    double y0, y1, y2, y3;       /* extrapolated y values */
-    double t0, t1, t2, t3;       /* temporary values */
-    double d0, d1;
-    double g0, g1;               /* gradients at extrapolated values */
-    double *p0, *p1, *p2, *p3;   /* buffer pointers. p3 holds slopes */
-    char *pxi, *pyi, *pxo, *pyo; /* data pointers */
-
-    p0 = p;
-    p1 = p + si + 1;
-    p2 = p + si*2 + 2;
-    p3 = p + si*3 + 3;
-
-    /* slopes of input data */
-    pxi = xi;
-    pyi = yi;
-    t0 = *((double *)pxi);
-    t1 = *((double *)pyi);
-    i = si-1;
-    while (i--) {
-        pxi += dxi;
-        pyi += dyi;
-        t0 = *((double *)pxi) - t0;
-        if (t0 < 1e-12)
-            return -1;
-        *p3++ = (*((double *)pyi) - t1) / t0;
-        t0 = *((double *)pxi);
-        t1 = *((double *)pyi);
-    }
-    p3 = p + si*3 + 3;
-
-    /* extrapolate 2 points on left side */
-    t0 = *((double *)(xi));
-    t1 = *((double *)(xi + dxi));
-    t2 = *((double *)(yi));
-    t3 = *((double *)(yi + dyi));
-
-    x1 = t0 + t1 - *((double *)(xi+dxi+dxi));
-    x0 = x1 + t0 - t1;
-    y1 = (t0 - x1) * (p3[1] - 2.0*p3[0]) + t2;
-    g1 = (t2 - y1) / (t0 - x1);
-    y0 = (x1 - x0) * (p3[0] - 2.0*g1) + y1;
-    g0 = (y1 - y0) / (x1 - x0);
-
-    /* extrapolate 2 points on right side */
-    s = (Py_ssize_t)xi + dxi*(si-1);
-    t0 = *((double *)(s - dxi));
-    t1 = *((double *)(s));
-    x2 = t1 + t0 - *((double *)(s - dxi - dxi));
-    x3 = x2 + t1 - t0;
-
-    s = (Py_ssize_t)yi + dyi*(si-1);
-    t2 = *((double *)(s - dyi));
-    t3 = *((double *)(s));
-    y2 = (2.0*p3[si-2] - p3[si-3]) * (x2 - t1) + t3;
-    p3[si-1] = (y2 - t3) / (x2 - t1);
-    y3 = (2.0*p3[si-1] - p3[si-2]) * (x3 - x2) + y2;
-    p3[si] = (y3 - y2) / (x3 - x2);
-
-    /* slopes */
-    t1 = g0;
-    t2 = g1;
-    t3 = *p3;
-    i = si;
-    while (i--) {
-        t0 = t1;
-        t1 = t2;
-        t2 = t3;
-        t3 = *(p3 + 1);
-        d0 = t3 - t2;
-        if (d0 < 0.0)
-            d0 *= -1.0;
-        d1 = t1 - t0;
-        if (d1 < 0.0)
-            d1 *= -1.0;
-        if ((d0 + d1) < 1e-9) {
-            *p3++ = 0.5 * (t1 + t2);
-        } else {
-            *p3++ = (d0*t1 + d1*t2) / (d0 + d1);
-        }
-    }
-    /* polynomial coefficients */
-    pxi = xi;
-    pyi = yi;
-    t0 = *((double *)pxi);
-    t1 = *((double *)pyi);
-    p3 = p + si*3 + 3;
-    g1 = *p3++;
-    i = si;
-    while (i--) {
-        pxi += dxi;
-        pyi += dyi;
-        d0 = (*((double *)pxi) - t0);
-        d1 = (*((double *)pyi) - t1);
-        t2 = d1 / d0;
-        g0 = g1;
-        g1 = *p3++;
-        *p0++ = t1;
-        *p1++ = (3.0*t2 - 2.0*g0 - g1) / d0;
-        *p2++ = (g0 + g1 - 2.0*t2) / (d0*d0);
-        t0 = *((double *)pxi);
-        t1 = *((double *)pyi);
-    }
-    /* interpolate data */
-    p0 = p;
-    p1 = p + si + 1;
-    p2 = p + si*2 + 2;
-    p3 = p + si*3 + 3;
-    pxi = xi;
-    pyi = yi;
-    pxo = xo;
-    pyo = yo;
-    si -= 2;
-    i = -1;
-    s = so;
-    while (s--) {
-        t0 = *((double *)pxo);
-        while ((t0 > *((double *)pxi)) && (i < si)) {
-            pxi += dxi;
-            i++;
-        }
-        if (i < 0) {
-            i = 0;
-            pxi = xi + dxi;
-        }
-        t1 = t0 - *((double *)(pxi - dxi));
-        *((double *)pyo) = p0[i] + p3[i]*t1 + p1[i]*t1*t1 + p2[i]*t1*t1*t1;
-        pyo += dyo;
-        pxo += dxo;
-    }
-    return 0;
-}
-
-/*****************************************************************************/
-/* Python functions */
-
-/*
-Numpy array converters for use with PyArg_Parse functions.
-*/
-static int
-PyConverter_AnyDoubleArray(
-    PyObject *object,
-    PyObject **address)
-{
-    PyArrayObject *obj = (PyArrayObject *)object;
-    if (PyArray_Check(object) && obj->descr->type_num == PyArray_DOUBLE) {
-        *address = object;
-        Py_INCREF(object);
-        return NPY_SUCCEED;
-    } else {
-        *address = PyArray_FROM_OTF(object, NPY_DOUBLE, NPY_ALIGNED);
-        if (*address == NULL) {
-            PyErr_Format(PyExc_ValueError, "can not convert to array");
-            return NPY_FAIL;
-        }
-        return NPY_SUCCEED;
-    }
-}
-
-static int
-PyOutputConverter_AnyDoubleArrayOrNone(
-    PyObject *object,
-    PyArrayObject **address)
-{
-    PyArrayObject *obj = (PyArrayObject *)object;
-    if ((object == NULL) || (object == Py_None)) {
-        *address = NULL;
-        return NPY_SUCCEED;
-    }
-    if (PyArray_Check(object) && (obj->descr->type_num == PyArray_DOUBLE)) {
-        Py_INCREF(object);
-        *address = (PyArrayObject *)object;
-        return NPY_SUCCEED;
-    } else {
-        PyErr_Format(PyExc_TypeError, "output must be array of type double");
-        *address = NULL;
-        return NPY_FAIL;
-    }
-}
-
-/*
-Interpolate array along axis using Akima's method.
-*/
-char py_interpolate_doc[] =
-    "Return interpolated data along axis using Akima's method.";
-
-static PyObject *
-py_interpolate(
-    PyObject *obj,
-    PyObject *args,
-    PyObject *kwds)
-{
-    PyArrayObject *xdata = NULL;
-    PyArrayObject *data = NULL;
-    PyArrayObject *xout = NULL;
-    PyArrayObject *out = NULL;
-    PyArrayObject *oout = NULL;
-    PyArrayIterObject *dit = NULL;
-    PyArrayIterObject *oit = NULL;
-    npy_intp dstride, ostride, xdstride, xostride, size, outsize;
-    Py_ssize_t newshape[NPY_MAXDIMS];
-    int axis = NPY_MAXDIMS;
-    int i, ndim, error;
-    double *buffer = NULL;
-
-    static char *kwlist[] = {"x", "y", "x_new", "axis", "out", NULL};
-
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O&O&O&|O&O&", kwlist,
-        PyConverter_AnyDoubleArray, &xdata,
-        PyConverter_AnyDoubleArray, &data,
-        PyConverter_AnyDoubleArray, &xout,
-        PyArray_AxisConverter, &axis,
-        PyOutputConverter_AnyDoubleArrayOrNone, &oout))
-        goto _fail;
-
-    /* check axis */
-    ndim = PyArray_NDIM(data);
-    if ((axis == NPY_MAXDIMS) || (axis == -1)) {
-        axis = ndim - 1;
-    } else if ((axis < 0) || (axis > NPY_MAXDIMS)) {
-        PyErr_Format(PyExc_ValueError, "invalid axis");
-        goto _fail;
-    }
-
-    if ((PyArray_NDIM(xdata) != 1) || (PyArray_NDIM(xout) != 1)) {
-        PyErr_Format(PyExc_ValueError,
-            "x-arrays must be one dimensional");
-        goto _fail;
-    }
-
-    size = PyArray_DIM(data, axis);
-    outsize = PyArray_DIM(xout, 0);
-
-    if (size < 3) {
-        PyErr_Format(PyExc_ValueError, "size along axis is too small");
-        goto _fail;
-    }
-
-    if (size != PyArray_DIM(xdata, 0)) {
-        PyErr_Format(PyExc_ValueError,
-            "size of x-array must match data shape at axis");
-        goto _fail;
-    }
-
-    for (i = 0; i < ndim; i++) {
-        newshape[i] = (i == axis) ? outsize : PyArray_DIM(data, i);
-    }
-
-    if (oout == NULL) {
-        /* create a new output array */
-        out = (PyArrayObject*)PyArray_SimpleNew(ndim, newshape, NPY_DOUBLE);
-        if (out == NULL) {
-            PyErr_Format(PyExc_ValueError, "failed to allocate output array");
-            goto _fail;
-        }
-    } else if (ndim != PyArray_NDIM(oout)) {
-        PyErr_Format(PyExc_ValueError,
-            "output and data array dimension mismatch");
-        goto _fail;
-    } else {
-        for (i = 0; i < ndim; i++) {
-            if (newshape[i] != PyArray_DIM(oout, i)) {
-                PyErr_Format(PyExc_ValueError, "wrong output shape");
-                goto _fail;
-            }
-        }
-        out = oout;
-    }
-
-    /* iterate over all but specified axis */
-    dit = (PyArrayIterObject *)PyArray_IterAllButAxis((PyObject *)data, &axis);
-    oit = (PyArrayIterObject *)PyArray_IterAllButAxis((PyObject *)out, &axis);
-    dstride = PyArray_STRIDE(data, axis);
-    ostride = PyArray_STRIDE(out, axis);
-    xdstride = PyArray_STRIDE(xdata, 0);
-    xostride = PyArray_STRIDE(xout, 0);
-
-    buffer = (double *)PyMem_Malloc((size * 4 + 4) * sizeof(double));
-    if (buffer == NULL) {
-        PyErr_Format(PyExc_ValueError, "failed to allocate output buffer");
-        goto _fail;
-    }
-
-    while (dit->index < dit->size) {
-        error = interpolate(
-            size,
-            PyArray_DATA(xdata), xdstride,
-            dit->dataptr, dstride,
-            outsize,
-            PyArray_DATA(xout), xostride,
-            oit->dataptr, ostride,
-            buffer);
-
-        if (error != 0) {
-            PyErr_Format(PyExc_ValueError, "interpolate() failed");
-            goto _fail;
-        }
-
-        PyArray_ITER_NEXT(oit);
-        PyArray_ITER_NEXT(dit);
-    }
-
-    PyMem_Free(buffer);
-    Py_DECREF(oit);
-    Py_DECREF(dit);
-    Py_DECREF(data);
-    Py_DECREF(xout);
-    Py_DECREF(xdata);
-
-    /* Return output vector if not provided as argument */
-    if (oout == NULL) {
-        return PyArray_Return(out);
-    } else {
-        Py_INCREF(Py_None);
-        return Py_None;
-    }
-
-  _fail:
-    Py_XDECREF(xdata);
-    Py_XDECREF(xout);
-    Py_XDECREF(data);
-    Py_XDECREF(oit);
-    Py_XDECREF(dit);
-    if (buffer != NULL)
-        PyMem_Free(buffer);
-    if (oout == NULL)
-        Py_XDECREF(out);
-    else
-        Py_XDECREF(oout);
-    return NULL;
-}
-
-
-/*****************************************************************************/
-/* Create Python module */
-
-char module_doc[] =
-    "Interpolation of data points in a plane based on Akima's method.\n\n"
-    "Refer to the akima.py module for documentation and tests.\n\n"
-    "Authors:\n  Christoph Gohlke <http://www.lfd.uci.edu/~gohlke/>\n"
-    "  Laboratory for Fluorescence Dynamics, University of California, Irvine."
-    "\n\nVersion: %s\n";
-
-static PyMethodDef module_methods[] = {
-    {"interpolate", (PyCFunction)py_interpolate, METH_VARARGS|METH_KEYWORDS,
-        py_interpolate_doc},
-    {NULL, NULL, 0, NULL} /* Sentinel */
-};
-
-
-#if PY_MAJOR_VERSION >= 3
-
-struct module_state {
-    PyObject *error;
-};
-
-#define GETSTATE(m) ((struct module_state*)PyModule_GetState(m))
-
-static int module_traverse(PyObject *m, visitproc visit, void *arg) {
-    Py_VISIT(GETSTATE(m)->error);
-    return 0;
-}
-
-static int module_clear(PyObject *m) {
-    Py_CLEAR(GETSTATE(m)->error);
-    return 0;
-}
-
-static struct PyModuleDef moduledef = {
-        PyModuleDef_HEAD_INIT,
-        "_akima",
-        NULL,
-        sizeof(struct module_state),
-        module_methods,
-        NULL,
-        module_traverse,
-        module_clear,
-        NULL
-};
-
-#define INITERROR return NULL
-
-PyMODINIT_FUNC
-PyInit__akima(void)
-
-#else
-
-#define INITERROR return
-
-PyMODINIT_FUNC
-init_akima(void)
-
-#endif
-{
-    PyObject *module;
-
-    char *doc = (char *)PyMem_Malloc(sizeof(module_doc) + sizeof(_VERSION_));
-    sprintf(doc, module_doc, _VERSION_);
-
-#if PY_MAJOR_VERSION >= 3
-    moduledef.m_doc = doc;
-    module = PyModule_Create(&moduledef);
-#else
-    module = Py_InitModule3("_akima", module_methods, doc);
-#endif
-
-    PyMem_Free(doc);
-
-    if (module == NULL)
-        INITERROR;
-
-    if (_import_array() < 0) {
-        Py_DECREF(module);
-        INITERROR;
-    }
-
-    {
-#if PY_MAJOR_VERSION < 3
-    PyObject *s = PyString_FromString(_VERSION_);
-#else
-    PyObject *s = PyUnicode_FromString(_VERSION_);
-#endif
-    PyObject *dict = PyModule_GetDict(module);
-    PyDict_SetItemString(dict, "__version__", s);
-    Py_DECREF(s);
-    }
-
-#if PY_MAJOR_VERSION >= 3
-    return module;
-#endif
-}
-
+/* akima.c
+
+A Python/Numpy C extension module for data interpolation using Akima's method.
+
+Refer to the akima.py module for documentation and tests.
+
+Tested on Python 2.7 and 3.2, 32-bit and 64-bit.
+
+Authors:
+  Christoph Gohlke <http://www.lfd.uci.edu/~gohlke/>,
+  Laboratory for Fluorescence Dynamics. University of California, Irvine.
+
+Copyright (c) 2007-2011, The Regents of the University of California
+Produced by the Laboratory for Fluorescence Dynamics.
+All rights reserved.
+
+Redistribution and use in source and binary forms, with or without
+modification, are permitted provided that the following conditions are met:
+
+* Redistributions of source code must retain the above copyright
+  notice, this list of conditions and the following disclaimer.
+* Redistributions in binary form must reproduce the above copyright
+  notice, this list of conditions and the following disclaimer in the
+  documentation and/or other materials provided with the distribution.
+* Neither the name of the copyright holders nor the names of any
+  contributors may be used to endorse or promote products derived
+  from this software without specific prior written permission.
+
+THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS"
+AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
+IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE
+ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT OWNER OR CONTRIBUTORS BE
+LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR
+CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF
+SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS
+INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN
+CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE)
+ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
+POSSIBILITY OF SUCH DAMAGE.
+*/
+
+/*****************************************************************************/
+/* setup.py
+
+"""A Python script to build the _akima extension module.
+
+Usage:: ``python setup.py build_ext --inplace``
+
+"""
+
+from distutils.core import setup, Extension
+import numpy
+
+setup(name='_akima', ext_modules=[Extension('_akima', ['akima.c'],
+    include_dirs=[numpy.get_include()], extra_compile_args=[])],)
+
+******************************************************************************/
+
+#define _VERSION_ "2011.07.07"
+
+#define WIN32_LEAN_AND_MEAN
+
+#include "Python.h"
+#include "arrayobject.h"
+
+
+/*
+A new method of interpolation and smooth curve fitting based on local
+procedures. Hiroshi Akima, J. ACM, October 1970, 17(4), 589-602.
+*/
+
+int interpolate(
+    Py_ssize_t si,            /* size of input arrays */
+    char *xi, Py_ssize_t dxi, /* x coordinates and stride */
+    char *yi, Py_ssize_t dyi, /* y coordinates and stride */
+    Py_ssize_t so,            /* size of output arrays */
+    char *xo, Py_ssize_t dxo, /* x coordinates of output and stride */
+    char *yo, Py_ssize_t dyo, /* y output coordinates and stride */
+    double *p           /* buffer for polynomial coefficients of size 4*si+4 */
+    )
+{
+    Py_ssize_t i, s;
+    double x0, x1, x2, x3;       /* extrapolated x values */
+    double y0, y1, y2, y3;       /* extrapolated y values */
+    double t0, t1, t2, t3;       /* temporary values */
+    double d0, d1;
+    double g0, g1;               /* gradients at extrapolated values */
+    double *p0, *p1, *p2, *p3;   /* buffer pointers. p3 holds slopes */
+    char *pxi, *pyi, *pxo, *pyo; /* data pointers */
+
+    p0 = p;
+    p1 = p + si + 1;
+    p2 = p + si*2 + 2;
+    p3 = p + si*3 + 3;
+
+    /* slopes of input data */
+    pxi = xi;
+    pyi = yi;
+    t0 = *((double *)pxi);
+    t1 = *((double *)pyi);
+    i = si-1;
+    while (i--) {
+        pxi += dxi;
+        pyi += dyi;
+        t0 = *((double *)pxi) - t0;
+        if (t0 < 1e-12)
+            return -1;
+        *p3++ = (*((double *)pyi) - t1) / t0;
+        t0 = *((double *)pxi);
+        t1 = *((double *)pyi);
+    }
+    p3 = p + si*3 + 3;
+
+    /* extrapolate 2 points on left side */
+    t0 = *((double *)(xi));
+    t1 = *((double *)(xi + dxi));
+    t2 = *((double *)(yi));
+    t3 = *((double *)(yi + dyi));
+
+    x1 = t0 + t1 - *((double *)(xi+dxi+dxi));
+    x0 = x1 + t0 - t1;
+    y1 = (t0 - x1) * (p3[1] - 2.0*p3[0]) + t2;
+    g1 = (t2 - y1) / (t0 - x1);
+    y0 = (x1 - x0) * (p3[0] - 2.0*g1) + y1;
+    g0 = (y1 - y0) / (x1 - x0);
+
+    /* extrapolate 2 points on right side */
+    s = (Py_ssize_t)xi + dxi*(si-1);
+    t0 = *((double *)(s - dxi));
+    t1 = *((double *)(s));
+    x2 = t1 + t0 - *((double *)(s - dxi - dxi));
+    x3 = x2 + t1 - t0;
+
+    s = (Py_ssize_t)yi + dyi*(si-1);
+    t2 = *((double *)(s - dyi));
+    t3 = *((double *)(s));
+    y2 = (2.0*p3[si-2] - p3[si-3]) * (x2 - t1) + t3;
+    p3[si-1] = (y2 - t3) / (x2 - t1);
+    y3 = (2.0*p3[si-1] - p3[si-2]) * (x3 - x2) + y2;
+    p3[si] = (y3 - y2) / (x3 - x2);
+
+    /* slopes */
+    t1 = g0;
+    t2 = g1;
+    t3 = *p3;
+    i = si;
+    while (i--) {
+        t0 = t1;
+        t1 = t2;
+        t2 = t3;
+        t3 = *(p3 + 1);
+        d0 = t3 - t2;
+        if (d0 < 0.0)
+            d0 *= -1.0;
+        d1 = t1 - t0;
+        if (d1 < 0.0)
+            d1 *= -1.0;
+        if ((d0 + d1) < 1e-9) {
+            *p3++ = 0.5 * (t1 + t2);
+        } else {
+            *p3++ = (d0*t1 + d1*t2) / (d0 + d1);
+        }
+    }
+    /* polynomial coefficients */
+    pxi = xi;
+    pyi = yi;
+    t0 = *((double *)pxi);
+    t1 = *((double *)pyi);
+    p3 = p + si*3 + 3;
+    g1 = *p3++;
+    i = si-1;
+    while (i--) {
+        pxi += dxi;
+        pyi += dyi;
+        d0 = (*((double *)pxi) - t0);
+        d1 = (*((double *)pyi) - t1);
+        t2 = d1 / d0;
+        g0 = g1;
+        g1 = *p3++;
+        *p0++ = t1;
+        *p1++ = (3.0*t2 - 2.0*g0 - g1) / d0;
+        *p2++ = (g0 + g1 - 2.0*t2) / (d0*d0);
+        t0 = *((double *)pxi);
+        t1 = *((double *)pyi);
+    }
+    /* interpolate data */
+    p0 = p;
+    p1 = p + si + 1;
+    p2 = p + si*2 + 2;
+    p3 = p + si*3 + 3;
+    pxi = xi;
+    pyi = yi;
+    pxo = xo;
+    pyo = yo;
+    si -= 2;
+    i = -1;
+    s = so;
+    while (s--) {
+        t0 = *((double *)pxo);
+        while ((t0 > *((double *)pxi)) && (i < si)) {
+            pxi += dxi;
+            i++;
+        }
+        if (i < 0) {
+            i = 0;
+            pxi = xi + dxi;
+        }
+        t1 = t0 - *((double *)(pxi - dxi));
+        *((double *)pyo) = p0[i] + p3[i]*t1 + p1[i]*t1*t1 + p2[i]*t1*t1*t1;
+        pyo += dyo;
+        pxo += dxo;
+    }
+    return 0;
+}
+
+/*****************************************************************************/
+/* Python functions */
+
+/*
+Numpy array converters for use with PyArg_Parse functions.
+*/
+static int
+PyConverter_AnyDoubleArray(
+    PyObject *object,
+    PyObject **address)
+{
+    PyArrayObject *obj = (PyArrayObject *)object;
+    if (PyArray_Check(object) && obj->descr->type_num == PyArray_DOUBLE) {
+        *address = object;
+        Py_INCREF(object);
+        return NPY_SUCCEED;
+    } else {
+        *address = PyArray_FROM_OTF(object, NPY_DOUBLE, NPY_ALIGNED);
+        if (*address == NULL) {
+            PyErr_Format(PyExc_ValueError, "can not convert to array");
+            return NPY_FAIL;
+        }
+        return NPY_SUCCEED;
+    }
+}
+
+static int
+PyOutputConverter_AnyDoubleArrayOrNone(
+    PyObject *object,
+    PyArrayObject **address)
+{
+    PyArrayObject *obj = (PyArrayObject *)object;
+    if ((object == NULL) || (object == Py_None)) {
+        *address = NULL;
+        return NPY_SUCCEED;
+    }
+    if (PyArray_Check(object) && (obj->descr->type_num == PyArray_DOUBLE)) {
+        Py_INCREF(object);
+        *address = (PyArrayObject *)object;
+        return NPY_SUCCEED;
+    } else {
+        PyErr_Format(PyExc_TypeError, "output must be array of type double");
+        *address = NULL;
+        return NPY_FAIL;
+    }
+}
+
+/*
+Interpolate array along axis using Akima's method.
+*/
+char py_interpolate_doc[] =
+    "Return interpolated data along axis using Akima's method.";
+
+static PyObject *
+py_interpolate(
+    PyObject *obj,
+    PyObject *args,
+    PyObject *kwds)
+{
+    PyArrayObject *xdata = NULL;
+    PyArrayObject *data = NULL;
+    PyArrayObject *xout = NULL;
+    PyArrayObject *out = NULL;
+    PyArrayObject *oout = NULL;
+    PyArrayIterObject *dit = NULL;
+    PyArrayIterObject *oit = NULL;
+    npy_intp dstride, ostride, xdstride, xostride, size, outsize;
+    Py_ssize_t newshape[NPY_MAXDIMS];
+    int axis = NPY_MAXDIMS;
+    int i, ndim, error;
+    double *buffer = NULL;
+
+    static char *kwlist[] = {"x", "y", "x_new", "axis", "out", NULL};
+
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O&O&O&|O&O&", kwlist,
+        PyConverter_AnyDoubleArray, &xdata,
+        PyConverter_AnyDoubleArray, &data,
+        PyConverter_AnyDoubleArray, &xout,
+        PyArray_AxisConverter, &axis,
+        PyOutputConverter_AnyDoubleArrayOrNone, &oout))
+        goto _fail;
+
+    /* check axis */
+    ndim = PyArray_NDIM(data);
+    if ((axis == NPY_MAXDIMS) || (axis == -1)) {
+        axis = ndim - 1;
+    } else if ((axis < 0) || (axis > NPY_MAXDIMS)) {
+        PyErr_Format(PyExc_ValueError, "invalid axis");
+        goto _fail;
+    }
+
+    if ((PyArray_NDIM(xdata) != 1) || (PyArray_NDIM(xout) != 1)) {
+        PyErr_Format(PyExc_ValueError,
+            "x-arrays must be one dimensional");
+        goto _fail;
+    }
+
+    size = PyArray_DIM(data, axis);
+    outsize = PyArray_DIM(xout, 0);
+
+    if (size < 3) {
+        PyErr_Format(PyExc_ValueError, "size along axis is too small");
+        goto _fail;
+    }
+
+    if (size != PyArray_DIM(xdata, 0)) {
+        PyErr_Format(PyExc_ValueError,
+            "size of x-array must match data shape at axis");
+        goto _fail;
+    }
+
+    for (i = 0; i < ndim; i++) {
+        newshape[i] = (i == axis) ? outsize : PyArray_DIM(data, i);
+    }
+
+    if (oout == NULL) {
+        /* create a new output array */
+        out = (PyArrayObject*)PyArray_SimpleNew(ndim, newshape, NPY_DOUBLE);
+        if (out == NULL) {
+            PyErr_Format(PyExc_ValueError, "failed to allocate output array");
+            goto _fail;
+        }
+    } else if (ndim != PyArray_NDIM(oout)) {
+        PyErr_Format(PyExc_ValueError,
+            "output and data array dimension mismatch");
+        goto _fail;
+    } else {
+        for (i = 0; i < ndim; i++) {
+            if (newshape[i] != PyArray_DIM(oout, i)) {
+                PyErr_Format(PyExc_ValueError, "wrong output shape");
+                goto _fail;
+            }
+        }
+        out = oout;
+    }
+
+    /* iterate over all but specified axis */
+    dit = (PyArrayIterObject *)PyArray_IterAllButAxis((PyObject *)data, &axis);
+    oit = (PyArrayIterObject *)PyArray_IterAllButAxis((PyObject *)out, &axis);
+    dstride = PyArray_STRIDE(data, axis);
+    ostride = PyArray_STRIDE(out, axis);
+    xdstride = PyArray_STRIDE(xdata, 0);
+    xostride = PyArray_STRIDE(xout, 0);
+
+    buffer = (double *)PyMem_Malloc((size * 4 + 4) * sizeof(double));
+    if (buffer == NULL) {
+        PyErr_Format(PyExc_ValueError, "failed to allocate output buffer");
+        goto _fail;
+    }
+
+    while (dit->index < dit->size) {
+        error = interpolate(
+            size,
+            PyArray_DATA(xdata), xdstride,
+            dit->dataptr, dstride,
+            outsize,
+            PyArray_DATA(xout), xostride,
+            oit->dataptr, ostride,
+            buffer);
+
+        if (error != 0) {
+            PyErr_Format(PyExc_ValueError, "interpolate() failed");
+            goto _fail;
+        }
+
+        PyArray_ITER_NEXT(oit);
+        PyArray_ITER_NEXT(dit);
+    }
+
+    PyMem_Free(buffer);
+    Py_DECREF(oit);
+    Py_DECREF(dit);
+    Py_DECREF(data);
+    Py_DECREF(xout);
+    Py_DECREF(xdata);
+
+    /* Return output vector if not provided as argument */
+    if (oout == NULL) {
+        return PyArray_Return(out);
+    } else {
+        Py_INCREF(Py_None);
+        return Py_None;
+    }
+
+  _fail:
+    Py_XDECREF(xdata);
+    Py_XDECREF(xout);
+    Py_XDECREF(data);
+    Py_XDECREF(oit);
+    Py_XDECREF(dit);
+    if (buffer != NULL)
+        PyMem_Free(buffer);
+    if (oout == NULL)
+        Py_XDECREF(out);
+    else
+        Py_XDECREF(oout);
+    return NULL;
+}
+
+
+/*****************************************************************************/
+/* Create Python module */
+
+char module_doc[] =
+    "Interpolation of data points in a plane based on Akima's method.\n\n"
+    "Refer to the akima.py module for documentation and tests.\n\n"
+    "Authors:\n  Christoph Gohlke <http://www.lfd.uci.edu/~gohlke/>\n"
+    "  Laboratory for Fluorescence Dynamics, University of California, Irvine."
+    "\n\nVersion: %s\n";
+
+static PyMethodDef module_methods[] = {
+    {"interpolate", (PyCFunction)py_interpolate, METH_VARARGS|METH_KEYWORDS,
+        py_interpolate_doc},
+    {NULL, NULL, 0, NULL} /* Sentinel */
+};
+
+
+#if PY_MAJOR_VERSION >= 3
+
+struct module_state {
+    PyObject *error;
+};
+
+#define GETSTATE(m) ((struct module_state*)PyModule_GetState(m))
+
+static int module_traverse(PyObject *m, visitproc visit, void *arg) {
+    Py_VISIT(GETSTATE(m)->error);
+    return 0;
+}
+
+static int module_clear(PyObject *m) {
+    Py_CLEAR(GETSTATE(m)->error);
+    return 0;
+}
+
+static struct PyModuleDef moduledef = {
+        PyModuleDef_HEAD_INIT,
+        "_akima",
+        NULL,
+        sizeof(struct module_state),
+        module_methods,
+        NULL,
+        module_traverse,
+        module_clear,
+        NULL
+};
+
+#define INITERROR return NULL
+
+PyMODINIT_FUNC
+PyInit__akima(void)
+
+#else
+
+#define INITERROR return
+
+PyMODINIT_FUNC
+init_akima(void)
+
+#endif
+{
+    PyObject *module;
+
+    char *doc = (char *)PyMem_Malloc(sizeof(module_doc) + sizeof(_VERSION_));
+    sprintf(doc, module_doc, _VERSION_);
+
+#if PY_MAJOR_VERSION >= 3
+    moduledef.m_doc = doc;
+    module = PyModule_Create(&moduledef);
+#else
+    module = Py_InitModule3("_akima", module_methods, doc);
+#endif
+
+    PyMem_Free(doc);
+
+    if (module == NULL)
+        INITERROR;
+
+    if (_import_array() < 0) {
+        Py_DECREF(module);
+        INITERROR;
+    }
+
+    {
+#if PY_MAJOR_VERSION < 3
+    PyObject *s = PyString_FromString(_VERSION_);
+#else
+    PyObject *s = PyUnicode_FromString(_VERSION_);
+#endif
+    PyObject *dict = PyModule_GetDict(module);
+    PyDict_SetItemString(dict, "__version__", s);
+    Py_DECREF(s);
+    }
+
+#if PY_MAJOR_VERSION >= 3
+    return module;
+#endif
+}
+
-- 
2.43.0


From 9aa7abf05561a8adb6645e83be0a3fc578150093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:25 +0000
Subject: [PATCH 011/104] fix: reject an axis outside the data in akima
 interpolation

An axis equal to or above the number of dimensions, or data without
dimensions, indexed the shape array out of bounds.
---
 Utilities/akima.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/akima.c b/Utilities/akima.c
index 376b10c..3d3aa86 100755
--- a/Utilities/akima.c
+++ b/Utilities/akima.c
@@ -299,7 +299,8 @@ py_interpolate(
     ndim = PyArray_NDIM(data);
     if ((axis == NPY_MAXDIMS) || (axis == -1)) {
         axis = ndim - 1;
-    } else if ((axis < 0) || (axis > NPY_MAXDIMS)) {
+    }
+    if ((axis < 0) || (axis >= ndim)) {
         PyErr_Format(PyExc_ValueError, "invalid axis");
         goto _fail;
     }
-- 
2.43.0


From cf36d0b45930c5eaeb6d15eccd09da3da92585e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:15 +0000
Subject: [PATCH 012/104] fix: use the mean slope at a kink in the Python akima
 interpolation

Akima's method takes the mean of the adjacent slopes where the weights
vanish, as the C implementation does. The Python version took the left one.
---
 Utilities/akima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/akima.py b/Utilities/akima.py
index fee063e..ed88e0d 100755
--- a/Utilities/akima.py
+++ b/Utilities/akima.py
@@ -159,7 +159,7 @@ def interpolate(x, y, x_new, axis=-1, out=None):
     f12 = f1 + f2
 
     ids = numpy.nonzero(f12 > 1e-9 * numpy.max(f12))[0]
-    b = m1[1:n + 1]
+    b = 0.5 * (m1[1:n + 1] + m1[2:n + 2])
 
     b[ids] = (f1[ids] * m1[ids + 1] + f2[ids] * m1[ids + 2]) / f12[ids]
     c = (3.0 * m - 2.0 * b[0:n - 1] - b[1:n]) / dx
-- 
2.43.0


From e215cc05ee053ab8773593658dce675ad318dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:15 +0000
Subject: [PATCH 013/104] fix: allow unsorted interpolation points in the C
 akima interpolation

The search only moved forward, so a point below its predecessor was
extrapolated from the wrong interval. The Python version handles any order.
---
 Utilities/akima.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Utilities/akima.c b/Utilities/akima.c
index 3d3aa86..d2e442a 100755
--- a/Utilities/akima.c
+++ b/Utilities/akima.c
@@ -197,6 +197,10 @@ int interpolate(
     s = so;
     while (s--) {
         t0 = *((double *)pxo);
+        while ((i > 0) && (t0 < *((double *)(pxi - dxi)))) {
+            pxi -= dxi;
+            i--;
+        }
         while ((t0 > *((double *)pxi)) && (i < si)) {
             pxi += dxi;
             i++;
-- 
2.43.0


From 8f6ebd7bae4097fbb3bd547b557c8e9138ae64e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:32 +0000
Subject: [PATCH 014/104] fix: keep the array type of the radii in the compiled
 wind kernels

A masked radius array has to give a masked result, as before the kernels
were made independent of the memory layout.
---
 wind/windmodels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wind/windmodels.py b/wind/windmodels.py
index cccacac..7513cf8 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -383,7 +383,7 @@ class HollandWindProfile(WindProfileModel):
 
         try:
             from ._windmodels import fhollandvel
-            V = np.empty(R.shape)
+            V = np.empty_like(R, order='C')
             fhollandvel(
                 V.ravel(), R.ravel(), d2Vm, dVm, self.rMax,
                 self.vMax, self.beta, self.dP, self.rho, self.f, V.size
@@ -425,7 +425,7 @@ class HollandWindProfile(WindProfileModel):
 
         try:
             from ._windmodels import fhollandvort
-            Z = np.empty(R.shape)
+            Z = np.empty_like(R, order='C')
             fhollandvort(
                 Z.ravel(), R.ravel(), d2Vm, dVm, self.rMax, self.vMax,
                 self.beta, self.dP, self.rho, self.f, Z.size
@@ -1087,7 +1087,7 @@ class KepertWindField(WindFieldModel):
                 from ._windmodels import fkerpert
 
                 d2Vm, dVm = self.profile.secondDerivative(), self.profile.firstDerivative()
-                Ux, Vy = np.empty(R.shape), np.empty(R.shape)
+                Ux, Vy = np.empty_like(R, order='C'), np.empty_like(R, order='C')
                 n = Ux.size
                 fkerpert(
                     R.ravel(), lam.ravel(), self.f, self.rMax, Vm, thetaFm,
-- 
2.43.0


From ceb90b54532fc6c4f04c95a06609eda5764463bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:20 +0000
Subject: [PATCH 015/104] fix: write gust files under a temporary name until
 they are complete

A run killed while writing left a partial file behind. A later run could
then neither use it nor, because the failed attempt to read it keeps the
file locked, replace it.
---
 wind/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 968feff..99c4036 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -703,7 +703,11 @@ class WindfieldGenerator(object):
             }
         }
 
-        nctools.ncSaveGrid(filename, dimensions, variables, gatts=gatts)
+        # Write under a temporary name: an interrupted run must not leave a
+        # partly written file under the name of a complete one.
+        tempname = filename + '.tmp'
+        nctools.ncSaveGrid(tempname, dimensions, variables, gatts=gatts)
+        os.replace(tempname, filename)
 
     def dumpGustsFromTrackfiles(self, trackfiles, windfieldPath,
                                 timeStepCallback=None):
-- 
2.43.0


From f06bad046885ca4a41cf4a96da9046edeb1356fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:28 +0000
Subject: [PATCH 016/104] fix: keep the outer row and column of the hazard grid

The region limits were scaled and truncated while the grid coordinates
were scaled and rounded. For limits such as 16.15 the two differ by one,
which dropped the outermost row or column (or added one for negative
latitudes).
---
 hazard/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index bb9670f..70ae7b9 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -105,15 +105,15 @@ class TileGrid(object):
 
 
         ii, = ((np.round(wf_lon*1000).astype(int) >=
-                int(gridLimit['xMin']*1000)) &
+                np.round(gridLimit['xMin']*1000)) &
                (np.round(wf_lon*1000).astype(int) <=
-                int(gridLimit['xMax']*1000))).nonzero()
+                np.round(gridLimit['xMax']*1000))).nonzero()
 
 
         jj, = ((np.round(wf_lat*1000).astype(int) >=
-                int(gridLimit['yMin']*1000)) &
+                np.round(gridLimit['yMin']*1000)) &
                (np.round(wf_lat*1000).astype(int) <=
-                int(gridLimit['yMax']*1000))).nonzero()
+                np.round(gridLimit['yMax']*1000))).nonzero()
 
         self.imin = ii[0]
         self.imax = ii[-1]
-- 
2.43.0


From 4e0859e9919be3fb858710a7a17540a798501a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:28 +0000
Subject: [PATCH 017/104] fix: repair the hazard confidence interval
 calculation

The number of samples was a float, so the calculation failed with a
TypeError. Each sample left out its last record, and samples that could
not be fitted kept the result of the previous cell or entered the
percentiles as -9999.
---
 hazard/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 70ae7b9..9f37456 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -825,7 +825,7 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
     upper = 100. - lower # 95th percentile default
 
     nrecords = Vr.shape[0] # number of years (since we have aggregated into 1/yr)
-    nsamples = nrecords / sample_size # number of iterations to perform
+    nsamples = nrecords // sample_size # number of iterations to perform
     
     # RpUpper/RpLower = years x lat x lon
     RpUpper = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
@@ -840,9 +840,10 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
         for j in range(Vr.shape[2]): # lon
             if Vr[:, i, j].max() > 0.0: # check for valid data
                 random.shuffle(Vr[:, i, j]) # shuffle the years
+                w[:] = nodata
                 for n in range(nsamples): # iterate through fitting of random samples
                     nstart = n*sample_size
-                    nend  = (n + 1)*sample_size - 1
+                    nend  = (n + 1)*sample_size
                     vsub = Vr[nstart:nend, i, j] # select random 50(default) events
 
                     vsub.sort()
@@ -852,9 +853,15 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
                                                               minRecords/10, yrsPerSim)
 
                 # Pull out the upper and lower percentiles from the random sample fits
+                # (only those samples where a distribution could be fitted)
                 for n in range(len(years)):
-                    wUpper[n] = percentile(w[n,:], upper)
-                    wLower[n] = percentile(w[n,:], lower)
+                    valid = w[n, w[n, :] != nodata]
+                    if len(valid) > 0:
+                        wUpper[n] = percentile(valid, upper)
+                        wLower[n] = percentile(valid, lower)
+                    else:
+                        wUpper[n] = nodata
+                        wLower[n] = nodata
 
                 # Store upper and lower percentiles for each return period, for each grid cell
                 RpUpper[:, i, j] = wUpper
-- 
2.43.0


From d8425071546327345c24d30af596076826a687f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:41 +0000
Subject: [PATCH 018/104] fix: allow empirical return periods up to the number
 of simulated years

The number of daily observations was kept as a fraction, which put the
largest record well below its return period unless the number of years
is a multiple of four. With 10 simulated years an 8-year return period
was refused.
---
 hazard/evd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazard/evd.py b/hazard/evd.py
index a9fefaa..94ad35f 100644
--- a/hazard/evd.py
+++ b/hazard/evd.py
@@ -369,7 +369,7 @@ def powerfit(data, intervals, numsim, nodata=-9999., minrecords=50):
     w = nodata * np.ones(len(intervals)) # Create empty return period array
     
     npyr = 365.25
-    nobs = npyr * numsim
+    nobs = int(npyr * numsim)
     
     wspd = np.zeros(int(nobs))
     wspd[-len(data):] = np.sort(data)
@@ -423,7 +423,7 @@ def empfit(data, intervals, numsim, nodata=-9999., minrecords=50):
     w = nodata * np.ones(len(intervals)) # Create empty return period array
     
     npyr = 365.25
-    nobs = npyr * numsim
+    nobs = int(npyr * numsim)
     
     wspd = np.zeros(int(nobs))
     wspd[-len(data):] = np.sort(data)
-- 
2.43.0


From 06951dda5948efef807bf0e13229f1cf97e753b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:03 +0000
Subject: [PATCH 019/104] fix: leave tracks in memory unchanged when saving
 them

Saving replaced the dates of the tracks by numbers, so a second save of
the same tracks failed. The time units passed in were used for the values
but not recorded in the file, and the caller's attributes were modified.
---
 Utilities/track.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 84b6b98..84869ea 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -324,13 +324,14 @@ def ncSaveTracks(trackfile, tracks,
                                      zlib=True, complevel=8, shuffle=True)
         tvar = tdata.createVariable('track', tdtype, ('time',),
                                     zlib=True, complevel=8, shuffle=True)
-        t.data['Datetime'] = date2num(t.data['Datetime'], timeunits, calendar)
-        times[:] = t.data['Datetime']
-        times.units = 'hours since 1900-01-01 00:00'
+        data = t.data.copy()
+        data['Datetime'] = date2num(data['Datetime'], timeunits, calendar)
+        times[:] = data['Datetime']
+        times.units = timeunits
         times.calendar = calendar
-        tvar[:] = t.data.astype(track_dtype)
+        tvar[:] = data.astype(track_dtype)
         tvar.long_name = "Tropical cyclone track data"
-        tvar.time_units = 'hours since 1900-01-01 00:00'
+        tvar.time_units = timeunits
         tvar.calendar = calendar
         tvar.lon_units = 'degrees east'
         tvar.lat_units = 'degrees north'
@@ -339,6 +340,7 @@ def ncSaveTracks(trackfile, tracks,
         tvar.length_units = 'km'
         tvar.trackId = repr(t.trackId)
 
+    attributes = dict(attributes)
     attributes['created_on'] = time.strftime(ISO_FORMAT, time.localtime())
     attributes['created_by'] = getpass.getuser()
     ncobj.setncatts(attributes)
-- 
2.43.0


From e25d85246852ccd689de74b8ab36b0dde4a034ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:20 +0000
Subject: [PATCH 020/104] fix: round the dates of tracks read from file to the
 nearest second

Dates are stored as hours since 1900. For years far from that the stored
number can be a few microseconds short, and cutting off the fraction gave
a date one second too early.
---
 Utilities/track.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 84869ea..3139a64 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -15,7 +15,7 @@ import time
 import logging
 import getpass
 import numpy as np
-from datetime import datetime
+from datetime import datetime, timedelta
 
 from os.path import join as pjoin
 import re
@@ -185,6 +185,19 @@ attributes to convert to datetime object"
 
 TRACK_EMPTY_GROUP = """No track groups in this netcdf file: {0}"""
 
+def toDatetime(date):
+    """
+    Convert a :class:`cftime.datetime` object to a true Python
+    :class:`datetime.datetime` object, rounded to the nearest second.
+
+    :param date: :class:`cftime.datetime` object.
+
+    :return: :class:`datetime.datetime` object.
+
+    """
+    date = date + timedelta(microseconds=500000)
+    return datetime.strptime(date.strftime(ISO_FORMAT), ISO_FORMAT)
+
 def ncReadTrackData(trackfile):
     """
     Read a netcdf-format track file into a collection of
@@ -215,7 +228,7 @@ def ncReadTrackData(trackfile):
         calendar = ncobj.getncattr('calendar')
         dtt = num2date(dt[:], units, calendar)
         # Convert to true python datetimes
-        dtconversion = [datetime.strptime(d.strftime(), "%Y-%m-%d %H:%M:%S") for d in dtt]
+        dtconversion = [toDatetime(d) for d in dtt]
         newtd = np.zeros(len(dtt), dtype=track_dtype)
         for f in ncobj.variables.keys():
             if f != 'Datetime' and f in track_dtype.names:
@@ -247,7 +260,7 @@ def ncReadTrackData(trackfile):
             for f in track_data.dtype.names:
                 if f != 'Datetime' and f in track_dtype.names:
                     newtd[f] = track_data[f]
-            dtconversion = [datetime.strptime(d.strftime(), "%Y-%m-%d %H:%M:%S") for d in dt]
+            dtconversion = [toDatetime(d) for d in dt]
             newtd['Datetime'] = dtconversion
 
             track = Track(newtd)
-- 
2.43.0


From f9b232f16c07e39b1ef0d3233d86a3a9ffebffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:04 +0000
Subject: [PATCH 021/104] fix: overwrite existing ascii grid files

Saving over an existing file called a builtin that Python 3 does not have.
---
 Utilities/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/grid.py b/Utilities/grid.py
index afe3e4d..47102c6 100644
--- a/Utilities/grid.py
+++ b/Utilities/grid.py
@@ -66,9 +66,9 @@ def grdSave(filename, data, lon, lat, delta, delimiter=' ', nodata=-9999,
     if filename and os.path.isfile(filename):
         if filename.endswith('.gz'):
             import gzip
-            fh = gzip.open(filename, 'wb')
+            fh = gzip.open(filename, 'wt')
         else:
-            fh = file(filename, 'w')
+            fh = open(filename, 'w')
     elif hasattr(filename, 'seek'):
         fh = filename
     else:
-- 
2.43.0


From d2f9e81149c00d7dd0a053a72abda840c8790f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:04 +0000
Subject: [PATCH 022/104] fix: store arrays passed when creating a netCDF
 variable

The truth value of an array was tested, which fails for more than one
element and drops a single zero.
---
 Utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/nctools.py b/Utilities/nctools.py
index bb68bbc..566b9fd 100644
--- a/Utilities/nctools.py
+++ b/Utilities/nctools.py
@@ -244,7 +244,7 @@ def ncCreateVar(ncobj, name, dimensions, dtype, data=None, atts=None, **kwargs):
 
     var = ncobj.createVariable(name, dtype, dimensions, **kwargs)
 
-    if data:
+    if data is not None:
         var[:] = np.array(data, dtype=dtype)
 
     if atts:
-- 
2.43.0


From b5b4886f24c1d3a7239065e3ef2ddba3a415716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:56 +0000
Subject: [PATCH 023/104] fix: load track files with separate year, month, day
 and hour columns

A missing field of a structured array raises ValueError, not KeyError, so
track files without a date column could not be loaded.
---
 Utilities/loadData.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index badf3a7..d7c22ba 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -430,8 +430,8 @@ def parseDates(data, indicator, datefmt='%Y-%m-%d %H:%M:%S'):
 
     """
     try:
-        year, month, day, hour, minute, datetimes = date2ymdh(data['date'], datefmt)
-    except (KeyError):
+        dates = data['date']
+    except (ValueError, KeyError):
         # Sort out date/time information:
         month = np.array(data['month'], 'i')
         day = np.array(data['day'], 'i')
@@ -462,6 +462,8 @@ def parseDates(data, indicator, datefmt='%Y-%m-%d %H:%M:%S'):
 
         datetimes = np.array([datetime(y, m, d, h, mn) for y, m, d, h, mn
                               in zip(year, month, day, hour, minute)])
+    else:
+        year, month, day, hour, minute, datetimes = date2ymdh(dates, datefmt)
 
     return year, month, day, hour, minute, datetimes
 
-- 
2.43.0


From 4d451d772058dfa118d9396eb49382d027b1c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:56 +0000
Subject: [PATCH 024/104] fix: load track files that hold a single record

---
 Utilities/columns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/columns.py b/Utilities/columns.py
index 392121b..3abc22a 100644
--- a/Utilities/columns.py
+++ b/Utilities/columns.py
@@ -50,4 +50,5 @@ def colReadCSV(configFile, dataFile, source):
         raise TypeError(("{0} is not a string, filehandle "
                          "or generator.").format(dataFile))
 
-    return data
+    # A file with a single record is loaded as a 0-dimensional array
+    return np.atleast_1d(data)
-- 
2.43.0


From 083672a4d312c6cb61c938198d14fabd75fa4262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:56 +0000
Subject: [PATCH 025/104] fix: treat blank central pressures as missing

Blank fields are read as NaN, which passed the check for non-physical values.
---
 DataProcess/DataProcess.py | 4 ++--
 Utilities/loadData.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 9693a98..4cad964 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -277,8 +277,8 @@ class DataProcess(object):
         # Convert any non-physical central pressure values to maximum integer
         # This is required because IBTrACS has a mix of missing value codes
         # (i.e. -999, 0, 9999) in the same global dataset.
-        pressure = np.where((pressure < 600) | (pressure > 1100),
-                            sys.maxsize, pressure)
+        pressure = np.where((pressure < 600) | (pressure > 1100) |
+                            np.isnan(pressure), sys.maxsize, pressure)
 
         if self.progressbar is not None:
             self.progressbar.update(0.25)
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index d7c22ba..cad663e 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -750,8 +750,8 @@ def filterPressure(pressure, inputPressureUnits='hPa',
     # Convert any non-physical central pressure values to maximum integer
     # This is required because IBTrACS has a mix of missing value codes
     # (i.e. -999, 0, 9999) in the same global dataset.
-    pressure = np.where((pressure < 600) | (pressure > 1100),
-                        missingValue, pressure)
+    pressure = np.where((pressure < 600) | (pressure > 1100) |
+                        np.isnan(pressure), missingValue, pressure)
     return pressure
 
 def getMinPressure(track, missingValue=sys.maxsize):
-- 
2.43.0


From 3497b0580b3ae0d3dca84540a119ae7f7ff62a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:56 +0000
Subject: [PATCH 026/104] fix: do not round the time between observations to
 whole hours

Speeds and rates of change were wrong for observations at other intervals,
and undefined for intervals of half an hour or less.
---
 Utilities/loadData.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index cad663e..86c3e58 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -521,7 +521,7 @@ def getTimeDelta(year, month, day, hour, minute):
     """
     dates = [datetime(*x) for x in zip(year, month, day, hour, minute)]
     diffs = [d1 - d0 for d0, d1 in zip(dates[:-1], dates[1:])]
-    return np.array([0.0] + [round(d.days * 24. + d.seconds / 3600.)
+    return np.array([0.0] + [d.total_seconds() / 3600.
                              for d in diffs], 'f')
 
 def getTimeElapsed(indicator, year, month, day, hour, minute):
-- 
2.43.0


From 2c6ff5d30df81c4db9f844c3dbc21e1ef7918480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:56 +0000
Subject: [PATCH 027/104] fix: split tracks at large jumps in either direction

Only jumps to the east or north were recognised. The time elapsed is now
counted from the start of the separate tracks.
---
 DataProcess/DataProcess.py |  4 ++--
 Utilities/loadData.py      | 27 +++++++++++++--------------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 4cad964..4372d58 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -245,8 +245,8 @@ class DataProcess(object):
             # Calculate julian days:
             jdays = loadData.julianDays(year, month, day, hour, minute)
 
-        delta_lon = np.diff(lon)
-        delta_lat = np.diff(lat)
+        delta_lon = np.abs(np.mod(np.diff(lon) + 180., 360.) - 180.)
+        delta_lat = np.abs(np.diff(lat))
 
         # Split into separate tracks if large jump occurs (delta_lon >
         # 15 degrees or delta_lat > 5 degrees) This avoids two tracks
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index 86c3e58..efef202 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -846,6 +846,19 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
     # Determine the initial TC positions...
     indicator = getInitialPositions(inputData)
 
+    lat = np.array(inputData['lat'], 'd')
+    lon = np.mod(np.array(inputData['lon'], 'd'), 360)
+    delta_lon = np.abs(np.mod(np.diff(lon) + 180., 360.) - 180.)
+    delta_lat = np.abs(np.diff(lat))
+
+    # Split into separate tracks if large jump occurs (delta_lon > 10 degrees
+    # or delta_lat > 5 degrees)
+    # This avoids two tracks being accidentally combined when seasons and track
+    # numbers match but basins are different as occurs in the IBTrACS dataset.
+    # This problem can also be prevented if the 'tcserialno' column is
+    # specified.
+    indicator[np.where(delta_lon > 10)[0] + 1] = 1
+    indicator[np.where(delta_lat > 5)[0] + 1] = 1
 
     # Sort date/time information
     if 'age' in inputData.dtype.names:
@@ -864,20 +877,6 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
     # Calculate julian days
     jdays = julianDays(year, month, day, hour, minute)
 
-    lat = np.array(inputData['lat'], 'd')
-    lon = np.mod(np.array(inputData['lon'], 'd'), 360)
-    delta_lon = np.diff(lon)
-    delta_lat = np.diff(lat)
-
-    # Split into separate tracks if large jump occurs (delta_lon > 10 degrees
-    # or delta_lat > 5 degrees)
-    # This avoids two tracks being accidentally combined when seasons and track
-    # numbers match but basins are different as occurs in the IBTrACS dataset.
-    # This problem can also be prevented if the 'tcserialno' column is
-    # specified.
-    indicator[np.where(delta_lon > 10)[0] + 1] = 1
-    indicator[np.where(delta_lat > 5)[0] + 1] = 1
-
     pressure = filterPressure(np.array(inputData['pressure'], 'd'),
                               inputPressureUnits, missingValue)
     try:
-- 
2.43.0


From bdb41905fcccef42900f1b2c7e9203309dd82c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:56 +0000
Subject: [PATCH 028/104] fix: take the short way round in steps across the
 Greenwich meridian

---
 Utilities/maputils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index 61a60e9..dd7e68b 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -166,7 +166,10 @@ def latLon2XY(xr, yr, lat, lon, ieast=1, azimuth=0):
     sinazi = np.sin(angle)
 
     xntru = xr + radius * (np.diff(lat))
-    yetru = yr + ieast * radius * (np.diff(lon)) * np.cos(lat[1:])
+    # Steps across the edge of the longitude range go the short way round
+    dlon = np.diff(lon)
+    dlon = dlon - 2. * np.pi * np.round(dlon / (2. * np.pi))
+    yetru = yr + ieast * radius * dlon * np.cos(lat[1:])
     xn = xntru * cosazi + yetru * sinazi
     ye = -xntru * sinazi + yetru * cosazi
 
-- 
2.43.0


From 794e37705b3efdba63e1afae071b86372a03cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:56 +0000
Subject: [PATCH 029/104] fix: convert environmental pressures from the units
 of the input file

---
 Utilities/loadData.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index efef202..41aa0f2 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -902,7 +902,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
         rmax = np.zeros(indicator.size, 'f')
 
     if 'penv' in inputData.dtype.names:
-        penv = np.array(inputData['penv'], 'd')
+        penv = metutils.convert(np.array(inputData['penv'], 'd'),
+                                inputPressureUnits, "hPa")
     else:
         LOG.debug("No ambient MSLP data in this input file")
         LOG.debug("Sampling data from MSLP data defined in "
@@ -927,7 +928,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
         penv = ltmPressure(jdays, time, lon, lat, ncfile, ncvar)
 
     if 'poci' in inputData.dtype.names:
-        poci = np.array(inputData['poci'], 'd')
+        poci = metutils.convert(np.array(inputData['poci'], 'd'),
+                                inputPressureUnits, "hPa")
     else:
         LOG.debug("Determining poci")
         eps = np.random.normal(0, scale=2.5717)
-- 
2.43.0


From bf1d70f3be45649a432b7860175c5716e8463474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:56 +0000
Subject: [PATCH 030/104] fix: use the configured date format when processing
 input data

---
 DataProcess/DataProcess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 4372d58..77eaade 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -197,6 +197,7 @@ class DataProcess(object):
         inputSpeedUnits = config.get(self.source, 'SpeedUnits')
         inputPressureUnits = config.get(self.source, 'PressureUnits')
         inputLengthUnits = config.get(self.source, 'LengthUnits')
+        inputDateFormat = config.get(self.source, 'DateFormat')
         startSeason = config.getint('DataProcess', 'StartSeason')
 
         indicator = loadData.getInitialPositions(inputData)
@@ -237,7 +238,7 @@ class DataProcess(object):
                 pass
 
             year, month, day, hour, minute, datetimes \
-                = loadData.parseDates(inputData, indicator)
+                = loadData.parseDates(inputData, indicator, inputDateFormat)
 
             # Time between observations:
             dt = loadData.getTimeDelta(year, month, day, hour, minute)
-- 
2.43.0


From 174cf907e400bf6350c4255ae0ee94f2b3ee9892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:56 +0000
Subject: [PATCH 031/104] fix: process input data with an age column

The year and day of year were not defined for these data.
---
 DataProcess/DataProcess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 77eaade..890ffe2 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -222,6 +222,9 @@ class DataProcess(object):
         try:
             dt = np.empty(indicator.size, 'f')
             dt[1:] = np.diff(inputData['age'])
+            year, month, day, hour, minute, datetimes \
+                = loadData.parseAge(inputData, indicator)
+            jdays = loadData.julianDays(year, month, day, hour, minute)
         except (ValueError, KeyError):
 
             try:
-- 
2.43.0


From 90e1c17759c5823d3443018041e9a190cff72983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:56 +0000
Subject: [PATCH 032/104] fix: mark wind speeds missing from the input data as
 missing

The values were left uninitialised.
---
 DataProcess/DataProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 890ffe2..c47fcd7 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -291,7 +291,7 @@ class DataProcess(object):
             vmax = np.array(inputData['vmax'], 'float32')
         except (ValueError, KeyError):
             self.logger.warning("No max wind speed data")
-            vmax = np.empty(indicator.size, 'f')
+            vmax = np.full(indicator.size, sys.maxsize, 'f')
         else:
             novalue_index = np.where(vmax == sys.maxsize)
             vmax = metutils.convert(vmax, inputSpeedUnits, "mps")
-- 
2.43.0


From b84f1175d7310e5183d22079631005502bf21312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:56 +0000
Subject: [PATCH 033/104] fix: mark the size change following a missing radius
 as missing

---
 DataProcess/DataProcess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index c47fcd7..e52fdca 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -773,6 +773,7 @@ class DataProcess(object):
                           .format(pjoin(self.processPath, 'rmax_rate')))
         np.putmask(rmaxRate, indicator, sys.maxsize)
         np.putmask(rmaxRate, rmax >= sys.maxsize, sys.maxsize)
+        np.putmask(rmaxRate[1:], rmax[:-1] >= sys.maxsize, sys.maxsize)
         np.putmask(rmaxRate, (rmaxRate >= sys.maxsize) |
                    (rmaxRate <= -sys.maxsize), sys.maxsize)
         np.putmask(rmaxRate, np.isnan(rmaxRate), sys.maxsize)
-- 
2.43.0


From 7f749b80ebcbb9715c51c5c6fe84626cb891185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:56 +0000
Subject: [PATCH 034/104] fix: set invalid maximum wind speeds to zero

Unit conversion leaves a masked array, so invalid values were not found.
---
 Utilities/loadData.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index 41aa0f2..b8a5e8e 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -273,7 +273,10 @@ def maxWindSpeed(index, deltatime, lon, lat, pressure, penv,
     # 10-min mean: 0.95 (default)
     # 3-second gust: 1.11
 
-    v = gustfactor * np.sqrt(deltap * 100 * beta / (rho * np.exp(1.)))
+    # Converting the units above leaves masked arrays, where invalid values
+    # are masked rather than set to NaN.
+    v = np.ma.filled(gustfactor * np.sqrt(deltap * 100 * beta /
+                                          (rho * np.exp(1.))), np.nan)
     np.putmask(v, (np.isnan(v) |
                    np.isinf(v) |
                    (pressure >= 10e+7) |
-- 
2.43.0


From fb53d42a301c27bd38ed333ab03a9765e68c1abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:42 +0000
Subject: [PATCH 035/104] fix: evaluate parameter densities one grid point at a
 time

With a kernel of bounded support, evaluating the estimate for the whole
grid in one call only counts observations within range of every grid
point. When at least one observation is, the result was returned as the
density, so most observations were ignored.
---
 StatInterface/KDEParameters.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/StatInterface/KDEParameters.py b/StatInterface/KDEParameters.py
index 6f339ed..f059723 100644
--- a/StatInterface/KDEParameters.py
+++ b/StatInterface/KDEParameters.py
@@ -242,13 +242,10 @@ class KDEParameters(object):
         kde.fit(kernel=self.kdeType, fft=False, 
                 gridsize=len(grid), clip=(min(grid), max(grid)), cut=0)
         
-        try:
-            pdf = np.squeeze(kde.evaluate(grid))
-            if pdf.ndim == 0 or pdf.size != len(grid):
-                pdf = np.array([float(np.squeeze(kde.evaluate(x))) for x in grid])
-        except Exception:
-            pdf = np.array([float(np.squeeze(kde.evaluate(x))) for x in grid])
-            
+        # Evaluate one point at a time: given an array, kernels with a
+        # bounded domain only count the data in range of every grid point
+        pdf = np.array([float(np.squeeze(kde.evaluate(x))) for x in grid])
+
         return np.nan_to_num(pdf)
         
         #try:
-- 
2.43.0


From 645f2583e4f8d8809e8a19d269e47addc671a24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:42 +0000
Subject: [PATCH 036/104] fix: save genesis densities when the origins are
 passed in

The process folder was only known when origins were read from file, and
saving the cumulative distribution passed a flat array for a lat/lon
grid.
---
 StatInterface/KDEOrigin.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/StatInterface/KDEOrigin.py b/StatInterface/KDEOrigin.py
index e043825..944ca15 100644
--- a/StatInterface/KDEOrigin.py
+++ b/StatInterface/KDEOrigin.py
@@ -82,10 +82,12 @@ class KDEOrigin(object):
         self.config = ConfigParser()
         self.config.read(configFile)
 
-        if lonLat is None:
-            # Load the data from file:
+        if lonLat is None or self.config.has_option('Output', 'Path'):
             self.outputPath = self.config.get('Output', 'Path')
             self.processPath = pjoin(self.outputPath, 'process')
+
+        if lonLat is None:
+            # Load the data from file:
             LOGGER.debug("Loading " + pjoin(self.processPath, 'init_lon_lat'))
             ll = flLoadFile(pjoin(self.processPath, 'init_lon_lat'), '%', ',')
             self.lonLat = ll[:, 0:2]
@@ -234,7 +236,7 @@ class KDEOrigin(object):
                 0: {
                     'name': 'gcdf',
                     'dims': ('lat', 'lon'),
-                    'values': np.array(self.cz),
+                    'values': np.array(self.cz).reshape(xx.shape),
                     'dtype': 'f',
                     'atts': {
                         'long_name': ('TC Genesis cumulative '
-- 
2.43.0


From 0d059f25a974e071073488441449a5e66a922b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:13 +0000
Subject: [PATCH 037/104] fix: count downward edges in the winding number test

The branch for downward edges was nested under the one for upward edges,
so points inside clockwise polygons and inside some concave ones were
reported as outside.
---
 Utilities/Intersections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utilities/Intersections.py b/Utilities/Intersections.py
index 3b01b8c..399dd25 100644
--- a/Utilities/Intersections.py
+++ b/Utilities/Intersections.py
@@ -99,9 +99,9 @@ def _wnPnPoly(P, V):
             if V[i + 1].y > P.y:      # an upward crossing
                 if _isLeft(V[i], V[i + 1], P) > 0:  # P left of edge
                     wn += 1            # have a valid up intersect
-            elif V[i + 1].y <= P.y:     # a downward crossing
-                if _isLeft(V[i], V[i + 1], P) < 0:  # P right of edge
-                    wn -= 1            # have a valid down intersect
+        elif V[i + 1].y <= P.y:     # a downward crossing
+            if _isLeft(V[i], V[i + 1], P) < 0:  # P right of edge
+                wn -= 1            # have a valid down intersect
     return wn != 0
 
 
-- 
2.43.0


From 007411a7f58a2a033db195459013a6469a12139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:13 +0000
Subject: [PATCH 038/104] fix: only report polygon edges that are crossed

A line was reported as intersecting every polygon, and a circle was
tested against the edge before each vertex instead of the one after it.
---
 Utilities/Intersections.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Utilities/Intersections.py b/Utilities/Intersections.py
index 399dd25..e557250 100644
--- a/Utilities/Intersections.py
+++ b/Utilities/Intersections.py
@@ -232,7 +232,7 @@ class Crossings(object):
             for p in points:
                 for i in range(len(p) - 1):
                     a1 = p[i]
-                    a2 = p[i - 1]
+                    a2 = p[i + 1]
                     inter = self.CircleLine(c, r, a1, a2)
                     if inter.status == "Intersection":
                         result.points.append(inter.points)
@@ -320,13 +320,15 @@ class Crossings(object):
                     b1 = p[i]
                     b2 = p[i + 1]
                     inter = self.LineLine(a1, a2, b1, b2)
-                    result.points.append(inter.points)
+                    if inter.status == "Intersection":
+                        result.points.append(inter.points)
         else:
             for i in range(len(points) - 1):
                 b1 = points[i]
                 b2 = points[i + 1]
                 inter = self.LineLine(a1, a2, b1, b2)
-                result.points.append(inter.points)
+                if inter.status == "Intersection":
+                    result.points.append(inter.points)
 
         if len(result.points) > 0:
             result.status = "Intersection"
-- 
2.43.0


From 9a057a37ddcd37726d10fef1bedbcea073ac3cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:13 +0000
Subject: [PATCH 039/104] fix: relative humidity from wet bulb temperature

The vapour pressure was taken in hPa and divided by a saturation vapour
pressure in kPa, so nearly every result was clipped to 100 per cent.
---
 Utilities/metutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index 0226102..6a629d0 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -213,7 +213,7 @@ def wetBulbToRH(t_db, t_wb, elev):
     """
 
     # Calculate vapour pressure
-    vp = wetBulbToVapPr(t_db, t_wb, elev)
+    vp = wetBulbToVapPr(t_db, t_wb, elev, 'kPa')
     # Calculate the saturated vapour pressure at the dry bulb temperature
     sat_vp = satVapPr(t_db, 'kPa')
 
-- 
2.43.0


From 6e965d7d4831fe6ac00b28bb5b0ae93f89ae59cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:13 +0000
Subject: [PATCH 040/104] fix: leave the caller's array alone when converting
 units

Converting from Fahrenheit to Celsius subtracted 32 from the values that
were passed in.
---
 Utilities/metutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index 6a629d0..a988145 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -386,7 +386,7 @@ def convert(value, inunits, outunits):
 
     """
     startValue = value
-    value = ma.array(value, dtype=float)
+    value = ma.array(value, dtype=float, copy=True)
     if inunits == outunits:
         # Do nothing:
         return value
-- 
2.43.0


From e64a7de45d9ede7643a4a3e7f47303913d6b56da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:13 +0000
Subject: [PATCH 041/104] fix: convert between all pairs of supported units

Some pairs, such as Fahrenheit to Kelvin, miles to nautical miles or
anything to m/s and kmh, were missing and the value came back unchanged.
---
 Utilities/metutils.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index a988145..a272fd1 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -387,13 +387,13 @@ def convert(value, inunits, outunits):
     """
     startValue = value
     value = ma.array(value, dtype=float, copy=True)
+    # Alternative names for the same units:
+    aliases = {"kmh":"kph", "m/s":"mps"}
+    inunits = aliases.get(inunits, inunits)
+    outunits = aliases.get(outunits, outunits)
     if inunits == outunits:
         # Do nothing:
         return value
-    if inunits == 'kmh':
-        inunits = 'kph'
-    if inunits == "m/s":
-        inunits = "mps"
 
     # Speeds:
     mps = {"kph":3.6, "kts":1.944, "mph":2.2369}
@@ -403,8 +403,8 @@ def convert(value, inunits, outunits):
 
     # Temperatures:
     C = {"F":1.8, "K":1.}
-    F = {"C":0.5556}
-    K = {"C":1.}
+    F = {"C":0.5556, "K":0.5556}
+    K = {"C":1., "F":1.8}
 
     # Pressures:
     kPa = {"hPa":10., "Pa":1000., "inHg":0.295299831, "mmHg":7.500615613,
@@ -414,8 +414,9 @@ def convert(value, inunits, outunits):
     Pa = {"kPa":0.001, "hPa":0.01, "inHg":0.0002953, "mmHg":0.007500616,
           "Pascals":1.0}
     inHg = {"kPa":3.386388667, "hPa":33.863886667, "Pa":3386.388666667,
-            "mmHg":25.4}
-    mmHg = {"kPa":0.13332239, "hPa":1.3332239, "Pa":133.32239, "inHg":0.0394}
+            "mmHg":25.4, "Pascals":3386.388666667}
+    mmHg = {"kPa":0.13332239, "hPa":1.3332239, "Pa":133.32239, "inHg":0.0394,
+            "Pascals":133.32239}
     pascals = {"kPa":0.001, "hPa":0.01, "inHg":0.0002953, "mmHg":0.007500616,
           "Pa":1.0}
 
@@ -426,9 +427,12 @@ def convert(value, inunits, outunits):
            "rad":math.pi/180.}
     m = {"km":0.001, "mi":0.000621371, "deg":0.00000899886, "nm":0.000539957,
          "rad":0.0000001570783}
-    mi = {"km":1.60934, "m":1609.34, "deg":0.014482}
-    nm = {"km":1.852, "m":1852, "deg":0.01666, "rad":math.pi/10800.}
-    rad = {"nm":10800./math.pi, "km":6366.248653, "deg":180./math.pi}
+    mi = {"km":1.60934, "m":1609.34, "deg":0.014482, "nm":0.868976,
+          "rad":0.000252793}
+    nm = {"km":1.852, "m":1852, "deg":0.01666, "rad":math.pi/10800.,
+          "mi":1.150779}
+    rad = {"nm":10800./math.pi, "km":6366.248653, "deg":180./math.pi,
+           "m":6366248.653, "mi":3955.803}
 
     # Mixing ratio:
     gkg = {"kgkg":0.001}
@@ -457,10 +461,12 @@ def convert(value, inunits, outunits):
                "kgkg":kgkg}
 
     # Additions required before multiplication:
-    convert_pre = {"F":{"C":-32.}}
+    convert_pre = {"F":{"C":-32., "K":-32.},
+                   "K":{"F":-273.}}
     # Additions required after multiplication:
     convert_post = {"C":{"K":273., "F":32.},
-                    "K":{"C":-273.}}
+                    "F":{"K":273.},
+                    "K":{"C":-273., "F":32.}}
 
     if inunits in convert_pre:
         if outunits in convert_pre[inunits]:
-- 
2.43.0


From 03462a4f830df346c13128910506582026a39447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:29 +0000
Subject: [PATCH 042/104] fix: great circle distance between identical points

Rounding could take the cosine of the distance just above one, which
raised an error for coincident and antipodal points.
---
 Utilities/maputils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index dd7e68b..e24c39d 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -196,9 +196,12 @@ def distGC(lat, lon):
     lat = np.radians(lat)
     lon = np.radians(lon)
 
-    angular_distance = math.acos(math.sin(lat[0]) * math.sin(lat[1]) + \
-                       math.cos(lat[0]) * math.cos(lat[1]) * \
-                       math.cos(lon[0] - lon[1]))
+    cosdist = math.sin(lat[0]) * math.sin(lat[1]) + \
+              math.cos(lat[0]) * math.cos(lat[1]) * \
+              math.cos(lon[0] - lon[1])
+
+    # Rounding can take the cosine just out of range
+    angular_distance = math.acos(max(-1., min(1., cosdist)))
 
     return radius*angular_distance
 
-- 
2.43.0


From 4e054afb12834800aedd824c36a4c9a7c16bd892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:29 +0000
Subject: [PATCH 043/104] fix: distance from points to a great circle

The direction of the great circle was computed with latitude and
longitude swapped, in degrees, and subtracted together with a distance.
---
 Utilities/maputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index e24c39d..ae45161 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -667,7 +667,7 @@ def dist2GC(cLon1, cLat1, cLon2, cLat2, lonArray, latArray, units="km"):
     bear_ = gridLatLonBear(cLon1, cLat1, lonArray, latArray)
 
     #bearing of the cyclone:
-    cyc_bear_ = latLon2Azi([cLon1, cLon2], [cLat1, cLat2])
+    cyc_bear_ = gridLatLonBear(cLon1, cLat1, [cLon2], [cLat2])[0, 0]
 
     dist2GC_ = np.arcsin(np.sin(dist_) * np.sin(bear_ - cyc_bear_))
 
-- 
2.43.0


From aa9cee60410c893e89d2bd65a0f3cbc79c3cddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:29 +0000
Subject: [PATCH 044/104] fix: accept zero as a grid limit

A limit on the equator or the Greenwich meridian was treated as if it
had not been given.
---
 Utilities/maputils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index ae45161..7659175 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -499,19 +499,19 @@ def makeGrid(cLon, cLat, margin=2, resolution=0.01, minLon=None, maxLon=None,
 
     gridSize = int(resolution * 1000)
 
-    if minLon:
+    if minLon is not None:
         minLon_ = int(1000 * (minLon)) - int(1000 * margin)
     else:
         minLon_ = int(1000 * (cLon)) - int(1000 * margin)
-    if maxLon:
+    if maxLon is not None:
         maxLon_ = int(1000 * (maxLon)) + int(1000 * margin) + 1
     else:
         maxLon_ = int(1000 * (cLon)) + int(1000 * margin) + 1
-    if minLat:
+    if minLat is not None:
         minLat_ = int(1000 * (minLat)) - int(1000 * margin)
     else:
         minLat_ = int(1000 * (cLat)) - int(1000 * margin)
-    if maxLat:
+    if maxLat is not None:
         maxLat_ = int(1000 * (maxLat)) + int(1000 * margin) + 1
     else:
         maxLat_ = int(1000 * (cLat)) + int(1000 * margin) + 1
-- 
2.43.0


From 475c53ce3c71fa4e176ebfb7607d7debbedfacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:57 +0000
Subject: [PATCH 045/104] fix: destination points at the poles

Rounding could take the sine of the latitude just out of range, which
raised an error for destinations at a pole.
---
 Utilities/maputils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index 7659175..2084354 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -114,8 +114,10 @@ def bear2LatLon(bearing, distance, oLon, oLat):
     oLat = math.radians(oLat)
     bear = math.radians(bearing)
 
-    nLat = math.asin(np.sin(oLat) * np.cos(distance / radius) + \
-            np.cos(oLat) * np.sin(distance / radius) * np.cos(bear))
+    sinLat = np.sin(oLat) * np.cos(distance / radius) + \
+            np.cos(oLat) * np.sin(distance / radius) * np.cos(bear)
+    # Rounding can take the sine just out of range at the poles
+    nLat = math.asin(max(-1., min(1., sinLat)))
     aa = np.sin(bear) * np.sin(distance / radius) * np.cos(oLat)
     bb = np.cos(distance / radius) - np.sin(oLat) * np.sin(nLat)
 
-- 
2.43.0


From 4fd0ad251801c25dbd950982feda4fa563de18a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:17 +0000
Subject: [PATCH 046/104] fix: grid distance to antipodal points

Rounding could take the haversine just above one, which gave a distance
that is not a number.
---
 Utilities/maputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index 2084354..e18f8e0 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -317,7 +317,7 @@ def gridLatLonDist(cLon, cLat, lonArray, latArray, units=None):
 
     a = np.square(np.sin(dLat / 2.0)) + \
         np.cos(cLat) * np.cos(lat_) * np.square(np.sin(dLon / 2.0))
-    c = 2.0 * np.arctan2(np.sqrt(np.absolute(a)), np.sqrt(1 - a))
+    c = 2.0 * np.arctan2(np.sqrt(np.absolute(a)), np.sqrt(np.absolute(1 - a)))
     dist = radius * c
 
     dist = metutils.convert(dist, "km", units)
-- 
2.43.0


From 8a71843b40e0b15d2111e0b7c816096b1170cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:38 +0000
Subject: [PATCH 047/104] fix: default kernel is one of the supported names

The default kdeType was rejected when the distributions were set up; use
the name given in the documentation.
---
 Utilities/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/config.py b/Utilities/config.py
index 10a65ee..59f1440 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -164,7 +164,7 @@ InputFile=Allstorms.ibtracs_wmo.v03r10.csv
 Source=IBTRACS
 
 [StatInterface]
-kdeType=Gaussian
+kdeType=gau
 kde2DType=Gaussian
 kdeStep=0.2
 minSamplesCell=100
-- 
2.43.0


From a962a8d864055ebc59011df9d16d06f1942958a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:38 +0000
Subject: [PATCH 048/104] fix: parse time series and plot smoothing options

Option names are lower case once read, so the parsers registered with
mixed case were never applied and 'False' stayed a string.
---
 Utilities/config.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Utilities/config.py b/Utilities/config.py
index 59f1440..47ebd56 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -84,7 +84,7 @@ PARSERS = {
     'Hazard_samplesize': int,
     'Hazard_percentilerange': int,
     'Hazard_extremevaluedistribution': str,
-    'Hazard_SmoothPlots': parseBool,
+    'Hazard_smoothplots': parseBool,
     'Input_landmask': str,
     'Input_locationfile': str,
     'Input_mslpgrid': parseList,
@@ -117,10 +117,10 @@ PARSERS = {
     'TCRM_numberofheadinglines': int,
     'TCRM_pressureunits': str,
     'TCRM_speedunits': str,
-    'Timeseries_Extract': parseBool,
-    'Timeseries_LocationFile': str,
-    'Timeseries_StationID': str,
-    'Timeseries_Windfields': parseBool,
+    'Timeseries_extract': parseBool,
+    'Timeseries_locationfile': str,
+    'Timeseries_stationid': str,
+    'Timeseries_windfields': parseBool,
     'TrackGenerator_numsimulations': int,
     'TrackGenerator_seasonseed': int,
     'TrackGenerator_trackseed': int,
-- 
2.43.0


From 8f358b23bb3ca741955b95a61ec911d1c38f64fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:38 +0000
Subject: [PATCH 049/104] fix: return text options that look like Python names
 as text

A path such as 'input' came back as a built-in function and 'input.csv'
raised an error.
---
 Utilities/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Utilities/config.py b/Utilities/config.py
index 47ebd56..2152eb6 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -367,7 +367,10 @@ def cnfGetIniValue(configFile, section, option, default=None):
     if default is None:
         try:
             res = config.geteval(section, option)
-        except (NameError, SyntaxError):
+        except (NameError, SyntaxError, AttributeError, TypeError):
+            res = config.get(section, option)
+        if callable(res):
+            # A plain string that happens to be the name of a built-in
             res = config.get(section, option)
         return res
     if isinstance(default, str):
-- 
2.43.0


From 7b5c96ab74f20026cb941396ce5c91a0b057117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:44 +0000
Subject: [PATCH 050/104] fix: keep the list of processed files usable after an
 interrupted write

An entry that was cut short made the next run fail while reading the
list, and the next entry was appended to the incomplete line.
---
 Utilities/process.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/Utilities/process.py b/Utilities/process.py
index 02cc2ec..08f96db 100644
--- a/Utilities/process.py
+++ b/Utilities/process.py
@@ -98,12 +98,15 @@ def pGetProcessedFiles(datFileName=None):
             LOGGER.debug("Getting previously-processed files from %s",
                          datFileName)
             for line in fh:
-                line.rstrip('\n')
-                directory, filename, moddate, md5sum = line.split('|')
-                pSetProcessedEntry(directory, filename, 'moddate',
-                                   moddate.rstrip('\n'))
-                pSetProcessedEntry(directory, filename, 'md5sum',
-                                   md5sum.rstrip('\n'))
+                fields = line.rstrip('\n').split('|')
+                if len(fields) != 4:
+                    # Most likely an entry that was cut short
+                    LOGGER.warning("Ignoring incomplete entry in %s",
+                                   datFileName)
+                    continue
+                directory, filename, moddate, md5sum = fields
+                pSetProcessedEntry(directory, filename, 'moddate', moddate)
+                pSetProcessedEntry(directory, filename, 'md5sum', md5sum)
             rc = 1
             fh.close()
 
@@ -137,7 +140,14 @@ def pWriteProcessedFile(filename):
         else:
             pSetProcessedEntry(directory, fname, 'md5sum', md5sum)
             pSetProcessedEntry(directory, fname, 'moddate', moddate)
-            fh.write('|'.join([directory, fname, moddate, md5sum]) + '\n')
+            entry = '|'.join([directory, fname, moddate, md5sum]) + '\n'
+            if os.path.getsize(GLOBAL_DATFILE) > 0:
+                # Start on a new line if the last entry was cut short
+                with open(GLOBAL_DATFILE, 'rb') as dat:
+                    dat.seek(-1, os.SEEK_END)
+                    if dat.read() != b'\n':
+                        entry = '\n' + entry
+            fh.write(entry)
             fh.close()
             rc = 1
     else:
-- 
2.43.0


From 20359e2914e8b0c505697399b905552234376262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:44 +0000
Subject: [PATCH 051/104] fix: report whether the list of processed files was
 deleted

Deleting it was always reported as a failure, and a missing file raised
an error.
---
 Utilities/process.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Utilities/process.py b/Utilities/process.py
index 08f96db..2f34a81 100644
--- a/Utilities/process.py
+++ b/Utilities/process.py
@@ -168,10 +168,12 @@ def pDeleteDatFile():
     """
 
     rc = 0
-    if os.unlink(GLOBAL_DATFILE):
-        rc = 1
-    else:
+    try:
+        os.unlink(GLOBAL_DATFILE)
+    except OSError:
         LOGGER.warning("Cannot remove dat file %s", GLOBAL_DATFILE)
+    else:
+        rc = 1
     return rc
 
 def pAlreadyProcessed(directory, filename, attribute, value):
-- 
2.43.0


From 4afa6a1e98894598d2948e8f874e3fe6d69154a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:57 +0000
Subject: [PATCH 052/104] fix: set up parallel processing before building the
 location database

---
 database/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/database/__init__.py b/database/__init__.py
index c4eb941..10d2967 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -700,6 +700,10 @@ def run(configFile):
 
     log.info('Running database update')
 
+    global MPI, comm # pylint: disable=W0601
+    MPI = attemptParallel()
+    comm = MPI.COMM_WORLD
+
     config = ConfigParser()
     config.read(configFile)
     outputPath = config.get('Output', 'Path')
@@ -708,9 +712,6 @@ def run(configFile):
         location_file = config.get('Input', 'LocationFile')
         buildLocationDatabase(location_db, location_file)
 
-    global MPI, comm # pylint: disable=W0601
-    MPI = attemptParallel()
-    comm = MPI.COMM_WORLD
     db = HazardDatabase(configFile)
 
     db.createDatabase()
-- 
2.43.0


From 793ee0bdceca33ead104bfd8fac8a6f4f6275b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:08 +0000
Subject: [PATCH 053/104] fix: store track file and version of events as text

---
 database/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/database/__init__.py b/database/__init__.py
index 10d2967..2c17764 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -111,11 +111,9 @@ def windfieldAttributes(ncobj):
     trackfiledate = getattr(ncobj, 'track_file_date')
     trackfiledate = datetime.strptime(trackfiledate, '%Y-%m-%d %H:%M:%S')
     tcrm_vers = getattr(ncobj, 'tcrm_version')
-    trackfile = unicodedata.normalize("NFKD",
-                                      trackfile).encode('utf-8', 'ignore')
+    trackfile = unicodedata.normalize("NFKD", trackfile)
     trackfile = os.path.basename(trackfile)
-    tcrm_vers = unicodedata.normalize("NFKD",
-                                      tcrm_vers).encode('utf-8', 'ignore')
+    tcrm_vers = unicodedata.normalize("NFKD", tcrm_vers)
     slpobj = ncobj.variables['slp']
     minslp = getattr(slpobj, 'actual_range')[0]
 
-- 
2.43.0


From 857c12b7b82b1260e7f04aa45a5a6ef700395526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:43 +0000
Subject: [PATCH 054/104] fix: nearest index for values beyond the ends of a
 descending array

---
 Utilities/maputils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index e18f8e0..e8bbfc7 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -716,11 +716,11 @@ def find_index(array, value):
         raise ValueError("Value cannot be an array")
 
     if (value > array.max()):
-        # Value is above the largest value in the array - return the last index:
-        return len(array) - 1
+        # Value is above the largest value in the array - return its index:
+        return array.argmax()
     elif (value < array.min()):
-        # Value is below minimum value in the array - return the first index:
-        return 0
+        # Value is below minimum value in the array - return its index:
+        return array.argmin()
     else:
         # argmin gives us the index corresponding to the minimum value of the array.
         idx = (abs(array - value)).argmin()
-- 
2.43.0


From 73b9ef59515e2f242100941f6b04be851dc2cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:10 +0000
Subject: [PATCH 055/104] fix: return only the wind speeds at the location in
 passage queries

---
 database/queries.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/queries.py b/database/queries.py
index 6e93edb..21abdf8 100644
--- a/database/queries.py
+++ b/database/queries.py
@@ -122,7 +122,8 @@ def locationPassage(hazard_db, locId, distance=50):
              "w.wspd, e.eventFile FROM tblLocations l "
              "INNER JOIN tblTracks t "
              "ON l.locId = t.locId "
-             "JOIN tblWindSpeed w on w.eventId = t.eventId "
+             "JOIN tblWindSpeed w on w.locId = t.locId "
+             "AND w.eventId = t.eventId "
              "JOIN tblEvents e on e.eventId = t.eventId "
              "WHERE t.distClosest < ? and l.locId = ?")
     cur = hazard_db.execute(query, (distance, locId))
-- 
2.43.0


From 77e90a45ac34975b93a493545f31cdfea2b772ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:21 +0000
Subject: [PATCH 056/104] fix: interpolate tracks that have no wind speed data

---
 Evaluate/interpolateTracks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index afbae57..fc38d6d 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -99,7 +99,7 @@ def interpolate(track, delta, interpolation_type=None):
     newdates = num2date(_newtime) 
     newdates = np.array([n.replace(tzinfo=None) for n in newdates])
 
-    if not hasattr(track, 'Speed'):
+    if not track.has_key('WindSpeed'):
         idx = np.zeros(len(track.data))
         idx[0] = 1
         # TODO: Possibly could change `np.mean(dt)` to `dt`?
-- 
2.43.0


From e39f7b4ec0beef3690d710bf100077465e21b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:21 +0000
Subject: [PATCH 057/104] fix: ignore missing pressures when interpolating
 tracks

---
 Evaluate/interpolateTracks.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index fc38d6d..f62c34e 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -107,7 +107,8 @@ def interpolate(track, delta, interpolation_type=None):
                                        track.Latitude, track.CentralPressure,
                                        track.EnvPressure)
     # Find the indices of valid pressure observations:
-    validIdx = np.where(track.CentralPressure < sys.maxsize)[0]
+    validIdx = np.where((track.CentralPressure > 0) &
+                        (track.CentralPressure < sys.maxsize))[0]
 
     # FIXME: Need to address the issue when the time between obs is less
     # than delta (e.g. only two obs 5 hrs apart, but delta = 6 hrs).
@@ -118,12 +119,14 @@ def interpolate(track, delta, interpolation_type=None):
         nLat = interp1d(timestep, track.Latitude, kind='linear')(newtime)
 
         if len(validIdx) >= 2:
-            npCentre = interp1d(timestep,
-                                track.CentralPressure,
-                                kind='linear')(newtime)
-            nwSpd = interp1d(timestep,
-                             track.WindSpeed,
-                             kind='linear')(newtime)
+            npCentre = interp1d(timestep[validIdx],
+                                track.CentralPressure[validIdx],
+                                kind='linear', bounds_error=False,
+                                fill_value=0)(newtime)
+            nwSpd = interp1d(timestep[validIdx],
+                             track.WindSpeed[validIdx],
+                             kind='linear', bounds_error=False,
+                             fill_value=0)(newtime)
 
         elif len(validIdx) == 1:
             # If one valid observation, assume no change and
-- 
2.43.0


From c7b34c6dc384f1d3b007cd2e3698a4c1d110a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:21 +0000
Subject: [PATCH 058/104] fix: keep the last observed pressure of interpolated
 tracks

---
 Evaluate/interpolateTracks.py | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index f62c34e..fadd6eb 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -165,33 +165,16 @@ def interpolate(track, delta, interpolation_type=None):
             nLat = splev(newtime, splrep(timestep, track.Latitude, s=0), der=0)
 
         if len(validIdx) >= 2:
-            # No valid data at the final new time,
+            # No valid data outside the first and last valid observations,
             # would require extrapolation:
-            firsttime = np.where(newtime >= timestep[validIdx[0]])[0][0]
-            lasttime = np.where(newtime <= timestep[validIdx[-1]])[0][-1]
-
-            if firsttime == lasttime:
-                # only one valid observation:
-                npCentre = np.zeros(len(newtime))
-                nwSpd = np.zeros(len(newtime))
-                npCentre[firsttime] = track.CentralPressure[validIdx[0]]
-                nwSpd[firsttime] = track.WindSpeed[validIdx[0]]
-
-            else:
-                npCentre = np.zeros(len(newtime))
-                nwSpd = np.zeros(len(newtime))
-                _npCentre = interp1d(timestep[validIdx],
-                                     track.CentralPressure[validIdx],
-                                     kind='linear')(newtime[firsttime:lasttime])
-
-                _nwSpd = interp1d(timestep[validIdx],
-                                  track.WindSpeed[validIdx],
-                                  kind='linear')(newtime[firsttime:lasttime])
-
-                npCentre[firsttime:lasttime] = _npCentre
-                nwSpd[firsttime:lasttime] = _nwSpd
-                npCentre[lasttime] = _npCentre[-1]
-                nwSpd[lasttime] = _nwSpd[-1]
+            npCentre = interp1d(timestep[validIdx],
+                                track.CentralPressure[validIdx],
+                                kind='linear', bounds_error=False,
+                                fill_value=0)(newtime)
+            nwSpd = interp1d(timestep[validIdx],
+                             track.WindSpeed[validIdx],
+                             kind='linear', bounds_error=False,
+                             fill_value=0)(newtime)
 
         elif len(validIdx) == 1:
             npCentre = np.ones(len(newtime)) * track.CentralPressure[validIdx]
-- 
2.43.0


From 8dcaa2d8948b8c3d69567f16c1ee0025747a1ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:46 +0000
Subject: [PATCH 059/104] fix: avoid rounding errors at observation times when
 interpolating tracks

---
 Evaluate/interpolateTracks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index fadd6eb..eb4e5ef 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -95,6 +95,9 @@ def interpolate(track, delta, interpolation_type=None):
 
     newtime = np.arange(timestep[0], timestep[-1] + .01, delta)
     newtime[-1] = timestep[-1]
+    # Avoid rounding errors at the times of observations:
+    for obstime in timestep:
+        newtime[np.abs(newtime - obstime) < 1e-6] = obstime
     _newtime = (newtime / 24.) + time_[0] + date2num(np.datetime64('0000-12-31'))     #  Before Matplotlib 3.3, the epoch was 0000-12-31, later it changes to 1970-01-01 UTC 
     newdates = num2date(_newtime) 
     newdates = np.array([n.replace(tzinfo=None) for n in newdates])
-- 
2.43.0


From e9826a3c8b18a07ed715e7e3f7ce2fe42961ae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:46 +0000
Subject: [PATCH 060/104] fix: use the actual time step for the speed of
 interpolated tracks

---
 Evaluate/interpolateTracks.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index eb4e5ef..318beae 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -194,10 +194,9 @@ def interpolate(track, delta, interpolation_type=None):
         nthetaFm = np.zeros(newtime.size, dtype=float)
         nthetaFm[:-1] = bear_
         nthetaFm[-1] = bear_[-1]
-        dist = np.zeros(newtime.size, dtype=float)
-        dist[:-1] = dist_
-        dist[-1] = dist_[-1]
-        nvFm = dist / delta
+        nvFm = np.zeros(newtime.size, dtype=float)
+        nvFm[:-1] = dist_ / np.diff(newtime)
+        nvFm[-1] = nvFm[-2]
 
     else:
         nvFm = track.Speed[-1]
-- 
2.43.0


From fb25c987bfcad4ad4476d80da82a1fbde8433a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:46 +0000
Subject: [PATCH 061/104] fix: round the dates of interpolated tracks to the
 nearest second

---
 Evaluate/interpolateTracks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index 318beae..d093ac3 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -100,7 +100,9 @@ def interpolate(track, delta, interpolation_type=None):
         newtime[np.abs(newtime - obstime) < 1e-6] = obstime
     _newtime = (newtime / 24.) + time_[0] + date2num(np.datetime64('0000-12-31'))     #  Before Matplotlib 3.3, the epoch was 0000-12-31, later it changes to 1970-01-01 UTC 
     newdates = num2date(_newtime) 
-    newdates = np.array([n.replace(tzinfo=None) for n in newdates])
+    newdates = np.array([(n + timedelta(seconds=0.5)).replace(tzinfo=None,
+                                                              microsecond=0)
+                         for n in newdates])
 
     if not track.has_key('WindSpeed'):
         idx = np.zeros(len(track.data))
-- 
2.43.0


From cc51ed59cb247040e8e7e4aada5c2f369991f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:58 +0000
Subject: [PATCH 062/104] fix: do not estimate environmental pressure from
 missing central pressures

---
 Evaluate/interpolateTracks.py | 11 +++++++++--
 Utilities/loadData.py         |  3 ++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index d093ac3..43823ad 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -115,6 +115,13 @@ def interpolate(track, delta, interpolation_type=None):
     validIdx = np.where((track.CentralPressure > 0) &
                         (track.CentralPressure < sys.maxsize))[0]
 
+    # Find the indices of environmental pressures - these cannot be estimated
+    # where there is no valid central pressure:
+    envIdx = np.union1d(validIdx,
+                        np.where(~np.isnan(track.EnvPressure))[0])
+    if len(envIdx) == 0:
+        envIdx = np.arange(len(track.data))
+
     # FIXME: Need to address the issue when the time between obs is less
     # than delta (e.g. only two obs 5 hrs apart, but delta = 6 hrs).
 
@@ -143,7 +150,7 @@ def interpolate(track, delta, interpolation_type=None):
             npCentre = np.zeros(len(newtime))
             nwSpd = np.zeros(len(newtime))
 
-        npEnv = interp1d(timestep, track.EnvPressure, kind='linear')(newtime)
+        npEnv = np.interp(newtime, timestep[envIdx], track.EnvPressure[envIdx])
         nrMax = interp1d(timestep, track.rMax, kind='linear')(newtime)
 
     else:
@@ -188,7 +195,7 @@ def interpolate(track, delta, interpolation_type=None):
             npCentre = np.zeros(len(newtime))
             nwSpd = np.zeros(len(newtime))
 
-        npEnv = interp1d(timestep, track.EnvPressure, kind='linear')(newtime)
+        npEnv = np.interp(newtime, timestep[envIdx], track.EnvPressure[envIdx])
         nrMax = interp1d(timestep, track.rMax, kind='linear')(newtime)
 
     if len(nLat) >= 2:
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index b8a5e8e..8865428 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -936,7 +936,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
     else:
         LOG.debug("Determining poci")
         eps = np.random.normal(0, scale=2.5717)
-        poci = getPoci(penv, pressure, lat, jdays, eps)
+        poci = getPoci(penv, pressure, lat, jdays, eps,
+                       missingValue=missingValue)
 
 
     speed, bearing = getSpeedBearing(indicator, lon, lat, dt,
-- 
2.43.0


From 8821fadd7f1ad043cf4ac54981bbd91a2b4e46bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:36 +0000
Subject: [PATCH 063/104] fix: read station lists with names or a single
 station

---
 Utilities/timeseries.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utilities/timeseries.py b/Utilities/timeseries.py
index 087644d..d484913 100644
--- a/Utilities/timeseries.py
+++ b/Utilities/timeseries.py
@@ -17,7 +17,6 @@ from configparser import NoOptionError
 import numpy as np
 
 from Utilities.config import ConfigParser
-from Utilities.files import flLoadFile
 from Utilities.maputils import find_index
 from Utilities.dynarray import DynamicRecArray
 from .shptools import shpGetVertices
@@ -160,13 +159,14 @@ class Timeseries(object):
 
 
         else:
-            stndata = flLoadFile(stnFile, delimiter=',')
+            stndata = np.loadtxt(stnFile, dtype=str, comments='%',
+                                 delimiter=',', ndmin=2)
             # If there are more than 3 columns, save the additional
             # columns as 'metadata'
             if stndata.shape[1] > 3:
                 self.metadata = stndata[:, 3:]
                 self.meta = True
-            stnid = stndata[:, 0]
+            stnid = np.char.strip(stndata[:, 0])
             stnlon = stndata[:, 1].astype(float)
             stnlat = stndata[:, 2].astype(float)
             for sid, lon, lat in zip(stnid, stnlon, stnlat):
-- 
2.43.0


From f2c41a1f8f4b8c7dd7a64354b0f66a8d7fb10ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:57 +0000
Subject: [PATCH 064/104] fix: multiplier worker threads could wait forever for
 the last segment

---
 ProcessMultipliers/processMultipliers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index f45e1eb..7e1dd96 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -1059,8 +1059,12 @@ def processMultV2(wspd, uu, vv, lon, lat, working_dir, dirns,
 
 
 def call_process_multiplier_segment(segment_queue, source_dir_band, wind_prj, bear_prj, dst_band):
-    while not segment_queue.empty():
-        processMultiplierSegment(segment_queue.get(), source_dir_band, wind_prj, bear_prj, dst_band)
+    while True:
+        try:
+            segment = segment_queue.get_nowait()
+        except queue.Empty:
+            return
+        processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band)
 
 
 def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band):
-- 
2.43.0


From dfc426bc590e30b853c463727af9ecaaae9658e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:57 +0000
Subject: [PATCH 065/104] fix: apply the northerly multiplier to bearings
 rounded to 360 degrees

---
 ProcessMultipliers/processMultipliers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index 7e1dd96..00320b8 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -901,8 +901,10 @@ def processMult(wspd, uu, vv, lon, lat, working_dir, m4_max_file = 'm4_ne.tif',
             m4 = loadRasterFile(m4_file)
         else:
             m4 = loadRasterFile(combined_mulipliers_file, band_number=band_numbers_for_indices_in_geotiff[i])
+        # Bearings just below 360 can be rounded up to it in the raster
         idx = np.where((bear_data >= indices[i]['min']) &
-                       (bear_data < indices[i]['max']))
+                       ((bear_data < indices[i]['max']) |
+                        (bear_data == 360.) & (indices[i]['max'] == 360.)))
 
         local[idx] = wind_data[idx] * m4[idx]
     rows, cols = local.shape
@@ -1101,8 +1103,10 @@ def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_b
     local = np.zeros([height, width], dtype='float32')
     for i in list(indices.keys()):
         m4 = m4_all[band_numbers_for_indices_in_geotiff[i] - 1]
+        # Bearings just below 360 can be rounded up to it in the raster
         idx = np.where((bear_data >= indices[i]['min']) &
-                       (bear_data < indices[i]['max']))
+                       ((bear_data < indices[i]['max']) |
+                        (bear_data == 360.) & (indices[i]['max'] == 360.)))
         local[idx] = wind_data[idx] * m4[idx]
     with threadLock_out:
         dst_band.WriteArray(local, x_offset, y_offset)
-- 
2.43.0


From 7d0e9b5c2ce109f2ca90e51904a103fc4d1d63eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:57 +0000
Subject: [PATCH 066/104] fix: place local wind fields of events on the
 latitudes of the wind field

---
 wind/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 99c4036..aa9cedf 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -771,7 +771,9 @@ class WindfieldGenerator(object):
             lon = lon - delta / 2.
             lat = lat - delta / 2.
 
-            pM.processMult(gust, Vx, Vy, lon, lat, self.windfieldPath,
+            # Latitudes run from north to south, as in the gust files
+            pM.processMult(np.flipud(gust), np.flipud(Vx), np.flipud(Vy),
+                           lon, np.flipud(lat), self.windfieldPath,
                            self.multipliers)
 
 def inRegion(t, gridLimit, margin):
-- 
2.43.0


From 4590fb063c0bb0eb3348c7334360e34b5ff6a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:44 +0000
Subject: [PATCH 067/104] fix: distribute track files to workers when
 evaluating in parallel

---
 Evaluate/genesisDensity.py       | 27 ++++++++++++++++-----------
 Evaluate/landfallRates.py        | 29 +++++++++++++++++------------
 Evaluate/longitudeCrossing.py    | 27 ++++++++++++++++-----------
 Evaluate/pressureDistribution.py | 27 ++++++++++++++++-----------
 Evaluate/trackDensity.py         | 27 ++++++++++++++++-----------
 5 files changed, 81 insertions(+), 56 deletions(-)

diff --git a/Evaluate/genesisDensity.py b/Evaluate/genesisDensity.py
index 25ec56d..c63b6d3 100755
--- a/Evaluate/genesisDensity.py
+++ b/Evaluate/genesisDensity.py
@@ -265,41 +265,46 @@ class GenesisDensity(object):
         if (comm.rank == 0) and (comm.size > 1):
             w = 0
             n = 0
+            terminated = 0
+            status = MPI.Status()
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".\
-                          format(w, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".\
+                              format(w, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
             while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                             status=True)
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
                 self.synHist[n, :, :] = results
                 n += 1
 
                 d = status.source
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".\
                               format(w, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
                 log.debug("Processing {0}".format(trackfile))
                 tracks = loadTracks(trackfile)
                 results = self._calculate(tracks) #/ self.synNumYears
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             for n, trackfile in enumerate(trackfiles):
diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index 2d41ef9..c88ad1d 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -212,16 +212,21 @@ class LandfallRates(object):
 
             w = 0
             n = 0
+            terminated = 0
+            status = MPI.Status()
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                LOG.debug("Processing track file {0:d} of {1:d}".\
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    LOG.debug("Processing track file {0:d} of {1:d}".\
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
-            while terminated < comm.size() - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                             status=True)
+            while terminated < comm.size - 1:
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
 
                 self.processResults(results, n)
                 n += 1
@@ -229,26 +234,26 @@ class LandfallRates(object):
                 d = status.source
 
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     LOG.debug("Processing track file {0:d} of {1:d}".\
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateStats()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
                 LOG.debug("Processing %s", trackfile)
                 tracks = loadTracks(trackfile)
                 results = self.processTracks(tracks)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif comm.size == 1 and comm.rank == 0:
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index 6a60fde..f882d98 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -229,16 +229,21 @@ class LongitudeCrossing(object):
 
             w = 0
             n = 0
+            terminated = 0
+            status = MPI.Status()
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                LOG.debug("Processing track file {0:d} of {1:d}".\
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    LOG.debug("Processing track file {0:d} of {1:d}".\
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
             while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                               status=None)
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
 
                 lonCrossHist[n, :, :], lonCrossEW[n, :, :], \
                     lonCrossWE[n, :, :] = results
@@ -247,19 +252,19 @@ class LongitudeCrossing(object):
                 d = status.source
 
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     LOG.debug("Processing track file {0:d} of {1:d}".\
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calcStats(lonCrossHist, lonCrossEW, lonCrossWE)
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
@@ -267,7 +272,7 @@ class LongitudeCrossing(object):
                 tracks = loadTracks(trackfile)
                 lonCross, lonCrossEW, lonCrossWE = self.findCrossings(tracks)
                 results = (lonCross, lonCrossEW, lonCrossWE)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
diff --git a/Evaluate/pressureDistribution.py b/Evaluate/pressureDistribution.py
index 2687230..2f10697 100644
--- a/Evaluate/pressureDistribution.py
+++ b/Evaluate/pressureDistribution.py
@@ -259,16 +259,21 @@ class PressureDistribution(object):
 
             w = 0
             n = 0
+            terminated = 0
+            status = MPI.Status()
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
             while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                            status=None)
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
 
                 sMean, sMin, sMax, sMed, sMinCPDist, sMinCP = results
                 synMean[n, :, :] = sMean
@@ -282,19 +287,19 @@ class PressureDistribution(object):
                 d = status.source
 
                 if w < len(trackfiles):
-                    comn.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans(synMean, synMin, synMed, synMax, synMinCPDist)
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
@@ -303,7 +308,7 @@ class PressureDistribution(object):
                 sMean, sMin, sMax, sMed = self.calculate(tracks)
                 sMinCPDist, sMinCP = self.calcMinPressure(tracks)
                 results = (sMean, sMin, sMax, sMed, sMinCPDist, sMinCP)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif comm.size == 1 and comm.rank == 0:
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
diff --git a/Evaluate/trackDensity.py b/Evaluate/trackDensity.py
index e36163e..eacdc2f 100644
--- a/Evaluate/trackDensity.py
+++ b/Evaluate/trackDensity.py
@@ -169,41 +169,46 @@ class TrackDensity(object):
         if (comm.rank == 0) and (comm.size > 1):
             w = 0
             n = 0
+            terminated = 0
+            status = MPI.Status()
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".\
-                              format(w, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".\
+                                  format(w, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
             while (terminated < comm.size - 1):
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                            status=True)
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
                 self.synHist[n, :, :] = results
                 n += 1
 
                 d = status.source
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".\
                               format(w, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while(True):
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
                 log.debug("Processing %s" % (trackfile))
                 tracks = loadTracks(trackfile)
                 results = self.calculate(tracks) / self.synNumYears
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             for n, trackfile in enumerate(trackfiles):
-- 
2.43.0


From 15e28cc5af82d3ffda8df63a4d6d95e5a6b6eed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:44 +0000
Subject: [PATCH 068/104] fix: count longitude crossings at track points on the
 gate only once

---
 Evaluate/longitudeCrossing.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index f882d98..4c3c36e 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -127,15 +127,16 @@ class LongitudeCrossing(object):
                     end = Int.Point(t.Longitude[i + 1], t.Latitude[i + 1])
                     r = cross.LineLine(start, end, gStart, gEnd)
                     if r.status == "Intersection":
-                        lats.append(r.points[0].y)
+                        # A point on the gate belongs to its eastern side, so
+                        # it is counted for only one of its two segments
                         startSide = Int._isLeft(gStart, gEnd, start)
                         endSide = Int._isLeft(gStart, gEnd, end)
-                        if ((startSide < 0.) and (endSide >= 0.)) \
-                                or ((startSide <= 0.) and (endSide > 0.)):
+                        if (startSide < 0.) and (endSide >= 0.):
+                            lats.append(r.points[0].y)
                             welats.append(r.points[0].y)
 
-                        elif ((startSide > 0.) and (endSide <= 0.)) \
-                                or ((startSide >= 0.) and (endSide < 0.)):
+                        elif (startSide >= 0.) and (endSide < 0.):
+                            lats.append(r.points[0].y)
                             ewlats.append(r.points[0].y)
 
                     else:
-- 
2.43.0


From 7578a3eadb7502be763f40fe4ad9af65ee98e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:44 +0000
Subject: [PATCH 069/104] fix: count landfalls at the gate where they occur,
 including the last one

---
 Evaluate/landfallRates.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index c88ad1d..ea79225 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -107,22 +107,22 @@ class LandfallRates(object):
                 if not startOnshore and endOnshore:
                     # Landfall:
                     cross = Int.Crossings()
-                    for j in range(1, len(self.gates) - 1):
+                    for j in range(1, len(self.gates)):
                         r = cross.LineLine(start, end,
                                            self.gates[j-1],
                                            self.gates[j])
                         if r.status == "Intersection":
-                            landfall.append(j)
+                            landfall.append(j - 1)
 
                 elif startOnshore and not endOnshore:
                     # Moving offshore:
                     cross = Int.Crossings()
-                    for j in range(1, len(self.gates) - 1):
+                    for j in range(1, len(self.gates)):
                         r = cross.LineLine(start, end,
                                            self.gates[j - 1],
                                            self.gates[j])
                         if r.status == "Intersection":
-                            offshore.append(j)
+                            offshore.append(j - 1)
 
         # Generate the histograms to be returned:
         lh, n = np.histogram(landfall, np.arange(len(self.gates)), density=True)
-- 
2.43.0


From 7154b77ac8163c8c713bb4496e7cc815a5b28aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:44 +0000
Subject: [PATCH 070/104] fix: landfall rates of event sets without landfalls

---
 Evaluate/landfallRates.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index ea79225..56f7cdb 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -125,8 +125,14 @@ class LandfallRates(object):
                             offshore.append(j - 1)
 
         # Generate the histograms to be returned:
-        lh, n = np.histogram(landfall, np.arange(len(self.gates)), density=True)
-        oh, n = np.histogram(offshore, np.arange(len(self.gates)), density=True)
+        lh = np.zeros(len(self.gates) - 1)
+        oh = np.zeros(len(self.gates) - 1)
+        if len(landfall) > 0:
+            lh, n = np.histogram(landfall, np.arange(len(self.gates)),
+                                 density=True)
+        if len(offshore) > 0:
+            oh, n = np.histogram(offshore, np.arange(len(self.gates)),
+                                 density=True)
         return lh, oh
 
     def processResults(self, results, index):
-- 
2.43.0


From 7c0581897a76b91e35402dfc59fea297118f6b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:04 +0000
Subject: [PATCH 071/104] fix: longitude crossing evaluation hung when run in
 parallel

Interpolating the historical tracks waits for all processes, but only the
first process called it.
---
 Evaluate/longitudeCrossing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index 4c3c36e..588a754 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -174,9 +174,11 @@ class LongitudeCrossing(object):
 
 
 
-    @disableOnWorkers
     def historic(self):
-        """Calculate historical rates of longitude crossing"""
+        """
+        Calculate historical rates of longitude crossing. Executed on all
+        processes, since interpolating the tracks synchronises them.
+        """
 
         LOG.info("Processing historical tracks for longitude crossings")
         config = ConfigParser()
-- 
2.43.0


From dfe4e5061f83189ab306fe67af429ad0389a0d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:04 +0000
Subject: [PATCH 072/104] fix: save masked grid values as missing data

Grids with masked cells, such as pressure distributions, were written with
the values hidden under the mask.
---
 Utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/nctools.py b/Utilities/nctools.py
index 566b9fd..5c5589a 100644
--- a/Utilities/nctools.py
+++ b/Utilities/nctools.py
@@ -374,7 +374,7 @@ def ncSaveGrid(filename, dimensions, variables, nodata=-9999,
                                    fill_value=nodata)
 
         if (writedata and v['values'] is not None):
-            var[:] = np.array(v['values'], dtype=v['dtype'])
+            var[:] = np.ma.array(v['values'], dtype=v['dtype'])
 
         var.setncatts(v['atts'])
 
-- 
2.43.0


From 1f642a3e256eda89829e5437dca6bdc3266d273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:28 +0000
Subject: [PATCH 073/104] fix: wind fields over the full domain when it is not
 a multiple of the resolution

---
 wind/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wind/__init__.py b/wind/__init__.py
index aa9cedf..50fc815 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -292,6 +292,11 @@ class WindfieldAroundTrack(object):
             # Calculate the local wind speeds and pressure at time i
             Ux, Vy, P = self.localWindField(i)
 
+            # Across the full domain the field ends at the last grid point
+            # within the margin, the regional grid may extend one step further
+            if self.domain == 'full':
+                jmax, imax = Ux.shape
+
             # Calculate the local wind gust and bearing
             Ux *= self.gustFactor
             Vy *= self.gustFactor
-- 
2.43.0


From 564664cdeabe25c5876be3cd79c3cc8f1f7ca631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:05 +0000
Subject: [PATCH 074/104] fix: convert longitudes to and from UTM coordinates

---
 Utilities/lat_long_UTM_conversion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utilities/lat_long_UTM_conversion.py b/Utilities/lat_long_UTM_conversion.py
index 9261d4f..3b0f9ce 100644
--- a/Utilities/lat_long_UTM_conversion.py
+++ b/Utilities/lat_long_UTM_conversion.py
@@ -94,7 +94,7 @@ def LLtoUTM(lat, long, reference_ellipsoid=23, ZoneNumber=None):
     k0 = 0.9996
 
     # Make sure the longitude is between -180.00 .. 179.9
-    longTemp = (int+180)-int((int+180)/360)*360-180  # -180.00 .. 179.9
+    longTemp = (long+180)-int((long+180)/360)*360-180  # -180.00 .. 179.9
 
     latRad = lat*_deg2rad
     longRad = longTemp*_deg2rad
@@ -278,8 +278,8 @@ def UTMtoLL(northing, easting, zone, isSouthernHemisphere=True,
 
     long = (D-(1+2*T1+C1)*D*D*D/6+(5-2*C1+28*T1-3*C1*C1+8*eccPrimeSquared+24*T1*T1)
             *D*D*D*D*D/120)/cos(phi1Rad)
-    long = longOrigin + int * _rad2deg
-    return (lat, int)
+    long = longOrigin + long * _rad2deg
+    return (lat, long)
 
 if __name__ == '__main__':
     (z, e, n) = LLtoUTM(45.00, -75.00, 23)
-- 
2.43.0


From 1fdde1f633dd623ee61531b32c811f7b6ea69b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:05 +0000
Subject: [PATCH 075/104] fix: keep the last position before 0E in exported
 track lines

---
 Utilities/shptools.py   | 2 +-
 Utilities/tracks2shp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/shptools.py b/Utilities/shptools.py
index 81e4419..e30ac5c 100644
--- a/Utilities/shptools.py
+++ b/Utilities/shptools.py
@@ -449,7 +449,7 @@ def tracks2line(tracks, outputFile, dissolve=False):
                     # into multiple parts:
                     idx = np.argmin(dlon)
                     parts = []
-                    lines = zip(track.Longitude[:idx], track.Latitude[:idx])
+                    lines = zip(track.Longitude[:idx + 1], track.Latitude[:idx + 1])
 
                     parts.append(lines)
                     lines = zip(track.Longitude[idx + 1 :], track.Latitude[idx + 1 :])
diff --git a/Utilities/tracks2shp.py b/Utilities/tracks2shp.py
index 5770fa8..2172344 100644
--- a/Utilities/tracks2shp.py
+++ b/Utilities/tracks2shp.py
@@ -237,7 +237,7 @@ def tracks2line(tracks, outputFile, dissolve=False, netcdf_format=False):
                     # into multiple parts:
                     idx = np.argmin(dlon)
                     parts = []
-                    lines = zip(track.Longitude[:idx], track.Latitude[:idx])
+                    lines = zip(track.Longitude[:idx + 1], track.Latitude[:idx + 1])
 
                     parts.append(lines)
                     lines = zip(track.Longitude[idx + 1 :], track.Latitude[idx + 1 :])  # noqa
-- 
2.43.0


From 47be0b554a52b454fb8e4827619e6de787f3a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:53 +0000
Subject: [PATCH 076/104] fix: export tracks that carry dates, and points by
 default, from shptools

---
 Utilities/shptools.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Utilities/shptools.py b/Utilities/shptools.py
index e30ac5c..b741e57 100644
--- a/Utilities/shptools.py
+++ b/Utilities/shptools.py
@@ -15,6 +15,7 @@ import logging
 import shapefile
 import numpy as np
 
+from Utilities.tracks2shp import recdropfields
 
 log = logging.getLogger(__name__)
 log.addHandler(logging.NullHandler())
@@ -164,7 +165,7 @@ def shpCreateFile(outputFile, shapes, data, shpType):
     return
 
 
-def shpSaveTrackFile(outputFile, tracks, fmt="point"):
+def shpSaveTrackFile(outputFile, tracks, fmt="points"):
     """
     Save track data to shapefile. The fields are sorted using the same
     function as in shpCreateFile, so the fields should be in the correct
@@ -173,7 +174,7 @@ def shpSaveTrackFile(outputFile, tracks, fmt="point"):
     :param str outputFile: name for the output shapefile, excluding extension.
     :param tracks: collection of track features.
     :type tracks: :class:`Track` object
-    :param format: Type of features to save. "point" will save each record as a
+    :param format: Type of features to save. "points" will save each record as a
                    single point. "lines" will save each individual TC track as
                    a single (POLYLINE) feature. "segments" will save each
                    segment of a track to a line feature between consecutive
@@ -404,7 +405,8 @@ def tracks2point(tracks, outputFile):
     sf.fields = OBSFIELDS
 
     for track in tracks:
-        for x, y, rec in zip(track.Longitude, track.Latitude, track.data):
+        data = recdropfields(track.data, ["Datetime"])
+        for x, y, rec in zip(track.Longitude, track.Latitude, data):
             sf.point(x, y)
             sf.record(*rec)
 
@@ -441,6 +443,7 @@ def tracks2line(tracks, outputFile, dissolve=False):
         sf.fields = OBSFIELDS
 
     for track in tracks:
+        data = recdropfields(track.data, ["Datetime"])
         if dissolve:
             if len(track.data) > 1:
                 dlon = np.diff(track.Longitude)
@@ -495,7 +498,7 @@ def tracks2line(tracks, outputFile, dissolve=False):
                     ]
                 ]
                 sf.line(line)
-                sf.record(*track.data[0])
+                sf.record(*data[0])
             else:
                 for n in range(len(track.data) - 1):
                     dlon = track.Longitude[n + 1] - track.Longitude[n]
@@ -515,7 +518,7 @@ def tracks2line(tracks, outputFile, dissolve=False):
                             ]
                         ]
                     sf.line(segment)
-                    sf.record(*track.data[n])
+                    sf.record(*data[n])
 
                 # Last point in the track:
                 sf.line(
@@ -526,7 +529,7 @@ def tracks2line(tracks, outputFile, dissolve=False):
                         ]
                     ]
                 )
-                sf.record(*track.data[n + 1])
+                sf.record(*data[n + 1])
 
     try:
         sf.close()
-- 
2.43.0


From 2a381d97779005238ace11949528e0c642c88836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:14 +0000
Subject: [PATCH 077/104] fix: write polygons with the current shapefile
 library

---
 Utilities/shptools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utilities/shptools.py b/Utilities/shptools.py
index b741e57..dae0c01 100644
--- a/Utilities/shptools.py
+++ b/Utilities/shptools.py
@@ -152,9 +152,9 @@ def shpCreateFile(outputFile, shapes, data, shpType):
                 new_parts.append(list(s.points[start : p - 1]))
                 start = p
             new_parts.append(list(s.points[p:-1]))
-            w.poly(parts=new_parts)
+            w.poly(new_parts)
         else:
-            w.poly(parts=[s.points])
+            w.poly([s.points])
         w.record(*r)
 
     try:
@@ -234,9 +234,9 @@ def shpWriteShapeFile(outputFile, shpType, fields, shapes, records):
                 new_parts.append(list(shp.points[start : p - 1]))
                 start = p
             new_parts.append(list(shp.points[p:-1]))
-            w.poly(parts=new_parts)
+            w.poly(new_parts)
         else:
-            w.poly(parts=[shp.points])
+            w.poly([shp.points])
         w.record(*rec)
 
     try:
-- 
2.43.0


From 6f7cbf4a8f2523a8e120ba61870be6502b2599a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:38 +0000
Subject: [PATCH 078/104] fix: find wind fields below folders whose names
 contain brackets

---
 hazard/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 9f37456..49a198f 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -878,14 +878,14 @@ def aggregateWindFields(inputPath, numSimulations, tilelimits):
     :param int numSimulations: Number of simulated years of activity.
 
     """
-    from glob import glob
+    from glob import glob, escape
     log.info("Aggregating individual events to annual maxima")
     ysize = tilelimits[3] - tilelimits[2]
     xsize = tilelimits[1] - tilelimits[0]
     Vm = np.zeros((numSimulations, ysize, xsize), dtype='f')
 
     for year in range(numSimulations):
-        filespec = pjoin(inputPath, "gust.*-%05d.nc"%year)
+        filespec = pjoin(escape(inputPath), "gust.*-%05d.nc"%year)
         fileList = glob(filespec)
         if len(fileList) == 0:
             log.debug("No files for year: {0}".format(year))
-- 
2.43.0


From e774327bf000190286ec02e248dcb13070b5b7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:38 +0000
Subject: [PATCH 079/104] fix: calculate impact below folders whose names
 contain brackets

---
 impact/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impact/__init__.py b/impact/__init__.py
index 1165083..c991fea 100644
--- a/impact/__init__.py
+++ b/impact/__init__.py
@@ -46,7 +46,8 @@ def impact(gust, exposure, output='impact.csv'):
 def run(workDir, exposure):
     """Calculate impact for each available gust"""
 
-    inputpattern = os.path.join(workDir, 'windfield', 'gust.*.nc')
+    inputpattern = os.path.join(glob.escape(workDir), 'windfield',
+                                'gust.*.nc')
     logging.info('Preparing to calculate impact for {}'.format(inputpattern))
 
     # Confirm output location exists:
-- 
2.43.0


From 8056a1eb0a12bd901b723412627a1082fc4cc365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:01 +0000
Subject: [PATCH 080/104] fix: count landfalls in the category of their central
 pressure

---
 Evaluate/landfallIntensity.py         | 10 +++++-----
 Evaluate/locationLandfallIntensity.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/Evaluate/landfallIntensity.py b/Evaluate/landfallIntensity.py
index acbd597..4bda14f 100644
--- a/Evaluate/landfallIntensity.py
+++ b/Evaluate/landfallIntensity.py
@@ -164,11 +164,11 @@ def countCrossings(gates, tracks, sim):
             gates['meanlfintensity'].iloc[i] = l['CentralPressure'].mean()
             gates['minlfintensity'].iloc[i] = l['CentralPressure'].min()
             cathist, bins = np.histogram(l['category'].values, bins=[0,1,2,3,4,5, 6])
-            gates['cat1'].iloc[i] = cathist[0]
-            gates['cat2'].iloc[i] = cathist[1]
-            gates['cat3'].iloc[i] = cathist[2]
-            gates['cat4'].iloc[i] = cathist[3]
-            gates['cat5'].iloc[i] = cathist[4]
+            gates['cat1'].iloc[i] = cathist[1]
+            gates['cat2'].iloc[i] = cathist[2]
+            gates['cat3'].iloc[i] = cathist[3]
+            gates['cat4'].iloc[i] = cathist[4]
+            gates['cat5'].iloc[i] = cathist[5]
         else:
             gates['count'].iloc[i] = 0
             gates['meanlfintensity'].iloc[i] = np.nan
diff --git a/Evaluate/locationLandfallIntensity.py b/Evaluate/locationLandfallIntensity.py
index 04b1dd5..4533e9a 100644
--- a/Evaluate/locationLandfallIntensity.py
+++ b/Evaluate/locationLandfallIntensity.py
@@ -172,11 +172,11 @@ def countCrossings(gdf, tracks, sim):
             gdf['meanlfintensity'].iloc[i] = l['CentralPressure'].mean()
             gdf['minlfintensity'].iloc[i] = l['CentralPressure'].min()
             cathist, bins = np.histogram(l['category'].values, bins=[0,1,2,3,4,5, 6])
-            gdf['cat1'].iloc[i] = cathist[0]
-            gdf['cat2'].iloc[i] = cathist[1]
-            gdf['cat3'].iloc[i] = cathist[2]
-            gdf['cat4'].iloc[i] = cathist[3]
-            gdf['cat5'].iloc[i] = cathist[4]
+            gdf['cat1'].iloc[i] = cathist[1]
+            gdf['cat2'].iloc[i] = cathist[2]
+            gdf['cat3'].iloc[i] = cathist[3]
+            gdf['cat4'].iloc[i] = cathist[4]
+            gdf['cat5'].iloc[i] = cathist[5]
         else:
             gdf['count'].iloc[i] = 0
             gdf['meanlfintensity'].iloc[i] = np.nan
-- 
2.43.0


From 3d52a98a50e67d87b4a25789aa7d90dbc8785715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:01 +0000
Subject: [PATCH 081/104] fix: landfall statistics of areas

---
 Evaluate/locationLandfallIntensity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Evaluate/locationLandfallIntensity.py b/Evaluate/locationLandfallIntensity.py
index 4533e9a..929b23e 100644
--- a/Evaluate/locationLandfallIntensity.py
+++ b/Evaluate/locationLandfallIntensity.py
@@ -143,7 +143,7 @@ def isLandfall(feat, tracks):
     crossings = tracks.crosses(feat.geometry)
     landfall = []
     for t in tracks[crossings].itertuples():
-        if enters(feat.geometry, Point(t.geometry.coords[0])):
+        if enters(feat.geometry, t.geometry):
             landfall.append(True)
         else:
             landfall.append(False)
@@ -248,7 +248,7 @@ def loadLandfallRates(datapath, gdf):
     gs.columns = gs.columns.get_level_values(0)
 
 
-    gatedata = gates[['LGA_CODE19', 'LGA_NAME19', 'geometry']].join(gs, on='LGA_CODE19')
+    gatedata = gdf[['LGA_CODE19', 'LGA_NAME19', 'geometry']].join(gs, on='LGA_CODE19')
     
     gatedata.rename(columns={
         'count_sum':'sum',
-- 
2.43.0


From 9013b6b5ec926570c8ae3acad017865540dd7cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:45 +0000
Subject: [PATCH 082/104] fix: assign landfall statistics to gates by their
 number

---
 Evaluate/landfallIntensity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Evaluate/landfallIntensity.py b/Evaluate/landfallIntensity.py
index 4bda14f..12869f5 100644
--- a/Evaluate/landfallIntensity.py
+++ b/Evaluate/landfallIntensity.py
@@ -240,7 +240,7 @@ def loadLandfallRates(datapath, gates):
     gs.columns = gs.columns.get_level_values(0)
 
 
-    gatedata = gates[['gate', 'longitude', 'latitude', 'label', 'geometry']].join(gs)
+    gatedata = gates[['gate', 'longitude', 'latitude', 'label', 'geometry']].join(gs, on='gate')
 
     return gatedata
 
-- 
2.43.0


From 2c7430a0244e49c99d9e1a71f9da0a2a6208f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:08 +0000
Subject: [PATCH 083/104] fix: restore the line endings of the akima extension

---
 Utilities/akima.c | 1038 ++++++++++++++++++++++-----------------------
 1 file changed, 519 insertions(+), 519 deletions(-)

diff --git a/Utilities/akima.c b/Utilities/akima.c
index d2e442a..7c8c6df 100755
--- a/Utilities/akima.c
+++ b/Utilities/akima.c
@@ -1,519 +1,519 @@
-/* akima.c
-
-A Python/Numpy C extension module for data interpolation using Akima's method.
-
-Refer to the akima.py module for documentation and tests.
-
-Tested on Python 2.7 and 3.2, 32-bit and 64-bit.
-
-Authors:
-  Christoph Gohlke <http://www.lfd.uci.edu/~gohlke/>,
-  Laboratory for Fluorescence Dynamics. University of California, Irvine.
-
-Copyright (c) 2007-2011, The Regents of the University of California
-Produced by the Laboratory for Fluorescence Dynamics.
-All rights reserved.
-
-Redistribution and use in source and binary forms, with or without
-modification, are permitted provided that the following conditions are met:
-
-* Redistributions of source code must retain the above copyright
-  notice, this list of conditions and the following disclaimer.
-* Redistributions in binary form must reproduce the above copyright
-  notice, this list of conditions and the following disclaimer in the
-  documentation and/or other materials provided with the distribution.
-* Neither the name of the copyright holders nor the names of any
-  contributors may be used to endorse or promote products derived
-  from this software without specific prior written permission.
-
-THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS"
-AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
-IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE
-ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT OWNER OR CONTRIBUTORS BE
-LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR
-CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF
-SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS
-INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN
-CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE)
-ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
-POSSIBILITY OF SUCH DAMAGE.
-*/
-
-/*****************************************************************************/
-/* setup.py
-
-"""A Python script to build the _akima extension module.
-
-Usage:: ``python setup.py build_ext --inplace``
-
-"""
-
-from distutils.core import setup, Extension
-import numpy
-
-setup(name='_akima', ext_modules=[Extension('_akima', ['akima.c'],
-    include_dirs=[numpy.get_include()], extra_compile_args=[])],)
-
-******************************************************************************/
-
-#define _VERSION_ "2011.07.07"
-
-#define WIN32_LEAN_AND_MEAN
-
-#include "Python.h"
-#include "arrayobject.h"
-
-
-/*
-A new method of interpolation and smooth curve fitting based on local
-procedures. Hiroshi Akima, J. ACM, October 1970, 17(4), 589-602.
-*/
-
-int interpolate(
-    Py_ssize_t si,            /* size of input arrays */
-    char *xi, Py_ssize_t dxi, /* x coordinates and stride */
-    char *yi, Py_ssize_t dyi, /* y coordinates and stride */
-    Py_ssize_t so,            /* size of output arrays */
-    char *xo, Py_ssize_t dxo, /* x coordinates of output and stride */
-    char *yo, Py_ssize_t dyo, /* y output coordinates and stride */
-    double *p           /* buffer for polynomial coefficients of size 4*si+4 */
-    )
-{
-    Py_ssize_t i, s;
-    double x0, x1, x2, x3;       /* extrapolated x values */
-    double y0, y1, y2, y3;       /* extrapolated y values */
-    double t0, t1, t2, t3;       /* temporary values */
-    double d0, d1;
-    double g0, g1;               /* gradients at extrapolated values */
-    double *p0, *p1, *p2, *p3;   /* buffer pointers. p3 holds slopes */
-    char *pxi, *pyi, *pxo, *pyo; /* data pointers */
-
-    p0 = p;
-    p1 = p + si + 1;
-    p2 = p + si*2 + 2;
-    p3 = p + si*3 + 3;
-
-    /* slopes of input data */
-    pxi = xi;
-    pyi = yi;
-    t0 = *((double *)pxi);
-    t1 = *((double *)pyi);
-    i = si-1;
-    while (i--) {
-        pxi += dxi;
-        pyi += dyi;
-        t0 = *((double *)pxi) - t0;
-        if (t0 < 1e-12)
-            return -1;
-        *p3++ = (*((double *)pyi) - t1) / t0;
-        t0 = *((double *)pxi);
-        t1 = *((double *)pyi);
-    }
-    p3 = p + si*3 + 3;
-
-    /* extrapolate 2 points on left side */
-    t0 = *((double *)(xi));
-    t1 = *((double *)(xi + dxi));
-    t2 = *((double *)(yi));
-    t3 = *((double *)(yi + dyi));
-
-    x1 = t0 + t1 - *((double *)(xi+dxi+dxi));
-    x0 = x1 + t0 - t1;
-    y1 = (t0 - x1) * (p3[1] - 2.0*p3[0]) + t2;
-    g1 = (t2 - y1) / (t0 - x1);
-    y0 = (x1 - x0) * (p3[0] - 2.0*g1) + y1;
-    g0 = (y1 - y0) / (x1 - x0);
-
-    /* extrapolate 2 points on right side */
-    s = (Py_ssize_t)xi + dxi*(si-1);
-    t0 = *((double *)(s - dxi));
-    t1 = *((double *)(s));
-    x2 = t1 + t0 - *((double *)(s - dxi - dxi));
-    x3 = x2 + t1 - t0;
-
-    s = (Py_ssize_t)yi + dyi*(si-1);
-    t2 = *((double *)(s - dyi));
-    t3 = *((double *)(s));
-    y2 = (2.0*p3[si-2] - p3[si-3]) * (x2 - t1) + t3;
-    p3[si-1] = (y2 - t3) / (x2 - t1);
-    y3 = (2.0*p3[si-1] - p3[si-2]) * (x3 - x2) + y2;
-    p3[si] = (y3 - y2) / (x3 - x2);
-
-    /* slopes */
-    t1 = g0;
-    t2 = g1;
-    t3 = *p3;
-    i = si;
-    while (i--) {
-        t0 = t1;
-        t1 = t2;
-        t2 = t3;
-        t3 = *(p3 + 1);
-        d0 = t3 - t2;
-        if (d0 < 0.0)
-            d0 *= -1.0;
-        d1 = t1 - t0;
-        if (d1 < 0.0)
-            d1 *= -1.0;
-        if ((d0 + d1) < 1e-9) {
-            *p3++ = 0.5 * (t1 + t2);
-        } else {
-            *p3++ = (d0*t1 + d1*t2) / (d0 + d1);
-        }
-    }
-    /* polynomial coefficients */
-    pxi = xi;
-    pyi = yi;
-    t0 = *((double *)pxi);
-    t1 = *((double *)pyi);
-    p3 = p + si*3 + 3;
-    g1 = *p3++;
-    i = si-1;
-    while (i--) {
-        pxi += dxi;
-        pyi += dyi;
-        d0 = (*((double *)pxi) - t0);
-        d1 = (*((double *)pyi) - t1);
-        t2 = d1 / d0;
-        g0 = g1;
-        g1 = *p3++;
-        *p0++ = t1;
-        *p1++ = (3.0*t2 - 2.0*g0 - g1) / d0;
-        *p2++ = (g0 + g1 - 2.0*t2) / (d0*d0);
-        t0 = *((double *)pxi);
-        t1 = *((double *)pyi);
-    }
-    /* interpolate data */
-    p0 = p;
-    p1 = p + si + 1;
-    p2 = p + si*2 + 2;
-    p3 = p + si*3 + 3;
-    pxi = xi;
-    pyi = yi;
-    pxo = xo;
-    pyo = yo;
-    si -= 2;
-    i = -1;
-    s = so;
-    while (s--) {
-        t0 = *((double *)pxo);
-        while ((i > 0) && (t0 < *((double *)(pxi - dxi)))) {
-            pxi -= dxi;
-            i--;
-        }
-        while ((t0 > *((double *)pxi)) && (i < si)) {
-            pxi += dxi;
-            i++;
-        }
-        if (i < 0) {
-            i = 0;
-            pxi = xi + dxi;
-        }
-        t1 = t0 - *((double *)(pxi - dxi));
-        *((double *)pyo) = p0[i] + p3[i]*t1 + p1[i]*t1*t1 + p2[i]*t1*t1*t1;
-        pyo += dyo;
-        pxo += dxo;
-    }
-    return 0;
-}
-
-/*****************************************************************************/
-/* Python functions */
-
-/*
-Numpy array converters for use with PyArg_Parse functions.
-*/
-static int
-PyConverter_AnyDoubleArray(
-    PyObject *object,
-    PyObject **address)
-{
-    PyArrayObject *obj = (PyArrayObject *)object;
-    if (PyArray_Check(object) && obj->descr->type_num == PyArray_DOUBLE) {
-        *address = object;
-        Py_INCREF(object);
-        return NPY_SUCCEED;
-    } else {
-        *address = PyArray_FROM_OTF(object, NPY_DOUBLE, NPY_ALIGNED);
-        if (*address == NULL) {
-            PyErr_Format(PyExc_ValueError, "can not convert to array");
-            return NPY_FAIL;
-        }
-        return NPY_SUCCEED;
-    }
-}
-
-static int
-PyOutputConverter_AnyDoubleArrayOrNone(
-    PyObject *object,
-    PyArrayObject **address)
-{
-    PyArrayObject *obj = (PyArrayObject *)object;
-    if ((object == NULL) || (object == Py_None)) {
-        *address = NULL;
-        return NPY_SUCCEED;
-    }
-    if (PyArray_Check(object) && (obj->descr->type_num == PyArray_DOUBLE)) {
-        Py_INCREF(object);
-        *address = (PyArrayObject *)object;
-        return NPY_SUCCEED;
-    } else {
-        PyErr_Format(PyExc_TypeError, "output must be array of type double");
-        *address = NULL;
-        return NPY_FAIL;
-    }
-}
-
-/*
-Interpolate array along axis using Akima's method.
-*/
-char py_interpolate_doc[] =
-    "Return interpolated data along axis using Akima's method.";
-
-static PyObject *
-py_interpolate(
-    PyObject *obj,
-    PyObject *args,
-    PyObject *kwds)
-{
-    PyArrayObject *xdata = NULL;
-    PyArrayObject *data = NULL;
-    PyArrayObject *xout = NULL;
-    PyArrayObject *out = NULL;
-    PyArrayObject *oout = NULL;
-    PyArrayIterObject *dit = NULL;
-    PyArrayIterObject *oit = NULL;
-    npy_intp dstride, ostride, xdstride, xostride, size, outsize;
-    Py_ssize_t newshape[NPY_MAXDIMS];
-    int axis = NPY_MAXDIMS;
-    int i, ndim, error;
-    double *buffer = NULL;
-
-    static char *kwlist[] = {"x", "y", "x_new", "axis", "out", NULL};
-
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O&O&O&|O&O&", kwlist,
-        PyConverter_AnyDoubleArray, &xdata,
-        PyConverter_AnyDoubleArray, &data,
-        PyConverter_AnyDoubleArray, &xout,
-        PyArray_AxisConverter, &axis,
-        PyOutputConverter_AnyDoubleArrayOrNone, &oout))
-        goto _fail;
-
-    /* check axis */
-    ndim = PyArray_NDIM(data);
-    if ((axis == NPY_MAXDIMS) || (axis == -1)) {
-        axis = ndim - 1;
-    }
-    if ((axis < 0) || (axis >= ndim)) {
-        PyErr_Format(PyExc_ValueError, "invalid axis");
-        goto _fail;
-    }
-
-    if ((PyArray_NDIM(xdata) != 1) || (PyArray_NDIM(xout) != 1)) {
-        PyErr_Format(PyExc_ValueError,
-            "x-arrays must be one dimensional");
-        goto _fail;
-    }
-
-    size = PyArray_DIM(data, axis);
-    outsize = PyArray_DIM(xout, 0);
-
-    if (size < 3) {
-        PyErr_Format(PyExc_ValueError, "size along axis is too small");
-        goto _fail;
-    }
-
-    if (size != PyArray_DIM(xdata, 0)) {
-        PyErr_Format(PyExc_ValueError,
-            "size of x-array must match data shape at axis");
-        goto _fail;
-    }
-
-    for (i = 0; i < ndim; i++) {
-        newshape[i] = (i == axis) ? outsize : PyArray_DIM(data, i);
-    }
-
-    if (oout == NULL) {
-        /* create a new output array */
-        out = (PyArrayObject*)PyArray_SimpleNew(ndim, newshape, NPY_DOUBLE);
-        if (out == NULL) {
-            PyErr_Format(PyExc_ValueError, "failed to allocate output array");
-            goto _fail;
-        }
-    } else if (ndim != PyArray_NDIM(oout)) {
-        PyErr_Format(PyExc_ValueError,
-            "output and data array dimension mismatch");
-        goto _fail;
-    } else {
-        for (i = 0; i < ndim; i++) {
-            if (newshape[i] != PyArray_DIM(oout, i)) {
-                PyErr_Format(PyExc_ValueError, "wrong output shape");
-                goto _fail;
-            }
-        }
-        out = oout;
-    }
-
-    /* iterate over all but specified axis */
-    dit = (PyArrayIterObject *)PyArray_IterAllButAxis((PyObject *)data, &axis);
-    oit = (PyArrayIterObject *)PyArray_IterAllButAxis((PyObject *)out, &axis);
-    dstride = PyArray_STRIDE(data, axis);
-    ostride = PyArray_STRIDE(out, axis);
-    xdstride = PyArray_STRIDE(xdata, 0);
-    xostride = PyArray_STRIDE(xout, 0);
-
-    buffer = (double *)PyMem_Malloc((size * 4 + 4) * sizeof(double));
-    if (buffer == NULL) {
-        PyErr_Format(PyExc_ValueError, "failed to allocate output buffer");
-        goto _fail;
-    }
-
-    while (dit->index < dit->size) {
-        error = interpolate(
-            size,
-            PyArray_DATA(xdata), xdstride,
-            dit->dataptr, dstride,
-            outsize,
-            PyArray_DATA(xout), xostride,
-            oit->dataptr, ostride,
-            buffer);
-
-        if (error != 0) {
-            PyErr_Format(PyExc_ValueError, "interpolate() failed");
-            goto _fail;
-        }
-
-        PyArray_ITER_NEXT(oit);
-        PyArray_ITER_NEXT(dit);
-    }
-
-    PyMem_Free(buffer);
-    Py_DECREF(oit);
-    Py_DECREF(dit);
-    Py_DECREF(data);
-    Py_DECREF(xout);
-    Py_DECREF(xdata);
-
-    /* Return output vector if not provided as argument */
-    if (oout == NULL) {
-        return PyArray_Return(out);
-    } else {
-        Py_INCREF(Py_None);
-        return Py_None;
-    }
-
-  _fail:
-    Py_XDECREF(xdata);
-    Py_XDECREF(xout);
-    Py_XDECREF(data);
-    Py_XDECREF(oit);
-    Py_XDECREF(dit);
-    if (buffer != NULL)
-        PyMem_Free(buffer);
-    if (oout == NULL)
-        Py_XDECREF(out);
-    else
-        Py_XDECREF(oout);
-    return NULL;
-}
-
-
-/*****************************************************************************/
-/* Create Python module */
-
-char module_doc[] =
-    "Interpolation of data points in a plane based on Akima's method.\n\n"
-    "Refer to the akima.py module for documentation and tests.\n\n"
-    "Authors:\n  Christoph Gohlke <http://www.lfd.uci.edu/~gohlke/>\n"
-    "  Laboratory for Fluorescence Dynamics, University of California, Irvine."
-    "\n\nVersion: %s\n";
-
-static PyMethodDef module_methods[] = {
-    {"interpolate", (PyCFunction)py_interpolate, METH_VARARGS|METH_KEYWORDS,
-        py_interpolate_doc},
-    {NULL, NULL, 0, NULL} /* Sentinel */
-};
-
-
-#if PY_MAJOR_VERSION >= 3
-
-struct module_state {
-    PyObject *error;
-};
-
-#define GETSTATE(m) ((struct module_state*)PyModule_GetState(m))
-
-static int module_traverse(PyObject *m, visitproc visit, void *arg) {
-    Py_VISIT(GETSTATE(m)->error);
-    return 0;
-}
-
-static int module_clear(PyObject *m) {
-    Py_CLEAR(GETSTATE(m)->error);
-    return 0;
-}
-
-static struct PyModuleDef moduledef = {
-        PyModuleDef_HEAD_INIT,
-        "_akima",
-        NULL,
-        sizeof(struct module_state),
-        module_methods,
-        NULL,
-        module_traverse,
-        module_clear,
-        NULL
-};
-
-#define INITERROR return NULL
-
-PyMODINIT_FUNC
-PyInit__akima(void)
-
-#else
-
-#define INITERROR return
-
-PyMODINIT_FUNC
-init_akima(void)
-
-#endif
-{
-    PyObject *module;
-
-    char *doc = (char *)PyMem_Malloc(sizeof(module_doc) + sizeof(_VERSION_));
-    sprintf(doc, module_doc, _VERSION_);
-
-#if PY_MAJOR_VERSION >= 3
-    moduledef.m_doc = doc;
-    module = PyModule_Create(&moduledef);
-#else
-    module = Py_InitModule3("_akima", module_methods, doc);
-#endif
-
-    PyMem_Free(doc);
-
-    if (module == NULL)
-        INITERROR;
-
-    if (_import_array() < 0) {
-        Py_DECREF(module);
-        INITERROR;
-    }
-
-    {
-#if PY_MAJOR_VERSION < 3
-    PyObject *s = PyString_FromString(_VERSION_);
-#else
-    PyObject *s = PyUnicode_FromString(_VERSION_);
-#endif
-    PyObject *dict = PyModule_GetDict(module);
-    PyDict_SetItemString(dict, "__version__", s);
-    Py_DECREF(s);
-    }
-
-#if PY_MAJOR_VERSION >= 3
-    return module;
-#endif
-}
-
+/* akima.c
+
+A Python/Numpy C extension module for data interpolation using Akima's method.
+
+Refer to the akima.py module for documentation and tests.
+
+Tested on Python 2.7 and 3.2, 32-bit and 64-bit.
+
+Authors:
+  Christoph Gohlke <http://www.lfd.uci.edu/~gohlke/>,
+  Laboratory for Fluorescence Dynamics. University of California, Irvine.
+
+Copyright (c) 2007-2011, The Regents of the University of California
+Produced by the Laboratory for Fluorescence Dynamics.
+All rights reserved.
+
+Redistribution and use in source and binary forms, with or without
+modification, are permitted provided that the following conditions are met:
+
+* Redistributions of source code must retain the above copyright
+  notice, this list of conditions and the following disclaimer.
+* Redistributions in binary form must reproduce the above copyright
+  notice, this list of conditions and the following disclaimer in the
+  documentation and/or other materials provided with the distribution.
+* Neither the name of the copyright holders nor the names of any
+  contributors may be used to endorse or promote products derived
+  from this software without specific prior written permission.
+
+THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS"
+AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
+IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE
+ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT OWNER OR CONTRIBUTORS BE
+LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR
+CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF
+SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS
+INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN
+CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE)
+ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
+POSSIBILITY OF SUCH DAMAGE.
+*/
+
+/*****************************************************************************/
+/* setup.py
+
+"""A Python script to build the _akima extension module.
+
+Usage:: ``python setup.py build_ext --inplace``
+
+"""
+
+from distutils.core import setup, Extension
+import numpy
+
+setup(name='_akima', ext_modules=[Extension('_akima', ['akima.c'],
+    include_dirs=[numpy.get_include()], extra_compile_args=[])],)
+
+******************************************************************************/
+
+#define _VERSION_ "2011.07.07"
+
+#define WIN32_LEAN_AND_MEAN
+
+#include "Python.h"
+#include "arrayobject.h"
+
+
+/*
+A new method of interpolation and smooth curve fitting based on local
+procedures. Hiroshi Akima, J. ACM, October 1970, 17(4), 589-602.
+*/
+
+int interpolate(
+    Py_ssize_t si,            /* size of input arrays */
+    char *xi, Py_ssize_t dxi, /* x coordinates and stride */
+    char *yi, Py_ssize_t dyi, /* y coordinates and stride */
+    Py_ssize_t so,            /* size of output arrays */
+    char *xo, Py_ssize_t dxo, /* x coordinates of output and stride */
+    char *yo, Py_ssize_t dyo, /* y output coordinates and stride */
+    double *p           /* buffer for polynomial coefficients of size 4*si+4 */
+    )
+{
+    Py_ssize_t i, s;
+    double x0, x1, x2, x3;       /* extrapolated x values */
+    double y0, y1, y2, y3;       /* extrapolated y values */
+    double t0, t1, t2, t3;       /* temporary values */
+    double d0, d1;
+    double g0, g1;               /* gradients at extrapolated values */
+    double *p0, *p1, *p2, *p3;   /* buffer pointers. p3 holds slopes */
+    char *pxi, *pyi, *pxo, *pyo; /* data pointers */
+
+    p0 = p;
+    p1 = p + si + 1;
+    p2 = p + si*2 + 2;
+    p3 = p + si*3 + 3;
+
+    /* slopes of input data */
+    pxi = xi;
+    pyi = yi;
+    t0 = *((double *)pxi);
+    t1 = *((double *)pyi);
+    i = si-1;
+    while (i--) {
+        pxi += dxi;
+        pyi += dyi;
+        t0 = *((double *)pxi) - t0;
+        if (t0 < 1e-12)
+            return -1;
+        *p3++ = (*((double *)pyi) - t1) / t0;
+        t0 = *((double *)pxi);
+        t1 = *((double *)pyi);
+    }
+    p3 = p + si*3 + 3;
+
+    /* extrapolate 2 points on left side */
+    t0 = *((double *)(xi));
+    t1 = *((double *)(xi + dxi));
+    t2 = *((double *)(yi));
+    t3 = *((double *)(yi + dyi));
+
+    x1 = t0 + t1 - *((double *)(xi+dxi+dxi));
+    x0 = x1 + t0 - t1;
+    y1 = (t0 - x1) * (p3[1] - 2.0*p3[0]) + t2;
+    g1 = (t2 - y1) / (t0 - x1);
+    y0 = (x1 - x0) * (p3[0] - 2.0*g1) + y1;
+    g0 = (y1 - y0) / (x1 - x0);
+
+    /* extrapolate 2 points on right side */
+    s = (Py_ssize_t)xi + dxi*(si-1);
+    t0 = *((double *)(s - dxi));
+    t1 = *((double *)(s));
+    x2 = t1 + t0 - *((double *)(s - dxi - dxi));
+    x3 = x2 + t1 - t0;
+
+    s = (Py_ssize_t)yi + dyi*(si-1);
+    t2 = *((double *)(s - dyi));
+    t3 = *((double *)(s));
+    y2 = (2.0*p3[si-2] - p3[si-3]) * (x2 - t1) + t3;
+    p3[si-1] = (y2 - t3) / (x2 - t1);
+    y3 = (2.0*p3[si-1] - p3[si-2]) * (x3 - x2) + y2;
+    p3[si] = (y3 - y2) / (x3 - x2);
+
+    /* slopes */
+    t1 = g0;
+    t2 = g1;
+    t3 = *p3;
+    i = si;
+    while (i--) {
+        t0 = t1;
+        t1 = t2;
+        t2 = t3;
+        t3 = *(p3 + 1);
+        d0 = t3 - t2;
+        if (d0 < 0.0)
+            d0 *= -1.0;
+        d1 = t1 - t0;
+        if (d1 < 0.0)
+            d1 *= -1.0;
+        if ((d0 + d1) < 1e-9) {
+            *p3++ = 0.5 * (t1 + t2);
+        } else {
+            *p3++ = (d0*t1 + d1*t2) / (d0 + d1);
+        }
+    }
+    /* polynomial coefficients */
+    pxi = xi;
+    pyi = yi;
+    t0 = *((double *)pxi);
+    t1 = *((double *)pyi);
+    p3 = p + si*3 + 3;
+    g1 = *p3++;
+    i = si-1;
+    while (i--) {
+        pxi += dxi;
+        pyi += dyi;
+        d0 = (*((double *)pxi) - t0);
+        d1 = (*((double *)pyi) - t1);
+        t2 = d1 / d0;
+        g0 = g1;
+        g1 = *p3++;
+        *p0++ = t1;
+        *p1++ = (3.0*t2 - 2.0*g0 - g1) / d0;
+        *p2++ = (g0 + g1 - 2.0*t2) / (d0*d0);
+        t0 = *((double *)pxi);
+        t1 = *((double *)pyi);
+    }
+    /* interpolate data */
+    p0 = p;
+    p1 = p + si + 1;
+    p2 = p + si*2 + 2;
+    p3 = p + si*3 + 3;
+    pxi = xi;
+    pyi = yi;
+    pxo = xo;
+    pyo = yo;
+    si -= 2;
+    i = -1;
+    s = so;
+    while (s--) {
+        t0 = *((double *)pxo);
+        while ((i > 0) && (t0 < *((double *)(pxi - dxi)))) {
+            pxi -= dxi;
+            i--;
+        }
+        while ((t0 > *((double *)pxi)) && (i < si)) {
+            pxi += dxi;
+            i++;
+        }
+        if (i < 0) {
+            i = 0;
+            pxi = xi + dxi;
+        }
+        t1 = t0 - *((double *)(pxi - dxi));
+        *((double *)pyo) = p0[i] + p3[i]*t1 + p1[i]*t1*t1 + p2[i]*t1*t1*t1;
+        pyo += dyo;
+        pxo += dxo;
+    }
+    return 0;
+}
+
+/*****************************************************************************/
+/* Python functions */
+
+/*
+Numpy array converters for use with PyArg_Parse functions.
+*/
+static int
+PyConverter_AnyDoubleArray(
+    PyObject *object,
+    PyObject **address)
+{
+    PyArrayObject *obj = (PyArrayObject *)object;
+    if (PyArray_Check(object) && obj->descr->type_num == PyArray_DOUBLE) {
+        *address = object;
+        Py_INCREF(object);
+        return NPY_SUCCEED;
+    } else {
+        *address = PyArray_FROM_OTF(object, NPY_DOUBLE, NPY_ALIGNED);
+        if (*address == NULL) {
+            PyErr_Format(PyExc_ValueError, "can not convert to array");
+            return NPY_FAIL;
+        }
+        return NPY_SUCCEED;
+    }
+}
+
+static int
+PyOutputConverter_AnyDoubleArrayOrNone(
+    PyObject *object,
+    PyArrayObject **address)
+{
+    PyArrayObject *obj = (PyArrayObject *)object;
+    if ((object == NULL) || (object == Py_None)) {
+        *address = NULL;
+        return NPY_SUCCEED;
+    }
+    if (PyArray_Check(object) && (obj->descr->type_num == PyArray_DOUBLE)) {
+        Py_INCREF(object);
+        *address = (PyArrayObject *)object;
+        return NPY_SUCCEED;
+    } else {
+        PyErr_Format(PyExc_TypeError, "output must be array of type double");
+        *address = NULL;
+        return NPY_FAIL;
+    }
+}
+
+/*
+Interpolate array along axis using Akima's method.
+*/
+char py_interpolate_doc[] =
+    "Return interpolated data along axis using Akima's method.";
+
+static PyObject *
+py_interpolate(
+    PyObject *obj,
+    PyObject *args,
+    PyObject *kwds)
+{
+    PyArrayObject *xdata = NULL;
+    PyArrayObject *data = NULL;
+    PyArrayObject *xout = NULL;
+    PyArrayObject *out = NULL;
+    PyArrayObject *oout = NULL;
+    PyArrayIterObject *dit = NULL;
+    PyArrayIterObject *oit = NULL;
+    npy_intp dstride, ostride, xdstride, xostride, size, outsize;
+    Py_ssize_t newshape[NPY_MAXDIMS];
+    int axis = NPY_MAXDIMS;
+    int i, ndim, error;
+    double *buffer = NULL;
+
+    static char *kwlist[] = {"x", "y", "x_new", "axis", "out", NULL};
+
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O&O&O&|O&O&", kwlist,
+        PyConverter_AnyDoubleArray, &xdata,
+        PyConverter_AnyDoubleArray, &data,
+        PyConverter_AnyDoubleArray, &xout,
+        PyArray_AxisConverter, &axis,
+        PyOutputConverter_AnyDoubleArrayOrNone, &oout))
+        goto _fail;
+
+    /* check axis */
+    ndim = PyArray_NDIM(data);
+    if ((axis == NPY_MAXDIMS) || (axis == -1)) {
+        axis = ndim - 1;
+    }
+    if ((axis < 0) || (axis >= ndim)) {
+        PyErr_Format(PyExc_ValueError, "invalid axis");
+        goto _fail;
+    }
+
+    if ((PyArray_NDIM(xdata) != 1) || (PyArray_NDIM(xout) != 1)) {
+        PyErr_Format(PyExc_ValueError,
+            "x-arrays must be one dimensional");
+        goto _fail;
+    }
+
+    size = PyArray_DIM(data, axis);
+    outsize = PyArray_DIM(xout, 0);
+
+    if (size < 3) {
+        PyErr_Format(PyExc_ValueError, "size along axis is too small");
+        goto _fail;
+    }
+
+    if (size != PyArray_DIM(xdata, 0)) {
+        PyErr_Format(PyExc_ValueError,
+            "size of x-array must match data shape at axis");
+        goto _fail;
+    }
+
+    for (i = 0; i < ndim; i++) {
+        newshape[i] = (i == axis) ? outsize : PyArray_DIM(data, i);
+    }
+
+    if (oout == NULL) {
+        /* create a new output array */
+        out = (PyArrayObject*)PyArray_SimpleNew(ndim, newshape, NPY_DOUBLE);
+        if (out == NULL) {
+            PyErr_Format(PyExc_ValueError, "failed to allocate output array");
+            goto _fail;
+        }
+    } else if (ndim != PyArray_NDIM(oout)) {
+        PyErr_Format(PyExc_ValueError,
+            "output and data array dimension mismatch");
+        goto _fail;
+    } else {
+        for (i = 0; i < ndim; i++) {
+            if (newshape[i] != PyArray_DIM(oout, i)) {
+                PyErr_Format(PyExc_ValueError, "wrong output shape");
+                goto _fail;
+            }
+        }
+        out = oout;
+    }
+
+    /* iterate over all but specified axis */
+    dit = (PyArrayIterObject *)PyArray_IterAllButAxis((PyObject *)data, &axis);
+    oit = (PyArrayIterObject *)PyArray_IterAllButAxis((PyObject *)out, &axis);
+    dstride = PyArray_STRIDE(data, axis);
+    ostride = PyArray_STRIDE(out, axis);
+    xdstride = PyArray_STRIDE(xdata, 0);
+    xostride = PyArray_STRIDE(xout, 0);
+
+    buffer = (double *)PyMem_Malloc((size * 4 + 4) * sizeof(double));
+    if (buffer == NULL) {
+        PyErr_Format(PyExc_ValueError, "failed to allocate output buffer");
+        goto _fail;
+    }
+
+    while (dit->index < dit->size) {
+        error = interpolate(
+            size,
+            PyArray_DATA(xdata), xdstride,
+            dit->dataptr, dstride,
+            outsize,
+            PyArray_DATA(xout), xostride,
+            oit->dataptr, ostride,
+            buffer);
+
+        if (error != 0) {
+            PyErr_Format(PyExc_ValueError, "interpolate() failed");
+            goto _fail;
+        }
+
+        PyArray_ITER_NEXT(oit);
+        PyArray_ITER_NEXT(dit);
+    }
+
+    PyMem_Free(buffer);
+    Py_DECREF(oit);
+    Py_DECREF(dit);
+    Py_DECREF(data);
+    Py_DECREF(xout);
+    Py_DECREF(xdata);
+
+    /* Return output vector if not provided as argument */
+    if (oout == NULL) {
+        return PyArray_Return(out);
+    } else {
+        Py_INCREF(Py_None);
+        return Py_None;
+    }
+
+  _fail:
+    Py_XDECREF(xdata);
+    Py_XDECREF(xout);
+    Py_XDECREF(data);
+    Py_XDECREF(oit);
+    Py_XDECREF(dit);
+    if (buffer != NULL)
+        PyMem_Free(buffer);
+    if (oout == NULL)
+        Py_XDECREF(out);
+    else
+        Py_XDECREF(oout);
+    return NULL;
+}
+
+
+/*****************************************************************************/
+/* Create Python module */
+
+char module_doc[] =
+    "Interpolation of data points in a plane based on Akima's method.\n\n"
+    "Refer to the akima.py module for documentation and tests.\n\n"
+    "Authors:\n  Christoph Gohlke <http://www.lfd.uci.edu/~gohlke/>\n"
+    "  Laboratory for Fluorescence Dynamics, University of California, Irvine."
+    "\n\nVersion: %s\n";
+
+static PyMethodDef module_methods[] = {
+    {"interpolate", (PyCFunction)py_interpolate, METH_VARARGS|METH_KEYWORDS,
+        py_interpolate_doc},
+    {NULL, NULL, 0, NULL} /* Sentinel */
+};
+
+
+#if PY_MAJOR_VERSION >= 3
+
+struct module_state {
+    PyObject *error;
+};
+
+#define GETSTATE(m) ((struct module_state*)PyModule_GetState(m))
+
+static int module_traverse(PyObject *m, visitproc visit, void *arg) {
+    Py_VISIT(GETSTATE(m)->error);
+    return 0;
+}
+
+static int module_clear(PyObject *m) {
+    Py_CLEAR(GETSTATE(m)->error);
+    return 0;
+}
+
+static struct PyModuleDef moduledef = {
+        PyModuleDef_HEAD_INIT,
+        "_akima",
+        NULL,
+        sizeof(struct module_state),
+        module_methods,
+        NULL,
+        module_traverse,
+        module_clear,
+        NULL
+};
+
+#define INITERROR return NULL
+
+PyMODINIT_FUNC
+PyInit__akima(void)
+
+#else
+
+#define INITERROR return
+
+PyMODINIT_FUNC
+init_akima(void)
+
+#endif
+{
+    PyObject *module;
+
+    char *doc = (char *)PyMem_Malloc(sizeof(module_doc) + sizeof(_VERSION_));
+    sprintf(doc, module_doc, _VERSION_);
+
+#if PY_MAJOR_VERSION >= 3
+    moduledef.m_doc = doc;
+    module = PyModule_Create(&moduledef);
+#else
+    module = Py_InitModule3("_akima", module_methods, doc);
+#endif
+
+    PyMem_Free(doc);
+
+    if (module == NULL)
+        INITERROR;
+
+    if (_import_array() < 0) {
+        Py_DECREF(module);
+        INITERROR;
+    }
+
+    {
+#if PY_MAJOR_VERSION < 3
+    PyObject *s = PyString_FromString(_VERSION_);
+#else
+    PyObject *s = PyUnicode_FromString(_VERSION_);
+#endif
+    PyObject *dict = PyModule_GetDict(module);
+    PyDict_SetItemString(dict, "__version__", s);
+    Py_DECREF(s);
+    }
+
+#if PY_MAJOR_VERSION >= 3
+    return module;
+#endif
+}
+
-- 
2.43.0


From 855e86b29864281beca9c6cea3a67544b28f4c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:44 +0000
Subject: [PATCH 084/104] fix: unpack zip archives of downloaded data sets

Reading an archive needs the name of the member to read, so every zip
download ended in an exception.
---
 Utilities/datasets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/datasets.py b/Utilities/datasets.py
index ccb9904..d772819 100644
--- a/Utilities/datasets.py
+++ b/Utilities/datasets.py
@@ -78,7 +78,8 @@ class DataSet(object):
 
             if self.compression == 'zip':
                 from zipfile import ZipFile
-                data = ZipFile(data)
+                archive = ZipFile(data)
+                data = archive.open(archive.namelist()[0])
 
             with open(pjoin(self.path, self.filename), 'wb') as outfile:
                 outfile.write(data.read())
-- 
2.43.0


From 3983a7cf6d90f9555469064f5b9c4bfa8a05ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:44 +0000
Subject: [PATCH 085/104] fix: report a download that ends early

A connection closed before all of the data arrived was saved as if it
were the complete data set, and never fetched again.
---
 Utilities/datasets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Utilities/datasets.py b/Utilities/datasets.py
index d772819..eedcded 100644
--- a/Utilities/datasets.py
+++ b/Utilities/datasets.py
@@ -70,6 +70,10 @@ class DataSet(object):
                 if callback is not None:
                     callback(self.filename, done, size)
 
+            if done != size:
+                raise IOError('Incomplete download: %d of %d bytes' %
+                              (done, size))
+
             data.seek(0)
 
             if self.compression == 'gz':
-- 
2.43.0


From 2c6281092f16f9ea8456d25877b45880cb0825a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:44 +0000
Subject: [PATCH 086/104] fix: give a downloaded file its name only once it is
 complete

The file was created before the data were unpacked and written, so a
damaged archive or an interrupted run left an empty or partial file that
later runs took for the data set.
---
 Utilities/datasets.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Utilities/datasets.py b/Utilities/datasets.py
index eedcded..ea435e9 100644
--- a/Utilities/datasets.py
+++ b/Utilities/datasets.py
@@ -6,6 +6,7 @@
 from urllib.request import urlopen
 from urllib.error import URLError
 from io import BytesIO
+import os
 from Utilities.config import ConfigParser
 from os.path import isfile, splitext, join as pjoin
 
@@ -85,8 +86,13 @@ class DataSet(object):
                 archive = ZipFile(data)
                 data = archive.open(archive.namelist()[0])
 
-            with open(pjoin(self.path, self.filename), 'wb') as outfile:
-                outfile.write(data.read())
+            # Only a complete file is given its final name, so that a failed
+            # or interrupted download is attempted again
+            content = data.read()
+            filename = pjoin(self.path, self.filename)
+            with open(filename + '.part', 'wb') as outfile:
+                outfile.write(content)
+            os.replace(filename + '.part', filename)
 
         except URLError:
             raise IOError('Cannot download file')
-- 
2.43.0


From 26ed1942eedfd345dab357b96c89beb4ead399cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:12 +0000
Subject: [PATCH 087/104] fix: report an empty archive

An empty response in place of a gzip archive was unpacked to an empty file
and never fetched again.
---
 Utilities/datasets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Utilities/datasets.py b/Utilities/datasets.py
index ea435e9..b86c5d5 100644
--- a/Utilities/datasets.py
+++ b/Utilities/datasets.py
@@ -75,6 +75,9 @@ class DataSet(object):
                 raise IOError('Incomplete download: %d of %d bytes' %
                               (done, size))
 
+            if self.compression and done == 0:
+                raise IOError('Downloaded archive is empty')
+
             data.seek(0)
 
             if self.compression == 'gz':
-- 
2.43.0


From f25dca8f210ae97d30346808634c45190f02baef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:05 +0000
Subject: [PATCH 088/104] fix: keep the whole station identifier in time series
 figures

rstrip and lstrip remove any of the given characters, so identifiers
beginning or ending in some letters were shortened and their figures
could overwrite each other.
---
 PlotInterface/plotTimeseries.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PlotInterface/plotTimeseries.py b/PlotInterface/plotTimeseries.py
index 49afc71..4dcc722 100644
--- a/PlotInterface/plotTimeseries.py
+++ b/PlotInterface/plotTimeseries.py
@@ -96,8 +96,9 @@ def plotTimeseries(inputPath, outputPath, locID=None):
         inputFileList = [f for f in files if f.startswith('ts.')]
         for f in inputFileList:
             # Here we assume the timeseries files are named ts.<location ID>.dat
-            locID = f.rstrip('.csv').lstrip('ts.')
-            outputFile = pjoin(outputPath, '%s.png' % f.rstrip('.csv'))
+            basename = os.path.splitext(f)[0]
+            locID = basename[len('ts.'):]
+            outputFile = pjoin(outputPath, '%s.png' % basename)
             inputData = loadTimeseriesData(pjoin(inputPath, f))
 
 
-- 
2.43.0


From d4bd0446016bd672b9caef6d5d83d7587d24cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:05 +0000
Subject: [PATCH 089/104] fix: plot time series that hold a single record

---
 PlotInterface/plotTimeseries.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PlotInterface/plotTimeseries.py b/PlotInterface/plotTimeseries.py
index 4dcc722..bf21c49 100644
--- a/PlotInterface/plotTimeseries.py
+++ b/PlotInterface/plotTimeseries.py
@@ -45,9 +45,10 @@ INPUT_CNVT = {
 def loadTimeseriesData(datafile):
     logging.debug("Loading timeseries data from {0}".format(datafile))
     try:
-        return np.genfromtxt(datafile, dtype=INPUT_FMTS, names=INPUT_COLS,
+        data = np.genfromtxt(datafile, dtype=INPUT_FMTS, names=INPUT_COLS,
                              comments='#', delimiter=',', skip_header=1,
                              converters=INPUT_CNVT)
+        return np.atleast_1d(data)
     except ValueError:
         logging.warning("Timeseries data file is empty - returning empty array")
         return np.empty(0, dtype={
-- 
2.43.0


From c6f86b609efd70d695fd9bb192e5d605a9e59c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:05 +0000
Subject: [PATCH 090/104] fix: plot recorded events in the units of the hazard
 curve

---
 PlotInterface/AutoPlotHazard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PlotInterface/AutoPlotHazard.py b/PlotInterface/AutoPlotHazard.py
index a4225f8..9dabb8e 100644
--- a/PlotInterface/AutoPlotHazard.py
+++ b/PlotInterface/AutoPlotHazard.py
@@ -229,7 +229,8 @@ class AutoPlotHazard(object):
             recs = database.queries.locationRecords(self.db, pID)
             data = np.zeros(int(self.numsimulations * 365.25))
             if len(recs) > 0:
-                data[-len(recs):] = recs['wspd']
+                data[-len(recs):] = metutils.convert(recs['wspd'], 'mps',
+                                                     self.plotUnits.units)
 
             allevents = np.sort(data)
             log.debug("allevents length = {0}".format(len(allevents)))
-- 
2.43.0


From 2d2eb7626a8268c6d7e5d0ccf587c5a082d54c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:05 +0000
Subject: [PATCH 091/104] fix: leave missing values out of smoothed hazard maps

The missing value itself was smoothed into the points around it, and the
points without a value were drawn.
---
 Utilities/smooth.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Utilities/smooth.py b/Utilities/smooth.py
index 430576b..f7de09e 100644
--- a/Utilities/smooth.py
+++ b/Utilities/smooth.py
@@ -37,9 +37,17 @@ def smooth(im, n=15):
     :type  im: :class:`numpy.ndarray`
     :param int n: Number of points to include in the smoothing.
 
-    :returns: smoothed array (same dimensions as the input array)
+    :returns: smoothed array (same dimensions as the input array). Masked
+              values are ignored and remain masked.
 
     """
     g = gaussKern(n)
-    improc = signal.convolve2d(im, g, mode='same', boundary='symm')
-    return improc
+    mask = numpy.ma.getmaskarray(im)
+    if not mask.any():
+        return signal.convolve2d(im, g, mode='same', boundary='symm')
+
+    # Missing values do not contribute to the values around them
+    total = signal.convolve2d(numpy.ma.filled(im, 0.), g,
+                              mode='same', boundary='symm')
+    weight = signal.convolve2d(~mask, g, mode='same', boundary='symm')
+    return numpy.ma.array(total, mask=mask) / weight
-- 
2.43.0


From f400819cdec285d4dfe54ac996154c1dc1287fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:05 +0000
Subject: [PATCH 092/104] fix: draw smoothed hazard maps of grids coarser than
 one degree

A smoothing length of zero points turned every value into NaN.
---
 PlotInterface/AutoPlotHazard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PlotInterface/AutoPlotHazard.py b/PlotInterface/AutoPlotHazard.py
index 9dabb8e..24ff861 100644
--- a/PlotInterface/AutoPlotHazard.py
+++ b/PlotInterface/AutoPlotHazard.py
@@ -122,7 +122,7 @@ class AutoPlotHazard(object):
             levels = self.plotUnits.levels
             if self.smooth:
                 dx = np.mean(np.diff(xgrid))
-                data = smooth(inputData[i, :, :], int(1/dx))
+                data = smooth(inputData[i, :, :], max(int(1/dx), 1))
             else:
                 data = inputData[i, :, :]
 
-- 
2.43.0


From 3aa49a3d2a59034ced73f5728bac0f3c709b7f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:03:52 +0000
Subject: [PATCH 093/104] fix: show wind fields east of 180 degrees on the
 scenario map

The map shows longitudes up to 180 degrees, so a field stored with larger
longitudes was drawn outside of it. Hazard maps already allow for this.
---
 tcevent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tcevent.py b/tcevent.py
index f48962d..8a0a999 100755
--- a/tcevent.py
+++ b/tcevent.py
@@ -157,6 +157,8 @@ def doWindfieldPlotting(configFile):
         vdata = vdata[jg, ig]
     else:
         [xgrid, ygrid] = np.meshgrid(xdata, ydata)
+    if xgrid.min() > 180.:
+        xgrid = xgrid - 360.
     map_kwargs = dict(llcrnrlon=xgrid.min(),
                       llcrnrlat=ygrid.min(),
                       urcrnrlon=xgrid.max(),
-- 
2.43.0


From 76657a5a376a0c9fe5c86ae1c6d704abfe4841ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:46 +0000
Subject: [PATCH 094/104] fix: mark combined multipliers missing where a
 component is missing

The values under the mask of the product are those of the first
component, so cells without a topographic or shielding multiplier were
given the terrain multiplier alone.
---
 ProcessMultipliers/processMultipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index 00320b8..270529d 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -311,7 +311,7 @@ class getMultipliers():
             CopyDatasetInfo(ds1, dsOut)
             bandOut = dsOut.GetRasterBand(1)
             bandOut.SetNoDataValue(-9999)
-            BandWriteArray(bandOut, dataOut.data)
+            BandWriteArray(bandOut, dataOut.filled(-9999))
 
     @timer
     def build_combined_multipliers_for_all_directions(self, output_path):
-- 
2.43.0


From 91fc1ea0905eacabd597637a299be2265a5b3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:18 +0000
Subject: [PATCH 095/104] fix: low-resolution multipliers: check the output
 folder with os.path.isdir

The folder test used os.path.path, which does not exist, so the program
stopped before writing anything.
---
 ProcessMultipliers/lowResProcessMultipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ProcessMultipliers/lowResProcessMultipliers.py b/ProcessMultipliers/lowResProcessMultipliers.py
index de253b9..086028b 100644
--- a/ProcessMultipliers/lowResProcessMultipliers.py
+++ b/ProcessMultipliers/lowResProcessMultipliers.py
@@ -29,7 +29,7 @@ def downscale_multipliers(src_file, match_file, dst_file, epsg=4326):
     if not os.path.isfile(match_file):
         raise FileNotFoundError(f"match_file: file {match_file} not found.")
     
-    if not os.path.path.isdir(os.path.split(dst_file)[0]):
+    if not os.path.isdir(os.path.split(dst_file)[0]):
         raise FileNotFoundError(f"dst_file: directory {os.path.split(dst_file)[0]} not found.")
 
     src = gdal.Open(src_file, gdal.GA_ReadOnly)
-- 
2.43.0


From 2779cda8e15a2ddda4a0616fdedc294d4698c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:16:17 +0000
Subject: [PATCH 096/104] fix: low-resolution multipliers: place the grid by
 its outer corner

Gust files hold their rows from north to south. The grid was moved half a
cell to the south instead of the north, so every multiplier came from one
cell further south.
---
 ProcessMultipliers/lowResProcessMultipliers.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ProcessMultipliers/lowResProcessMultipliers.py b/ProcessMultipliers/lowResProcessMultipliers.py
index 086028b..10a203d 100644
--- a/ProcessMultipliers/lowResProcessMultipliers.py
+++ b/ProcessMultipliers/lowResProcessMultipliers.py
@@ -38,13 +38,11 @@ def downscale_multipliers(src_file, match_file, dst_file, epsg=4326):
     ncobj = Dataset(match_file, 'r')
     lat = ncobj.variables['lat'][:]
     lon = ncobj.variables['lon'][:]
-    delta = lon[1] - lon[0]
-    lon = lon - delta / 2.
-    lat = lat - delta / 2.
-
     dx = lon[1] - lon[0]
     dy = lat[1] - lat[0]
-    originX, originY = lon[0], lat[0]
+    # The file holds cell centres: the origin is the outer corner of the
+    # first cell, whichever way the rows run
+    originX, originY = lon[0] - dx / 2., lat[0] - dy / 2.
 
     wide = len(lon)
     high = len(lat)
-- 
2.43.0


From 2902f82d5b9f1b485f1e3a86bfc2e660f581943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:16:17 +0000
Subject: [PATCH 097/104] fix: low-resolution multipliers: rename only the
 file, not its folder

A folder whose name holds "gust" made the program write to a folder that
does not exist.
---
 ProcessMultipliers/lowResProcessMultipliers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ProcessMultipliers/lowResProcessMultipliers.py b/ProcessMultipliers/lowResProcessMultipliers.py
index 10a203d..227ee14 100644
--- a/ProcessMultipliers/lowResProcessMultipliers.py
+++ b/ProcessMultipliers/lowResProcessMultipliers.py
@@ -173,7 +173,8 @@ class run():
 
             outds = xr.Dataset()
             outds["vmax"] = local
-            outds.to_netcdf(gust_file.replace("gust", "wm_gust"))
+            gust_dir, gust_name = os.path.split(gust_file)
+            outds.to_netcdf(os.path.join(gust_dir, gust_name.replace("gust", "wm_gust")))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 7354662ff593e503ac7327a90a92dc55778c8a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:18:38 +0000
Subject: [PATCH 098/104] fix: nc2txt: write the northern row first whichever
 way the file runs

The rows were always turned over, so files that start in the north, as the
wind fields do, came out upside down.
---
 Utilities/nc2txt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Utilities/nc2txt.py b/Utilities/nc2txt.py
index c2362c3..8bd4f76 100755
--- a/Utilities/nc2txt.py
+++ b/Utilities/nc2txt.py
@@ -29,7 +29,6 @@ import sys
 import logging
 import getopt
 
-import numpy as np
 import Utilities.grid as grid
 import Utilities.nctools as nctools
 __version__ = "%Id$"
@@ -90,17 +89,22 @@ def process(argv):
 
     data = nctools.ncGetData(ncobj, variable)
     ncobj.close()
+
+    # The text format has the northernmost row first
+    if lat[-1] > lat[0]:
+        data = data[..., ::-1, :]
+
     if recdim:
         for i, v in enumerate(recval):
             outputfile = "%s.%s.%s"%(os.path.splitext(filename)[0],
                                      repr(recval[i]), 'txt')
             print("Saving data to %s"%outputfile)
-            grid.grdSave(outputfile, np.flipud(data[i]), lon, lat,
+            grid.grdSave(outputfile, data[i], lon, lat,
                          delta, delimiter=' ', nodata=mv, fmt='%6.2f')
     else:
         outputfile = "%s.%s"%(os.path.splitext(filename)[0], 'txt')
         print("Saving data to %s"%outputfile)
-        grid.grdSave(outputfile, np.flipud(data), lon, lat,
+        grid.grdSave(outputfile, data, lon, lat,
                      delta, delimiter=' ', nodata=mv, fmt='%6.2f')
 
 if __name__ == '__main__':
-- 
2.43.0


From 7cc04cf44b9f6487e76b5ce140a397a2c2001272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:22:31 +0000
Subject: [PATCH 099/104] fix: get_multipliers: mark combined multipliers
 missing where a component is missing

The values under the mask of the product are those of the first
component, so cells without a topographic or shielding multiplier were
given the terrain multiplier alone.
---
 Utilities/get_multipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/get_multipliers.py b/Utilities/get_multipliers.py
index 7589dec..910025f 100644
--- a/Utilities/get_multipliers.py
+++ b/Utilities/get_multipliers.py
@@ -213,7 +213,7 @@ def combineDirections(dirns, output_path):
         CopyDatasetInfo(ds1,dsOut)
         bandOut=dsOut.GetRasterBand(1)
         bandOut.SetNoDataValue(-9999)
-        BandWriteArray(bandOut, dataOut.data)
+        BandWriteArray(bandOut, dataOut.filled(-9999))
 
 def main(configFile):
     """
-- 
2.43.0


From 8e2e2d8531aa6130fb5e2ee2c7a643979b2a89b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:30 +0000
Subject: [PATCH 100/104] fix: plot the cosine of bearings in degrees

The bearings are stored in degrees but were used as radians.
---
 PlotInterface/plotStats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PlotInterface/plotStats.py b/PlotInterface/plotStats.py
index 42027f2..3132bac 100644
--- a/PlotInterface/plotStats.py
+++ b/PlotInterface/plotStats.py
@@ -303,7 +303,7 @@ class PlotBearing(PlotData):
     def plotBearing(self, data):
         labels = [r'$\theta(t)$', r'$\theta(t-1)$']
         def transform(x):
-            return np.cos(x/2.)
+            return np.cos(np.radians(x)/2.)
 
         self.scatterHistogram(data[1:], data[:-1], labels, 'bearing',
                               transform=transform, xlim=(-1, 1),
-- 
2.43.0


From b4ba63f1ddfc3a7a8aa236ba019370a4d6ae94fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:30 +0000
Subject: [PATCH 101/104] fix: include the last observation in the minimum
 pressure figure

The last cyclone lost its minimum when it was its last observation.
---
 PlotInterface/plotStats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PlotInterface/plotStats.py b/PlotInterface/plotStats.py
index 3132bac..4a431fb 100644
--- a/PlotInterface/plotStats.py
+++ b/PlotInterface/plotStats.py
@@ -173,7 +173,7 @@ class PlotData(object):
         plt.clf()
         pcarray = []
         index = index.astype(int)
-        for i in range(len(index) - 1):
+        for i in range(len(index)):
             if index[i] == 1:
                 pcarray.append(pAllData[i])
             else:
@@ -274,7 +274,7 @@ class PlotPressure(PlotData):
         """
         pcarray = []
         index = index.astype(int)
-        for i in range(len(index) - 1):
+        for i in range(len(index)):
             if index[i] == 1:
                 pcarray.append(pAllData[i])
             else:
-- 
2.43.0


From d0943bfa6a14a8aa485ea764351053fd70ba444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:30 +0000
Subject: [PATCH 102/104] fix: plot westward steps across longitude zero as
 small steps

Only eastward steps were corrected. A step from 0.5 to 359.5 degrees was
shown as a change of 359 degrees.
---
 PlotInterface/plotStats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PlotInterface/plotStats.py b/PlotInterface/plotStats.py
index 4a431fb..e9f70da 100644
--- a/PlotInterface/plotStats.py
+++ b/PlotInterface/plotStats.py
@@ -390,6 +390,8 @@ class PlotLonLat(PlotData):
         dlat = dlat[j]
         k = np.where(dlon < -180.)
         dlon[k] += 360.
+        k = np.where(dlon > 180.)
+        dlon[k] -= 360.
         labels = [r"$\Delta \phi (t-1)$", r"$\Delta \phi (t)$"]
         self.scatterHistogram(dlon[1:], dlon[:-1], labels, 'delta_lon')
 
-- 
2.43.0


From dffafae4f92f34ddb024475dc8b2717b46f820da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:42 +0000
Subject: [PATCH 103/104] fix: hazard reads only the gust files of the wind
 field folder

---
 hazard/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 49a198f..58ba890 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -52,7 +52,7 @@ def setDomain(inputPath):
 
     """
 
-    fileList = os.listdir(inputPath)
+    fileList = [f for f in os.listdir(inputPath) if f.startswith('gust.')]
     inputFile = pjoin(inputPath, fileList[0])
     ncobj = nctools.ncLoadFile(inputFile)
     wf_lon = nctools.ncGetDims(ncobj, 'lon')
@@ -912,7 +912,7 @@ def loadFilesFromPath(inputPath, tilelimits):
 
     """
 
-    fileList = os.listdir(inputPath)
+    fileList = [f for f in os.listdir(inputPath) if f.startswith('gust.')]
     files = [pjoin(inputPath, f) for f in fileList]
     files = [f for f in files if os.path.isfile(f)]
     log.debug("Loading data from %d files" % (len(files)))
-- 
2.43.0


From 4d93640e180034a7416dd9dac69806352071c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:42 +0000
Subject: [PATCH 104/104] fix: event database reads only the gust files of the
 wind field folder

---
 database/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/__init__.py b/database/__init__.py
index 2c17764..4eac1a8 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -272,7 +272,7 @@ class _HazardDatabase(sqlite3.Connection):
         log.info("Inserting records into tblEvents")
 
         fileList = os.listdir(self.windfieldPath)
-        fileList = [f for f in fileList if
+        fileList = [f for f in fileList if f.startswith('gust.') and
                     os.path.isfile(pjoin(self.windfieldPath, f))]
 
         pattern = re.compile(r'\d+')
@@ -359,7 +359,7 @@ class _HazardDatabase(sqlite3.Connection):
         """
         status = MPI.Status()
         fileList = os.listdir(self.windfieldPath)
-        fileList = [f for f in fileList if
+        fileList = [f for f in fileList if f.startswith('gust.') and
                     os.path.isfile(pjoin(self.windfieldPath, f))]
 
         work_tag = 0
-- 
2.43.0

