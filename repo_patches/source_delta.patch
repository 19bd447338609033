From 165de0070cec263a544263a55b19adcbf124b05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 01/56] fix: torque 'inner-outer' with displacement along +z
 kept the sign of m unflipped

---
 newt/multipoleLib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index ab82681..bacbf8c 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -279,7 +279,7 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
                 q2Q = True
             else:
                 sms = trr.transl_newt_z_SS(minL, r)
-            qnew = trr.apply_trans_mat_right(qnew, sms)
+            qnew = trr.apply_trans_mat_right(qnew, sms, q2Q)
             qnew = rot.rotate_qlm_Ds_right(qnew, DsR)
         else:
             phi = np.arctan2(rvec[1], rvec[0])
-- 
2.43.0


From 5dfe8589720353420fe1a100262f1ac6a793546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 02/56] fix: torque 'outer-outer' used the inner rotation
 convention for off-axis displacements

---
 newt/multipoleLib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index bacbf8c..7ea2e6a 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -284,12 +284,13 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
         else:
             phi = np.arctan2(rvec[1], rvec[0])
             theta = np.arccos(rvec[2]/r)
-            Ds = rot.wignerDl(minL, -phi, -theta, -phi)
             if trans_type == 'inner-outer':
                 q2Q = True
+                Ds = rot.wignerDl(minL, -phi, -theta, -phi)
                 sms = trr.transl_newt_z_SR(minL, r)
                 Ds2 = rot.wignerDl(minL, phi, -theta, phi)
             else:
+                Ds = rot.wignerDl(minL, phi, -theta, phi)
                 sms = trr.transl_newt_z_SS(minL, r)
                 Ds2 = Ds
             # Translate and rotate in opposite order than applied to q
-- 
2.43.0


From e5a4ab1cb7bca76912a4b4c2548ff139f6b555ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 03/56] fix: multipole force at the origin failed for degree 0

---
 newt/multipoleLib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index 7ea2e6a..4e19a32 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -23,9 +23,10 @@ def force_basis(L, x, y, z):
     bZ = np.zeros([L+1, 2*L+1], dtype='complex')
 
     if (x == 0) and (y == 0) and (z == 0):
-        bZ[1, L] = 1
-        bX[1, L+1] = -1/2
-        bY[1, L+1] = 1j/2
+        if L > 0:
+            bZ[1, L] = 1
+            bX[1, L+1] = -1/2
+            bY[1, L+1] = 1j/2
     else:
         ytilC[0, L] = 1
         r2 = x**2 + y**2 + z**2
-- 
2.43.0


From e08dd626a847ff3b3fe7c07b8afb75347c031394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 04/56] fix: Wigner matrices up to degree 0 must be a list
 holding one 1x1 matrix

---
 newt/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/rotations.py b/newt/rotations.py
index e5ead66..7ffd77a 100644
--- a/newt/rotations.py
+++ b/newt/rotations.py
@@ -30,7 +30,7 @@ def rotate_H_recurs(p, beta, Hn_prev=None):
     https://arxiv.org/pdf/1403.7698v1.pdf
     """
     if p == 0:
-        return 1.0
+        return [np.ones([1, 1])]
     else:
         H = []
 
-- 
2.43.0


From 20e8ccac4ca2ee248df5c3c61ada0a5560790603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 05/56] fix: inner moments of arrays with a point at the origin

---
 newt/pg2Multi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index 76019c7..b320cd1 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -34,7 +34,8 @@ def qmoment(l, m, massArray):
     if l == 0:
         qlm = massArray[:, 0]/np.sqrt(4*np.pi)
     else:
-        qlm = massArray[:, 0]*r**l*np.conj(sp.sph_harm(m, l, phi, theta))
+        qlm = np.conj(sp.sph_harm(m, l, phi, theta))
+        qlm *= massArray[rids, 0]*r[rids]**l
     qlm = np.sum(qlm)
     return qlm
 
@@ -99,7 +100,8 @@ def imoment(l, m, lmbd, massArray):
     if l == 0:
         ilm = massArray[:, 0]*il/np.sqrt(4*np.pi)
     else:
-        ilm = massArray[:, 0]*il*np.conj(sp.sph_harm(m, l, phi, theta))
+        ilm = massArray[rids, 0]*il[rids]
+        ilm = ilm*np.conj(sp.sph_harm(m, l, phi, theta))
     ilm = np.sum(ilm)
     return ilm
 
@@ -135,7 +137,7 @@ def qmoments(l, massArray):
     for n in range(1, l+1):
         rl = r**n
         for m in range(n+1):
-            qlm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
+            qlm = np.conj(sp.sph_harm(m, n, phi, theta))
             qlm *= massArray[rids, 0]*rl[rids]
             qlms[n, l+m] = np.sum(qlm)
 
@@ -224,7 +226,7 @@ def imoments(l, lmbd, massArray):
     for n in range(1, l+1):
         il = sp.spherical_in(l, r/lmbd)
         for m in range(n+1):
-            ilm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
+            ilm = np.conj(sp.sph_harm(m, n, phi, theta))
             ilm *= massArray[rids, 0]*il[rids]
             ilms[n, l+m] = np.sum(ilm)
 
-- 
2.43.0


From b47933cb9303f6499201530f74f00f66bbcc0ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 06/56] fix: imoments used the Bessel function of the maximum
 degree for every degree

---
 newt/pg2Multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index b320cd1..5ede757 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -224,7 +224,7 @@ def imoments(l, lmbd, massArray):
     ilms[0, l] = np.sum(ilm)
 
     for n in range(1, l+1):
-        il = sp.spherical_in(l, r/lmbd)
+        il = sp.spherical_in(n, r/lmbd)
         for m in range(n+1):
             ilm = np.conj(sp.sph_harm(m, n, phi, theta))
             ilm *= massArray[rids, 0]*il[rids]
-- 
2.43.0


From f120f4a29598b78265974e91db880ec4ebd18b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 07/56] fix: zero translation returned the caller's own moment
 array

---
 newt/translations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/translations.py b/newt/translations.py
index c943bbe..c5b8874 100644
--- a/newt/translations.py
+++ b/newt/translations.py
@@ -34,7 +34,7 @@ def translate_qlm(qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return qlm
+        return np.copy(qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of qlm for now
@@ -95,7 +95,7 @@ def translate_Qlmb(Qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return Qlm
+        return np.copy(Qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of Qlm for now
-- 
2.43.0


From 5e877558775e77533d047c6b9b7a58e0395d5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 08/56] fix: closed-form q50 of the centred truncated cone had
 a term of the wrong degree in r1

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 3103f95..5b4a5c1 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -210,7 +210,7 @@ def cone(LMax, rho, h, r1, r2):
     # q5 += 15*(5*r1**2*r2**4 + 6*r1*r2**5 + 7*r2**6)
     # qlm[5, L] = fac*h**2*q5*np.sqrt(11)/2688
     q5 = h**4 - 4*h**2*(3*r1**2 + r1*r2 + 3*r2**2)
-    q5 += 5*(3*r1**4 + 2*r1**2*r2 + 4*r1**2*r2**2 + 2*r1*r2**3 + 3*r2**4)
+    q5 += 5*(3*r1**4 + 2*r1**3*r2 + 4*r1**2*r2**2 + 2*r1*r2**3 + 3*r2**4)
     qlm[5, L] = fac*q5*h**2*(r1**2 - r2**2)*np.sqrt(11)/896
 
     # Moments always satisfy q(l, -m) = (-1)^m q(l, m)*
-- 
2.43.0


From bc436c3423916e612d047300b83a0f4c192b6e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 09/56] fix: closed-form q20 of the truncated cone above the
 plane had wrong coefficients

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 5b4a5c1..1f55051 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -260,7 +260,7 @@ def cone2(LMax, rho, h, r1, r2):
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
     qlm[1, L] = fac*h**2*(r1**2 + 2*r1*r2 + 3*r2**2)/(8*np.sqrt(3))
     q20 = 2*h**2*(r1**2 + 3*r1*r2 + 6*r2**2)
-    q20 -= 3*(r1**4 + 2*r1**3*r2 + 3*r1**2*r2**2 + r1*r2**3 + r2**4)
+    q20 -= 3*(r1**4 + r1**3*r2 + r1**2*r2**2 + r1*r2**3 + r2**4)
     qlm[2, L] = fac*h*q20/(24*np.sqrt(5))
     q3 = 2*h**2*(r1**2 + 4*r1*r2 + 10*r2**2)
     q3 -= 3*(r1**4 + 2*r1**3*r2 + 3*r1**2*r2**2 + 4*r1*r2**3 + 5*r2**4)
-- 
2.43.0


From e0c3d6743fdb7e84b24489446b1222447c31a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 10/56] fix: closed-form q44 of the trapezoid subtracted a term
 that must be added

---
 newt/qlmACH.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 1f55051..4a5c78a 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -439,7 +439,8 @@ def trapezoid(LMax, rho, t, w1, w2, h):
     qlm[4, L+2] = q42
     q44 = 24*delw**3*w**2*h**2 + 3*delw**4*w**4
     q44 -= delw*(256*h**4 - 480*h**2*w**2)
-    q44 -= delw**2*w**2*(192*h**2-40*w**2) + 16*(48*h**4-40*h**2*w**2+3*w**4)
+    q44 -= delw**2*w**2*(192*h**2-40*w**2)
+    q44 += 16*(48*h**4-40*h**2*w**2+3*w**4)
     q44 *= q00*np.sqrt(7/10)/2048
     qlm[4, L+4] = q44
     q51 = 3*delw**5*w**4 - 42*delw**4*w**4
-- 
2.43.0


From 335ddb8541364974a96f43d31e3a3a914da669a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 11/56] fix: closed-form q22 and q44 of the cylinder hole were
 dimensionally wrong

---
 newt/qlmACH.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 4a5c78a..5ec7692 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -666,13 +666,13 @@ def cylhole(LMax, rho, r, R):
     Fc4 = sp.hyp2f1(-.5, 2.5, 4, x)
     qlm[0, L] = fac*r*Fc2
     qlm[2, L] = -fac*r*np.sqrt(5)/6*((r**2-2*R**2)*Fc2 + r**2*Fc3)
-    qlm[2, L+2] = fac*r*np.sqrt(15/2)*Fc2
+    qlm[2, L+2] = fac*r**3*np.sqrt(15/2)/6*(Fc3-Fc2)
     q40 = (9*r**5-40*r**3*R**2+24*r*R**4)*Fc2 + (13*r**5-32*r**3*R**2)*Fc3
     q40 += 16*r**5*Fc4
     qlm[4, L] = fac/40*q40
     q42 = (6*r**2-20*R**2)*Fc2 + 2*(r**2+10*R**2)*Fc3 - 13*r**2*Fc4
     qlm[4, L+2] = fac*r**3*q42/(8*np.sqrt(10))
-    qlm[4, L+4] = 3*fac*r*np.sqrt(35/2)*Fc2/2
+    qlm[4, L+4] = 3*fac*r**5*np.sqrt(35/2)*(Fc2-3*Fc3+2*Fc4)/40
 
     # Moments always satisfy q(l, -m) = (-1)^m q(l, m)*
     ms = np.arange(-L, L+1)
-- 
2.43.0


From ec75739af5cf12ce8943bdc59b64fd59cb9191ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 12/56] fix: closed-form outer Q20 of the annulus lacked the
 factor of its height

---
 newt/bigQlm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index bc18a14..ac197a3 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -105,8 +105,8 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Qlmb[1, L] = sH*dens*np.sqrt(3/np.pi)*phih*Q10
     Q11 = np.log((r1+d1)/(r0+d0))
     Qlmb[1, L+1] = -dens*H*np.sqrt(3/(2*np.pi))*Q11*np.sin(phih)
-    Q22 = 1/d1 - 1/d0
-    Qlmb[2, L] = dens*np.sqrt(5/(4*np.pi))*phih*Q22
+    Q20 = H*(1/d1 - 1/d0)
+    Qlmb[2, L] = dens*np.sqrt(5/(4*np.pi))*phih*Q20
     Q21 = r1/d1 - r0/d0 + np.log((r1*(r0+d0))/(r0*(r1+d1)))
     Qlmb[2, L+1] = -sH*dens*np.sqrt(5/(6*np.pi))*Q21*np.sin(phih)
     Q22 = H*(1/d0-1/d1) - 2*np.log((r0*(H+d1))/(r1*(H+d0)))
-- 
2.43.0


From 8650c58dff1edfc859a42b065ae184a3a8041ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 13/56] fix: closed-form outer Q53 of the annulus had a wrong
 coefficient

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index ac197a3..0d7e1fb 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -141,7 +141,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Q52 = 5/r1**3 + (4*H**4+14*H**2*r1**2-5*r1**4)/d1**7
     Q52 -= 5/r0**3 + (4*H**4+14*H**2*r0**2-5*r0**4)/d0**7
     Qlmb[5, L+2] = sH*dens*np.sqrt(11/(210*np.pi))/12*Q52*np.sin(2*phih)/2
-    Q53 = r1**5*(7*H**2+r1**2)/d1**7 - r0**5*(7*H**2+r0**2)/d0**7
+    Q53 = r1**5*(7*H**2+2*r1**2)/d1**7 - r0**5*(7*H**2+2*r0**2)/d0**7
     Qlmb[5, L+3] = dens*np.sqrt(11/(35*np.pi))/(16*H**3)*Q53*np.sin(3*phih)/3
     Q54 = 35/r0**3 - (8*H**4+28*H**2*r0**2+35*r0**4)/d0**7
     Q54 -= 35/r1**3 - (8*H**4+28*H**2*r1**2+35*r1**4)/d1**7
-- 
2.43.0


From f9f3eee0b33a627c6fb26c26d3500f714762446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 14/56] fix: outer annulus was turned by minus its central
 angle

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index 0d7e1fb..fdef32b 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -152,7 +152,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
 
     # Moments always satisfy Q(l, -m) = (-1)^m Q(l, m)*
     ms = np.arange(-L, L+1)
-    Qlmb *= np.exp(-1j*ms*phic)
+    Qlmb *= np.exp(1j*ms*phic)
     mfac = (-1)**(np.abs(ms))
     Qlmb += np.conj(np.fliplr(Qlmb))*mfac
     Qlmb[:, L] /= 2
-- 
2.43.0


From e619e7fe80ea472b9a0b5771b1c65dfc2f79e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 15/56] fix: qlm accepted spheres without radius, annuli
 without wall and polygons of fewer than 3 sides

---
 newt/qlm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/newt/qlm.py b/newt/qlm.py
index 3472213..0589047 100644
--- a/newt/qlm.py
+++ b/newt/qlm.py
@@ -29,6 +29,8 @@ def sphere(L, mass, R):
     qlm : ndarray, complex
         (L+1)x(2L+1) array of complex moment values
     """
+    if R <= 0:
+        raise ValueError('R <= 0')
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
     qlm[0, L] = mass/np.sqrt((4*np.pi))
     return qlm
@@ -105,7 +107,7 @@ def annulus(L, mass, H, Ri, Ro, phic, phih):
     """
     factor = mass*np.sqrt(1/(4.*np.pi))
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (Ro < Ri) or (phih <= 0) or (phih > np.pi) or (Ri < 0):
+    if (H <= 0) or (Ro <= Ri) or (phih <= 0) or (phih > np.pi) or (Ri < 0):
         raise ValueError('Unphysical parameter arguments')
     rfac = Ro**2 - Ri**2
     for l in range(L+1):
@@ -462,7 +464,7 @@ def ngon_prism(L, mass, H, a, phic, N):
     """
     factor = mass*np.sqrt(1/(4.*np.pi))
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (a <= 0) or (N <= 0):
+    if (H <= 0) or (a <= 0) or (N < 3):
         raise ValueError('Unphysical parameter arguments')
     tanN = np.tan(np.pi/N)
     for l in range(L+1):
-- 
2.43.0


From e427b63fffad919faef7c659378f71fa41d5c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 16/56] fix: closed-form moments accepted negative radii, zero
 widths and holes parallel to the plate

---
 newt/qlmACH.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 5ec7692..7e41a99 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -98,7 +98,7 @@ def annulus(LMax, rho, H, Ri, Ro, phic, phih):
     dr = Ro-Ri
     r = (Ro+Ri)/2
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (Ro <= Ri) or (Ro <= 0) or (H <= 0) or (phih > np.pi) or (phih <= 0):
+    if (Ro <= Ri) or (Ri < 0) or (H <= 0) or (phih > np.pi) or (phih <= 0):
         raise ValueError('Unphysical parameter arguments')
     eiphi = np.exp(-1j*phic)
     sdphih = np.sin(dphi/2)
@@ -176,7 +176,7 @@ def cone(LMax, rho, h, r1, r2):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h <= 0) or ((r1 == 0) and (r2 == 0)):
+    if (h <= 0) or (r1 < 0) or (r2 < 0) or ((r1 == 0) and (r2 == 0)):
         raise ValueError('Unphysical parameter arguments')
     fac = rho*np.sqrt(np.pi)
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
@@ -254,7 +254,7 @@ def cone2(LMax, rho, h, r1, r2):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h <= 0) or ((r1 == 0) and (r2 == 0)):
+    if (h <= 0) or (r1 < 0) or (r2 < 0) or ((r1 == 0) and (r2 == 0)):
         raise ValueError('Unphysical parameter arguments')
     fac = rho*np.sqrt(np.pi)
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
@@ -407,7 +407,7 @@ def trapezoid(LMax, rho, t, w1, w2, h):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h <= 0) or (t <= 0) or (w1 < 0) or (w2 < 0):
+    if (h <= 0) or (t <= 0) or (w1 < 0) or (w2 < 0) or (w1+w2 == 0):
         raise ValueError('Unphysical parameter arguments')
     w = (w1+w2)/2
     delw = (w1-w2)/w
@@ -783,7 +783,7 @@ def platehole(LMax, rho, t, r, theta):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (r <= 0) or (t <= 0) or (abs(theta) > np.pi/2):
+    if (r <= 0) or (t <= 0) or (abs(theta) >= np.pi/2):
         raise ValueError('Unphysical parameter arguments')
     s = np.tan(theta)
     q00 = rho*t*r**2*np.sqrt(np.pi*(1+s**2))/2
-- 
2.43.0


From 30dfe16b8cbb4eb41845825b5bbe2eeca86b2db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 17/56] fix: numerical inner moments accepted negative radii,
 negative or over-full wedges and overturned plates

---
 newt/qlmNum.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/newt/qlmNum.py b/newt/qlmNum.py
index 024342b..a69cf97 100644
--- a/newt/qlmNum.py
+++ b/newt/qlmNum.py
@@ -81,7 +81,9 @@ def cyl_mom(L, dens, phih, IR, OR, h1, h2):
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h1 > h2) or (OR < IR) or (phih == 0) or (OR <= 0):
+    if (h1 > h2) or (OR < IR) or (IR < 0) or (OR <= 0):
+        raise ValueError('Unphysical parameter arguments')
+    if (phih <= 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
     for l in range(L+1):
         for m in range(l+1):
@@ -135,7 +137,9 @@ def cone_mom(L, dens, phih, IR, OR, H):
         """Boundary integral for z coordinate of cone"""
         return H*(OR-r)/(OR-IR)
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (OR < IR) or (phih == 0) or (OR <= 0):
+    if (H <= 0) or (OR <= IR) or (IR < 0) or (OR <= 0):
+        raise ValueError('Unphysical parameter arguments')
+    if (phih <= 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
     for l in range(L+1):
         for m in range(l+1):
@@ -188,7 +192,7 @@ def trap_mom(L, dens, phih, IR, OR, h1, h2):
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h1 > h2) or (OR < IR) or (phih <= 0) or (OR <= 0):
+    if (h1 > h2) or (OR < IR) or (IR < 0) or (phih <= 0) or (OR <= 0):
         raise ValueError('Unphysical parameter arguments')
     # Make sure the angle makes sense
     if (phih >= np.pi/2):
@@ -306,7 +310,7 @@ def platehole(L, dens, t, r, theta):
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (r <= 0) or (theta >= np.pi/2) or (t <= 0):
+    if (r <= 0) or (abs(theta) >= np.pi/2) or (t <= 0):
         raise ValueError('Unphysical parameter arguments')
     tanth = np.tan(theta)
     h = t/np.cos(theta)
-- 
2.43.0


From 12c4b56510816e95e5464db69c0551ff29c2c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 18/56] fix: outer moments accepted spheres without radius,
 negative radii and cones reaching the origin

---
 newt/bigQlm.py    |  4 +++-
 newt/bigQlmNum.py | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index fdef32b..0ba5a1d 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -34,6 +34,8 @@ def sphere(LMax, dens, R, x, y, z):
     Qlmb : ndarray
         (LMax+1)x(2LMax+1) complex array of outer moments
     """
+    if R <= 0:
+        raise ValueError('Unphysical parameter arguments')
     M = dens*(4*np.pi*R**3)/3
     Qlmsb = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
     d = np.sqrt(x**2 + y**2 + z**2)
@@ -93,7 +95,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     else:
         L = LMax
     Qlmb = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H == 0) or (r1 < r0) or (r1 < 0) or (r0 < 0) or (phih <= 0) or (phih > np.pi):
+    if (H == 0) or (r1 < r0) or (r1 <= 0) or (r0 <= 0) or (phih <= 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
     d1 = np.sqrt(H**2 + r1**2)
     d0 = np.sqrt(H**2 + r0**2)
diff --git a/newt/bigQlmNum.py b/newt/bigQlmNum.py
index 976ef52..7d7c1f6 100644
--- a/newt/bigQlmNum.py
+++ b/newt/bigQlmNum.py
@@ -63,7 +63,9 @@ def annulus(L, dens, h1, h2, IR, OR, phih):
         (LMax+1)x(2LMax+1) complex array of outer moments
     """
     Qlmb = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h1 > h2) or (OR < IR) or (phih <= 0) or (OR <= 0) or (phih > np.pi):
+    if (h1 > h2) or (OR < IR) or (IR < 0) or (OR <= 0):
+        raise ValueError('Unphysical parameter arguments')
+    if (phih <= 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
     # Make sure this solid doesn't reach the origin
     if (h1 <= 0 <= h2) and (IR <= 0):
@@ -117,7 +119,9 @@ def outer_cone(L, dens, H, IR, OR, phih):
         (LMax+1)x(2LMax+1) complex array of outer moments
     """
     Qlmb = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (OR < IR) or (phih <= 0) or (OR <= 0) or (phih > np.pi):
+    if (H <= 0) or (OR <= IR) or (IR <= 0) or (OR <= 0):
+        raise ValueError('Unphysical parameter arguments')
+    if (phih <= 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
 
     def cone_z(theta, r):
@@ -175,7 +179,7 @@ def trapezoid(L, dens, h1, h2, IR, OR, phih):
         (LMax+1)x(2LMax+1) complex array of outer moments
     """
     Qlmb = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h1 > h2) or (OR < IR) or (phih <= 0) or (OR <= 0):
+    if (h1 > h2) or (OR < IR) or (IR < 0) or (phih <= 0) or (OR <= 0):
         raise ValueError('Unphysical parameter arguments')
     # Make sure this solid doesn't reach the origin
     if ((h1 <= 0 <= h2) and (IR <= 0)) or (phih >= np.pi/2):
-- 
2.43.0


From dda4528860277c02aea5de40e3462fd89c11178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 19/56] fix: sphere grid of point masses filled a cube of side
 R instead of the sphere

---
 newt/glibShapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index d63c9bd..dc2740d 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -76,7 +76,7 @@ def sphere(mass, R, N):
     """
     pointArray = np.zeros([N**3, 4])
     pointArray[:, 0] = mass/N**3
-    grid = R/N
+    grid = 2*R/N
 
     ctr = 0
     for k in range(N):
-- 
2.43.0


From 37053d3bff5acdb87913faf072813efe9e86c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 20/56] fix: rectangle of point masses was off centre in y for
 nx != ny

---
 newt/glibShapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index dc2740d..bb77493 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -134,7 +134,7 @@ def rectangle(mass, x, y, z, nx, ny, nz):
         for l in range(ny):
             for m in range(nx):
                 pointArray[k*ny*nx+l*nx+m, 1] = (m-(nx-1)/2)*xgrid
-                pointArray[k*ny*nx+l*nx+m, 2] = (l-(nx-1)/2)*ygrid
+                pointArray[k*ny*nx+l*nx+m, 2] = (l-(ny-1)/2)*ygrid
                 pointArray[k*ny*nx+l*nx+m, 3] = (k-(nz-1)/2)*zgrid
 
     return pointArray
-- 
2.43.0


From f6769bcf3a58b6e8fe5cf0ab439341ec94fb4f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 21/56] fix: triangular prism and tetrahedron grids were off
 centre in y

---
 newt/glibShapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index bb77493..31f2eb6 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -524,7 +524,7 @@ def tri_prism(mass, d, y1, y2, t, nx, ny, nz):
         print('Require y2 > y1')
         return []
     base = np.max([0, y2])-np.min([0, y1])
-    yave = base/2
+    yave = (np.max([0, y2])+np.min([0, y1]))/2
     zgrid = t/nz
     xgrid = d/nx
     ygrid = base/ny
@@ -584,7 +584,7 @@ def tetrahedron(mass, x, y1, y2, z, nx, ny, nz):
         print('Require y2 > y1')
         return []
     base = np.max([0, y2])-np.min([0, y1])
-    yave = base/2
+    yave = (np.max([0, y2])+np.min([0, y1]))/2
     zgrid = z/nz
     xgrid = x/nx
     ygrid = base/ny
-- 
2.43.0


From 49ae5a1be19e143a16db1a17bdbc6c39d81bfe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 22/56] fix: pyramid of point masses took the half-lengths of
 its base as full lengths

---
 newt/glibShapes.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 31f2eb6..53f9726 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -706,11 +706,10 @@ def pyramid(mass, x, y, z, nx, ny, nz):
         point mass array of format [m, x, y, z]
     """
     zgrid = z/nz
-    xgrid = x/nx
-    ygrid = y/ny
-    print(xgrid, ygrid)
+    xgrid = 2*x/nx
+    ygrid = 2*y/ny
 
-    density = mass/(z*y*x/3)
+    density = mass/(4*z*y*x/3)
     pointMass = density*(xgrid*ygrid*zgrid/3)
 
     pointArray = np.zeros([nx*ny*nz, 4])
@@ -722,10 +721,10 @@ def pyramid(mass, x, y, z, nx, ny, nz):
                 xval = (m-(nx-1)/2)*xgrid
                 yval = (l-(ny-1)/2)*ygrid
                 zval = (k-(nz-1)/2)*zgrid + z/2
-                yx = yval*x/2
-                xy = xval*y/2
-                xr = 2*xval/x
-                yr = 2*yval/y
+                yx = yval*x
+                xy = xval*y
+                xr = xval/x
+                yr = yval/y
                 # upper quad
                 if (xy <= yx) and (xy >= -yx) and (zval <= z*(1-yr)):
                     pointArray[ctr, 1:] = xval, yval, zval
-- 
2.43.0


From 91c493c22efda687a7b0e56905f4625a3f45a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 23/56] fix: cylinder of the cylinder hole of point masses was
 along x instead of y

---
 newt/glibShapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 53f9726..394ed88 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -792,8 +792,8 @@ def cylhole(mass, r, R, nx, nz):
                 y = (l-(nx-1)/2)*ygrid
                 z = (k-(nz-1)/2)*zgrid
                 rz = np.sqrt(x**2 + y**2)
-                rx = np.sqrt(y**2 + z**2)
-                if rz <= r and rx <= R:
+                ry = np.sqrt(x**2 + z**2)
+                if rz <= r and ry <= R:
                     pointArray[ctr, 1:] = x, y, z
                     ctr += 1
 
-- 
2.43.0


From 74dac8ced784f0f5d55fa0aaf60fa0c1d92a5ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 24/56] fix: inclined plate hole of point masses was not a
 round hole and was cut off for negative angles

---
 newt/glibShapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 394ed88..54b2705 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -834,9 +834,9 @@ def platehole(mass, t, r, theta, nx, ny, nz):
         point mass array of format [m, x, y, z]
     """
     s = np.tan(theta)
-    x = 2*(r + t*s/2)
+    x = 2*(r/np.cos(theta) + t*np.abs(s)/2)
     zgrid = t/nz
-    xgrid = 2*x/nx
+    xgrid = x/nx
     ygrid = 2*r/ny
 
     # guess at volume, will correct for later
@@ -853,7 +853,7 @@ def platehole(mass, t, r, theta, nx, ny, nz):
                 y = (l-(ny-1)/2)*ygrid
                 z = (k-(nz-1)/2)*zgrid
                 xz = z*s
-                if (y**2 + (x-xz)**2) <= r**2:
+                if (y**2 + ((x-xz)*np.cos(theta))**2) <= r**2:
                     pointArray[ctr, 1:] = x, y, z
                     ctr += 1
 
-- 
2.43.0


From 2e275a0ea1649f36e2805811da057b4f6fde6604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 25/56] fix: Gauss-Legendre annulus, cone and wedge ignored the
 number of points along z

---
 newt/gShapeGL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index f50f68a..46aeb59 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -129,7 +129,7 @@ def annulus(mass, iR, oR, t, dd, dz):
     pointArray = np.zeros([dz*dd**2, 4])
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
@@ -174,7 +174,7 @@ def cone(mass, R, H, dd, dz):
     tanTheta = H/R
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
@@ -230,7 +230,7 @@ def wedge(mass, iR, oR, t, theta, dd, dz):
     ctr = 0
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
-- 
2.43.0


From 19d01cc9aa45df74156556692f8689a0f6bdc85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 26/56] fix: Gauss-Legendre annulus and wedge were twice as
 thick as requested

---
 newt/gShapeGL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index 46aeb59..b58a793 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -135,7 +135,7 @@ def annulus(mass, iR, oR, t, dd, dz):
             for m in range(dd):
                 pointArray[k*dd*dd+l*dd+m, 1] = sx[m]*oR
                 pointArray[k*dd*dd+l*dd+m, 2] = sy[l]*oR
-                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*t
+                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*t/2
                 pointArray[k*dd*dd+l*dd+m, 0] = wx[m]*wy[l]*wz[k]
 
     pointArray = np.array([pointArray[k] for k in range(dz*dd**2) if
@@ -236,7 +236,7 @@ def wedge(mass, iR, oR, t, theta, dd, dz):
             for m in range(dd):
                 x = sx[m]*dx + xa
                 y = sy[l]*ymax
-                z = sz[k]*t
+                z = sz[k]*t/2
                 w = wx[m]*wy[l]*wz[k]
                 r = np.sqrt(x**2 + y**2)
                 q = np.arctan2(y, x)
-- 
2.43.0


From 2dc13090f86ba6e6a24d101c41dc1e704c66570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 27/56] fix: Gauss-Legendre triangular prism covered only half
 of its width

---
 newt/gShapeGL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index b58a793..f7ce895 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -294,7 +294,7 @@ def tri_prism(mass, d, y1, y2, t, dx, dy, dz):
         for l in range(dy):
             for m in range(dx):
                 pointArray[k*dy*dx+l*dx+m, 1] = sx[m]*d/2 + d/2
-                pointArray[k*dy*dx+l*dx+m, 2] = sy[l]*base/2 + yave
+                pointArray[k*dy*dx+l*dx+m, 2] = sy[l]*base + yave
                 pointArray[k*dy*dx+l*dx+m, 3] = sz[k]*t/2
                 pointArray[k*dy*dx+l*dx+m, 0] = wx[m]*wy[l]*wz[k]
 
-- 
2.43.0


From 9cc592a83688a302c0870f2e4b59d508b613f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 28/56] fix: Gauss-Legendre cone filled a double cone of twice
 the height

---
 newt/gShapeGL.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index f7ce895..9d3d187 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -150,7 +150,8 @@ def annulus(mass, iR, oR, t, dd, dz):
 
 def cone(mass, R, H, dd, dz):
     """
-    Creates point masses distributed in a cone of mass m.
+    Creates point masses distributed in a cone of mass m with apex at z=H and
+    base radius of R.
 
     Inputs
     ------
@@ -171,7 +172,6 @@ def cone(mass, R, H, dd, dz):
         point mass array of format [m, x, y, z]
     """
     pointArray = np.zeros([dz*dd**2, 4])
-    tanTheta = H/R
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
     sz, wz = np.polynomial.legendre.leggauss(dz)
@@ -180,12 +180,12 @@ def cone(mass, R, H, dd, dz):
             for m in range(dd):
                 pointArray[k*dd*dd+l*dd+m, 1] = sx[m]*R
                 pointArray[k*dd*dd+l*dd+m, 2] = sy[l]*R
-                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*H
+                pointArray[k*dd*dd+l*dd+m, 3] = (sz[k]+1)*H/2
                 pointArray[k*dd*dd+l*dd+m, 0] = wx[m]*wy[l]*wz[k]
 
     pointArray = np.array([pointArray[k] for k in range(dz*dd**2) if
                            pointArray[k, 1]**2+pointArray[k, 2]**2 <=
-                           (pointArray[k, 3]/tanTheta)**2])
+                           R**2*(1-pointArray[k, 3]/H)**2])
 
     # Correct the masses of the points
     pointArray[:, 0] *= mass/np.sum(pointArray[:, 0])
-- 
2.43.0


From 43c6b71c0f8c9ab6a4eb2fc41dd4cb1914c6850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 29/56] fix: read_mpc took a comment or file name holding 'add'
 after a part for the add statement

---
 newt/read_multiFor.py | 99 ++++++++++---------------------------------
 1 file changed, 22 insertions(+), 77 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 31c8be9..d74852e 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -159,13 +159,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.annulus(LMax, mass, H, Ri, Ro, phic, phih)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'sphere':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 r = line2[0]
@@ -174,13 +169,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.sphere(LMax, mass, r)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'cone':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 LR, UR, H = line2
@@ -190,13 +180,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.cone(LMax, mass, H, LR, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'triangle':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 d, y1, y2, t = line2
@@ -205,13 +190,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.tri_prism(LMax, mass, t, d, y1, y2)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'trapezoid':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 w1, w2, h, t = line2
@@ -236,13 +216,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     qlmWrk = rot.rotate_qlm(qlmWrk, 0, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'partcylinder':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 r, d, h = line2
@@ -254,13 +229,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk -= qlm.tri_iso_prism2(LMax, massTri, h, r, 0, phih)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'tetrahedron':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 x, y, z = line2
@@ -269,13 +239,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.tetrahedron(LMax, mass, x, y, z)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'platehole':
                 line2 = [float(val) for val in lines[2+k].split(',')]
                 r, t, theta = line2
@@ -287,13 +252,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 # qlmWrk = rot.rotate_qlm(qlmWrk, 0, theta, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'cylhole':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 r, R = line2
@@ -302,13 +262,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = rot.rotate_qlm(qlmWrk, np.pi/2, 0, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'pyramid':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 x, y, z = line2
@@ -317,13 +272,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.pyramid(LMax, mass, x/2, y/2, z)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'rectangle':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 x, y, z = line2
@@ -332,13 +282,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.rect_prism(LMax, mass, z, x, y, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             else:
                 print(shape, ' does not have a known set of moments')
                 for n in range(nlines-k):
-- 
2.43.0


From e4303538383050a4f355ea7df099ef92625e0d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 30/56] fix: read_mpc mistook file names for statements, such
 as add in 'load paddle'

---
 newt/read_multiFor.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index d74852e..7a37c29 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -144,7 +144,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
         line = lines[1+k]
         # Get rid of stuff after a comment
         line = line.split('%')[0]
-        if 'create' in line:
+        cmd = line.split()[0] if line.split() else ''
+        if cmd == 'create':
             print(line)
             shape = line.split('create')[1].split()[0]
             if shape == 'cylinder':
@@ -292,30 +293,30 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                         k += 1
                     else:
                         break
-        elif 'rotate' in line:
+        elif cmd == 'rotate':
             dphi = np.array(line.split('rotate')[1].split(','), dtype=float)
             # Convert to radians
             dphi *= np.pi/180
             print('rotated ', shape)
             qlmWrk = rot.rotate_qlm(qlmWrk, dphi[0], dphi[1], dphi[2])
-        elif 'translate' in line:
+        elif cmd == 'translate':
             print('translated ', shape)
             dr = np.array(line.split('translate')[1].split(','), dtype=float)
             dr *= fac
             qlmWrk = trs.translate_qlm(qlmWrk, dr)
-        elif 'add' in line:
+        elif cmd == 'add':
             print('added ', shape)
             qlmTot += qlmWrk
-        elif 'cmin' in line:
+        elif cmd == 'cmin':
             print('parameters in centimeters')
             fac = 1e-2
-        elif 'inchin' in line:
+        elif cmd == 'inchin':
             print('parameters in inches')
             fac = 25.4e-3
-        elif 'nsteps' in line:
+        elif cmd == 'nsteps':
             nsteps = line.split()[-1]
-        elif 'load' in line:
-            fname = line.split('load ')[1]
+        elif cmd == 'load':
+            fname = line.split('load', 1)[1]
             fname = fname.strip()
             print(fname)
             qlmLoad = read_gsq(fname, filepath.replace('mpc', 'mom'))
@@ -323,15 +324,15 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 raise TypeError('Loaded part '+fname+' has wrong LMax')
             qlmWrk = qlmLoad
             shape = fname
-        elif 'zeroqlm' in line:
+        elif cmd == 'zeroqlm':
             qlmTot *= 0
-        elif 'gettotal' in line:
+        elif cmd == 'gettotal':
             qlmWrk = np.copy(qlmTot)
             shape = 'Total'
-        elif 'puttotal' in line:
+        elif cmd == 'puttotal':
             qlmTot = np.copy(qlmWrk)
             shape = 'Working'
-        elif 'end' in line:
+        elif cmd == 'end':
             print('end')
             break
         k += 1
-- 
2.43.0


From 6db908c76f375557e1454f82093ef632cdc3405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 31/56] fix: read_mpc ignored the upper radius of cones

---
 newt/read_multiFor.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 7a37c29..44dc084 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -176,9 +176,22 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 LR, UR, H = line2
                 dens = float(lines[3+k].split(',')[0])*1000
-                mass = dens*np.pi*H*LR**2/3
+                Rb, Rs = max(LR, UR), min(LR, UR)
+                mass = dens*np.pi*H*(Rb**2 + Rb*Rs + Rs**2)/3
                 print(LR, UR, H, dens, mass)
-                qlmWrk = qlm.cone(LMax, mass, H, LR, 0, np.pi)
+                if Rb == Rs:
+                    qlmWrk = qlm.annulus(LMax, mass, H, 0, Rb, 0, np.pi)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H/2])
+                else:
+                    Hb = H*Rb/(Rb-Rs)
+                    massb = dens*np.pi*Hb*Rb**2/3
+                    qlmWrk = qlm.cone(LMax, massb, Hb, Rb, 0, np.pi)
+                    if Rs > 0:
+                        tip = qlm.cone(LMax, massb-mass, Hb-H, Rs, 0, np.pi)
+                        qlmWrk -= trs.translate_qlm(tip, [0, 0, H])
+                if UR > LR:
+                    qlmWrk = rot.rotate_qlm(qlmWrk, 0, np.pi, 0)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H])
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
                 print('translated ', shape)
-- 
2.43.0


From f6d600f5d3b227f172c76836682840705a0441d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 32/56] fix: read_mpc divided by zero for trapezoids of equal
 widths

---
 newt/read_multiFor.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 44dc084..7d151f5 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -217,14 +217,20 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     flip = False
                 dens = float(lines[3+k].split(',')[0])*1000
                 y1, y2 = w3/2, w4/2
-                hs = w3*h/(w4-w3)
-                hb = h + hs
-                massTrib = dens*t*w4*hb/2
-                massTris = dens*t*w3*hs/2
-                print(hs, hb, w3, w4)
-                qlmWrk = qlm.tri_iso_prism(LMax, massTrib, t, w4, hb, 0)
-                qlmWrk -= qlm.tri_iso_prism(LMax, massTris, t, w3, hs, 0)
-                qlmWrk = trs.translate_qlm(qlmWrk, [-hs, 0, 0])
+                if w3 == w4:
+                    qlmWrk = qlm.rect_prism(LMax, dens*t*w3*h, t, h, w3, 0)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [h/2, 0, 0])
+                else:
+                    hs = w3*h/(w4-w3)
+                    hb = h + hs
+                    massTrib = dens*t*w4*hb/2
+                    massTris = dens*t*w3*hs/2
+                    print(hs, hb, w3, w4)
+                    qlmWrk = qlm.tri_iso_prism(LMax, massTrib, t, w4, hb, 0)
+                    if w3 > 0:
+                        qlmWrk -= qlm.tri_iso_prism(LMax, massTris, t, w3, hs,
+                                                    0)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [-hs, 0, 0])
                 if flip:
                     qlmWrk = trs.translate_qlm(qlmWrk, [-(hb-hs), 0, 0])
                     qlmWrk = rot.rotate_qlm(qlmWrk, 0, 0, np.pi)
-- 
2.43.0


From ab89a571e815dafb8cb562efa98cfacea8e75cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 33/56] fix: N-gon prism mesh had half the side length and
 ignored its angle

---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index d35bb2a..aef7f82 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -312,9 +312,9 @@ def ngon_prism(pmass, H, a, phic, N):
     """
     ang = 2*np.pi/N
     R = a/np.sqrt(2*(1-np.cos(ang)))
-    result = cq.Workplane("XY").polygon(N, R).extrude(H/2, both=True)
+    result = cq.Workplane("XY").polygon(N, 2*R).extrude(H/2, both=True)
     result.pmass = pmass
-    result = rotate_mesh(result, ang/2, 0, 0)
+    result = rotate_mesh(result, phic+ang/2, 0, 0)
     return result
 
 
-- 
2.43.0


From 8c7adca4dd63463c748355fe6422a48fbaae0582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 34/56] fix: trapezoid mesh had its height along z and its
 thickness along y

---
 newt/genCAD.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index aef7f82..61a112d 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -274,10 +274,8 @@ def trapezoid(pmass, t, w1, w2, h):
     result : CadQuery object
     """
     result = (cq.Workplane("XY")
-        .rect(w1, t)
-        .workplane(offset=h)
-        .rect(w2, t)
-        .loft()
+        .moveTo(0,-w1/2).lineTo(h,-w2/2).lineTo(h,w2/2).lineTo(0,w1/2)
+        .close().extrude(t/2,both=True)
     )
     result.pmass = pmass
     return result
-- 
2.43.0


From afc9df1ad6812ea290109f73a30f00bbf58d0ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 35/56] fix: pyramid mesh took the half-lengths of its base as
 full lengths

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 61a112d..6ef1bd7 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -420,7 +420,7 @@ def pyramid(pmass, x, y, z):
     -------
     result : CadQuery object
     """
-    vertices = [[x/2,y/2,0], [x/2,-y/2,0], [-x/2,-y/2,0], [-x/2,y/2,0], [0,0,z]]
+    vertices = [[x,y,0], [x,-y,0], [-x,-y,0], [-x,y,0], [0,0,z]]
     faces_ixs = [[0,1,2,3,0], [0,1,4,0], [1,2,4,1], [2,3,4,2], [3,0,4,3]]
 
     faces = []
-- 
2.43.0


From 8fa51b67d04cdca2ea21309cbb386d4648b36981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 36/56] fix: cylinder hole mesh mixed up heights and radii

---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 6ef1bd7..7433ba6 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -455,8 +455,8 @@ def cylhole(pmass, r, R):
     -------
     result : CadQuery object
     """
-    mr = cylinder(0, r, 2*R)
-    mR = cylinder(0, R, 2*r)
+    mr = cylinder(0, 2*R, r)
+    mR = cylinder(0, 2*r, R)
     mR = mR.rotate((0,0,0), (1,0,0), 90)
     result = mr.intersect(mR)
     result.pmass = pmass
-- 
2.43.0


From e150498a3c9ed1c39d7d8fbc37fe344943d4c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 37/56] fix: plate hole mesh was cut off for negative or large
 angles

---
 newt/genCAD.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 7433ba6..7c5c9c5 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -490,8 +490,10 @@ def platehole(pmass, t, r, theta):
     qlm : ndarray
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
-    rect = rect_prism(pmass, t, 2*r+2*t*np.sin(theta), 2*r + 2*t*np.sin(theta), 0)
-    cyl = cylinder(0, 2*t, r)
+    # Make plate and hole large enough to contain each other's faces
+    w = 2*(2*r + t*np.abs(np.sin(theta)))/np.cos(theta)
+    rect = rect_prism(pmass, t, w, w, 0)
+    cyl = cylinder(0, 2*(t + 2*r*np.abs(np.sin(theta)))/np.cos(theta), r)
     cyl = rotate_mesh(cyl, 0, theta, 0)
     result = rect.intersect(cyl)
     result.pmass = pmass
-- 
2.43.0


From 3894589abcf1a31cbbd413ffa3369de86750a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 38/56] fix: outer cone mesh was not centered about the x-axis

---
 newt/genCAD.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 7c5c9c5..6830382 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -525,10 +525,11 @@ def outercone(pmass, H, IR, OR, phih):
         raise ValueError('IR must be greater than 0.')
     else:
         result = (cq.Workplane("XZ")
-            .lineTo(OR,0).lineTo(IR,H).lineTo(IR,0)
+            .moveTo(IR,0).lineTo(OR,0).lineTo(IR,H)
             .close().revolve(2*phih*180/np.pi,(0,0,0),(0,1,0))
         )
     result.pmass = pmass
+    result = rotate_mesh(result, -phih, 0, 0)
     return result
 
 
-- 
2.43.0


From 013d12e7ea286e089111642b5585e8ae18f3c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 39/56] fix: rotate_mesh applied the Euler angles in the
 opposite order to rotate_qlm

---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 6830382..b6b769a 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -571,9 +571,9 @@ def rotate_mesh(mesh, alpha, beta, gamma):
     result: CadQuery object
     """
     pmass = mesh.pmass
-    result = mesh.rotate((0,0,0), (0,0,1), alpha*180/np.pi)
+    result = mesh.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
     result = result.rotate((0,0,0), (0,1,0), beta*180/np.pi)
-    result = result.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
+    result = result.rotate((0,0,0), (0,0,1), alpha*180/np.pi)
     result.pmass = pmass
     return result
 
-- 
2.43.0


From 55e8103a16fcb929b631932f19835a2fe311229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 40/56] fix: save_stl failed for a single mesh since cadquery
 workplanes became iterable

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index b6b769a..45f8b5d 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -603,7 +603,7 @@ def save_stl(mesh, name):
     -------
     None. Outputs file
     """
-    if hasattr(mesh, '__iter__'):
+    if isinstance(mesh, (list, tuple)):
         tmpmesh = sum_mesh(mesh)
         cq.exporters.export(tmpmesh, f"{name}.stl",tolerance=.01)
 
-- 
2.43.0


From fa4cd47461f1d1d15900432eb130a71134e9fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 41/56] fix: outer Annulus shape had half of its mass

---
 newt/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 4f0dd43..13061a1 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -138,7 +138,7 @@ class Annulus(Shape):
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
-            dens = mass/(2*phih*(Ro**2 - Ri**2)*H)
+            dens = mass/(phih*(Ro**2 - Ri**2)*H)
             self.qlm = bqlm.annulus(lmax, dens, H/2, Ri, Ro, phic, phih)
             self.qlm += bqlm.annulus(lmax, dens, -H/2, Ri, Ro, phic, phih)
 
-- 
2.43.0


From 7b9c970b632b17c0cc71faf5a48df28dbf560148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 42/56] fix: outer Sphere shape dropped its moments and its
 position

---
 newt/shapes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 13061a1..6fc4795 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -198,7 +198,10 @@ class Sphere(Shape):
             self.translate(center, True)
         else:
             dens = mass/(4*np.pi*R**3/3)
-            bqlm.sphere(lmax, dens, R, center[0], center[1], center[2])
+            self.qlm = bqlm.sphere(lmax, dens, R, center[0], center[1],
+                                   center[2])
+            self.com += center
+            self.mesh = gcad.translate_mesh(self.mesh, center)
 
 
 class NGon(Shape):
-- 
2.43.0


From e7f9e1dcfef551715fc0131a4a49b405edea29ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 43/56] fix: OuterCone shape dropped its moments and misjudged
 its volume and sign

---
 newt/shapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 6fc4795..c0cc795 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -253,12 +253,12 @@ class OuterCone(Shape):
     def __init__(self, lmax, inner, mass, H, IR, OR, phih):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.outercone(mass, H, IR, OR, phih)
+        self.mesh = gcad.outercone(mass > 0, H, IR, OR, phih)
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
-            dens = mass/(2*phih*H*(OR**2-IR**2)/3)
-            bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
+            dens = mass/(phih*H*(OR**2+OR*IR-2*IR**2)/3)
+            self.qlm = bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
 
 
 class Cylhole(Shape):
-- 
2.43.0


From 0f2a6e4222b60ddb89ac95ed63fbdbff09c08681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 44/56] fix: Cylhole shape had 4 pi times its mass and moments
 turned against its mesh

---
 newt/shapes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index c0cc795..2ab540b 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -272,7 +272,9 @@ class Cylhole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.steinmetz(lmax, dens, r, R)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/np.real(self.qlm[0, lmax])/np.sqrt(4*np.pi)
+            # Cylinder axis of steinmetz is along xhat, that of mesh along yhat
+            self.qlm = rot.rotate_qlm(self.qlm, np.pi/2, 0, 0)
         else:
             print('Outer cylindrical hole shape not defined.')
 
-- 
2.43.0


From 0970a7cad7d54ecf0b059b40d48dfe3cf721b6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 45/56] fix: Platehole shape had 4 pi times its mass and
 moments tilted against its mesh

---
 newt/shapes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 2ab540b..91097e0 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -290,6 +290,8 @@ class Platehole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.platehole(lmax, dens, t, r, theta)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/np.real(self.qlm[0, lmax])/np.sqrt(4*np.pi)
+            # Hole axis of qlmn.platehole is along zhat, that of mesh is tilted
+            self.qlm = rot.rotate_qlm(self.qlm, 0, theta, 0)
         else:
             print('Outer plate hole shape not defined.')
-- 
2.43.0


From 6340d1e0d5ca67eeb7a30cbcbc41794e5b69c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 46/56] fix: outer shapes were rotated as if their moments were
 inner ones

---
 newt/shapes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 91097e0..bd0a2a6 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -56,7 +56,12 @@ class Shape:
         np.savetxt(filename+'.txt', self.qlm, header=header)
 
     def rotate(self, alpha, beta, gamma):
-        self.qlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
+        if self.inner:
+            self.qlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
+        else:
+            # Outer moments rotate with the complex conjugate matrices
+            self.qlm = np.conj(rot.rotate_qlm(np.conj(self.qlm), alpha, beta,
+                                              gamma))
         self.mesh = gcad.rotate_mesh(self.mesh, alpha, beta, gamma)
 
         # Rotate center of mass using point-gravity tools
-- 
2.43.0


From f9bd7310acb315cc59d02f701f99c66384b88fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 47/56] fix: shapes away from the origin reported their center
 of mass at the origin

---
 newt/shapes.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/newt/shapes.py b/newt/shapes.py
index bd0a2a6..48f63de 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -31,6 +31,13 @@ class Shape:
         self.mass = 0
         self.mesh = None
 
+    def mesh_com(self):
+        """
+        Center of mass of the mesh.
+        """
+        com = self.mesh.val().Center()
+        return np.array([com.x, com.y, com.z])
+
     def save_shape(self, filename):
         #fig = plt.figure()
         #ax = mp3d.Axes3D(fig)
@@ -140,6 +147,7 @@ class Annulus(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.annulus(mass > 0, H, Ri, Ro, phic, phih)
+        self.com = self.mesh_com()
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
@@ -156,6 +164,7 @@ class RectPrism(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.rect_prism(mass > 0, H, a, b, phic)
+        self.com = self.mesh_com()
         if self.inner:
             self.qlm = qlm.rect_prism(lmax, mass, H, a, b, phic)
         else:
@@ -170,6 +179,7 @@ class TriPrism(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.tri_prism(mass > 0, H, d, y1, y2)
+        self.com = self.mesh_com()
         if self.inner:
             self.qlm = qlm.tri_prism(lmax, mass, H, d, y1, y2)
         else:
@@ -184,6 +194,7 @@ class Cone(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.cone(mass > 0, P, 0, R, phic, phih)
+        self.com = self.mesh_com()
         if self.inner:
             self.qlm = qlm.cone(lmax, mass, P, R, phic, phih)
         else:
@@ -198,6 +209,7 @@ class Sphere(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.sphere(mass > 0, R)
+        self.com = self.mesh_com()
         if self.inner:
             self.qlm = qlm.sphere(lmax, mass, R)
             self.translate(center, True)
@@ -217,6 +229,7 @@ class NGon(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.ngon_prism(mass > 0, H, a, phic, N)
+        self.com = self.mesh_com()
         if self.inner:
             self.qlm = qlm.ngon_prism(lmax, mass, H, a, phic, N)
         else:
@@ -231,6 +244,7 @@ class Tetrahedron(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.tetrahedron2(mass > 0, x, y1, y2, z)
+        self.com = self.mesh_com()
         if self.inner:
             self.qlm = qlm.tetrahedron2(lmax, mass, x, y1, y2, z)
         else:
@@ -245,6 +259,7 @@ class Pyramid(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.pyramid(mass > 0, x, y, z)
+        self.com = self.mesh_com()
         if self.inner:
             self.qlm = qlm.pyramid(lmax, mass, x, y, z)
         else:
@@ -259,6 +274,7 @@ class OuterCone(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.outercone(mass > 0, H, IR, OR, phih)
+        self.com = self.mesh_com()
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
@@ -274,6 +290,7 @@ class Cylhole(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.cylhole(mass > 0, r, R)
+        self.com = self.mesh_com()
         if self.inner:
             dens = 1
             self.qlm = qlmn.steinmetz(lmax, dens, r, R)
@@ -292,6 +309,7 @@ class Platehole(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.platehole(mass > 0, t, r, theta)
+        self.com = self.mesh_com()
         if self.inner:
             dens = 1
             self.qlm = qlmn.platehole(lmax, dens, t, r, theta)
-- 
2.43.0


From bb9c5b178c85fdc9a5128fb4a3001ea5bc66d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 48/56] fix: shapes and meshes could not be translated by a
 vector given as an array

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 45f8b5d..07d9136 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -546,7 +546,7 @@ def translate_mesh(mesh, rPrime):
     newresult : CadQuery object
     """
     pmass = mesh.pmass
-    result = mesh.translate(rPrime)
+    result = mesh.translate(tuple(rPrime))
     result.pmass = pmass
     return result
 
-- 
2.43.0


From 56ef52fb975f7d9de09bae88b4565ef966298eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 49/56] fix: MATLAB moments mirrored every point off the z-axis
 through the xy-plane

---
 matlab-src/computeMoments.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab-src/computeMoments.m b/matlab-src/computeMoments.m
index e875433..e039f11 100644
--- a/matlab-src/computeMoments.m
+++ b/matlab-src/computeMoments.m
@@ -47,7 +47,7 @@ function moment = computeMoments( l, m, mArray )
 				end
 			%main case
 			else
-				theta = atan( z / rxy ) + pi / 2.0;
+				theta = pi / 2.0 - atan( z / rxy );
 			end
 
 			%Phi computation
-- 
2.43.0


From 1fb25ded85fca46438b53d72d73f6771300edd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 50/56] fix: genPointMassLine ignored its starting height

---
 matlab-src/shapes/genPointMassLine.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab-src/shapes/genPointMassLine.m b/matlab-src/shapes/genPointMassLine.m
index fc1c07f..0802f84 100644
--- a/matlab-src/shapes/genPointMassLine.m
+++ b/matlab-src/shapes/genPointMassLine.m
@@ -17,7 +17,7 @@ function  o = genPointMassLine( eachMass, x, y, zstart, zspace, N)
 
         o = ones(N,4);
 
-	o = [  o(:,1) * eachMass, o(:,2) * x, o(:,3) * y, (0: (N- 1) )' * zspace];
+	o = [  o(:,1) * eachMass, o(:,2) * x, o(:,3) * y, zstart + (0: (N- 1) )' * zspace];
 
 
 end
-- 
2.43.0


From 863f3326ece0502c167703f3742975d229720364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 51/56] fix: display_points adds its axes to the figure it
 returns

Axes3D(fig) no longer adds itself to the figure with current matplotlib, so
the plot was blank.
---
 newt/glib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glib.py b/newt/glib.py
index 9ff9bc5..27f9cd4 100644
--- a/newt/glib.py
+++ b/newt/glib.py
@@ -241,7 +241,7 @@ def display_points(pm1, pm2, scale_mass=False):
         Axes object
     """
     fig = plt.figure()
-    ax = Axes3D(fig)
+    ax = fig.add_subplot(projection='3d')
     s1 = 50*np.ones(len(pm1))
     s2 = 50*np.ones(len(pm2))
     if scale_mass:
-- 
2.43.0


From d99a2600ccc58725c28c3f9fea93dc60eb2c4ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 52/56] fix: display_points with scale_mass shows negative
 masses

Their size was negative (nothing drawn) and they were labelled positive.
---
 newt/glib.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/newt/glib.py b/newt/glib.py
index 27f9cd4..484c806 100644
--- a/newt/glib.py
+++ b/newt/glib.py
@@ -247,17 +247,12 @@ def display_points(pm1, pm2, scale_mass=False):
     if scale_mass:
         pts1 = len(pm1)
         pts2 = len(pm2)
-        s1 = 100*pts1*pm1[:, 0]
-        s2 = 100*pts2*pm2[:, 0]
-        pmp1 = np.nonzero(pm1[:, 0])[0]
-        pmp2 = np.nonzero(pm2[:, 0])[0]
-        pmm1 = []
-        pmm2 = []
-    else:
-        pmp1 = np.where(pm1[:, 0] > 0)[0]
-        pmm1 = np.where(pm1[:, 0] < 0)[0]
-        pmp2 = np.where(pm2[:, 0] > 0)[0]
-        pmm2 = np.where(pm2[:, 0] < 0)[0]
+        s1 = 100*pts1*np.abs(pm1[:, 0])
+        s2 = 100*pts2*np.abs(pm2[:, 0])
+    pmp1 = np.where(pm1[:, 0] > 0)[0]
+    pmm1 = np.where(pm1[:, 0] < 0)[0]
+    pmp2 = np.where(pm2[:, 0] > 0)[0]
+    pmm2 = np.where(pm2[:, 0] < 0)[0]
     ax.scatter(pm1[pmp1, 1], pm1[pmp1, 2], pm1[pmp1, 3], label='(+) mass1',
                s=s1[pmp1], c='C0', alpha=.5)
     ax.scatter(pm1[pmm1, 1], pm1[pmm1, 2], pm1[pmm1, 3], label='(-) mass1',
-- 
2.43.0


From 057155e8ce6b6aae0799c81b52b7c1b2a26fa3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 53/56] fix: scatterPMMassesYZGrid moves y and z, not x and y

Columns of a point mass array are m, x, y, z.
---
 matlab-src/scatterPMMassesYZGrid.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab-src/scatterPMMassesYZGrid.m b/matlab-src/scatterPMMassesYZGrid.m
index c8069fe..5025cf0 100644
--- a/matlab-src/scatterPMMassesYZGrid.m
+++ b/matlab-src/scatterPMMassesYZGrid.m
@@ -21,6 +21,6 @@ function M = scatterPMMassesYZGrid(M);
 
 	R = pendulumPMScanGridSize * randn(rows(M), 2);
 
-	M(:,2:3) = M(:,2:3) + R;
+	M(:,3:4) = M(:,3:4) + R;
 
 end
-- 
2.43.0


From 668b2fdefc4a3047b2fbad90dcb8db0ff7719bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:42 +0000
Subject: [PATCH 54/56] fix: coaxial translation operators by zero distance
 were NaN

---
 newt/translationRecurs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/translationRecurs.py b/newt/translationRecurs.py
index 0153d9b..3232bfd 100644
--- a/newt/translationRecurs.py
+++ b/newt/translationRecurs.py
@@ -157,7 +157,7 @@ def transl_newt_z_RR(LMax, dr):
     """
     # Descending array of lp from LMax through 0
     lp = np.arange(LMax+1)
-    cols = (-np.sign(dr))**lp*np.exp(lp*np.log(np.abs(dr)) - sp.gammaln(lp+1))
+    cols = (-np.sign(dr))**lp*np.exp(sp.xlogy(lp, np.abs(dr)) - sp.gammaln(lp+1))
     rows = [cols[0], *np.zeros(LMax)]
     rrms = []
     for m in range(LMax+1):
@@ -188,7 +188,7 @@ def transl_newt_z_SS(LMax, dr):
     http://legacydirs.umiacs.umd.edu/~gumerov/PDFs/cs-tr-4701.pdf
     """
     lp = np.arange(LMax+1)
-    rows = (-np.sign(dr))**lp*np.exp(lp*np.log(np.abs(dr)) - sp.gammaln(lp+1))
+    rows = (-np.sign(dr))**lp*np.exp(sp.xlogy(lp, np.abs(dr)) - sp.gammaln(lp+1))
     cols = [rows[0], *np.zeros(LMax)]
     ssms = []
     for m in range(LMax+1):
-- 
2.43.0


From e80fe6cd350773cce17f0989e10585a3b78c333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:42 +0000
Subject: [PATCH 55/56] fix: inner to outer operator for a displacement along
 -z had the wrong sign

---
 newt/translationRecurs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/translationRecurs.py b/newt/translationRecurs.py
index 3232bfd..904b2e1 100644
--- a/newt/translationRecurs.py
+++ b/newt/translationRecurs.py
@@ -219,7 +219,7 @@ def transl_newt_z_SR(LMax, dr):
     http://legacydirs.umiacs.umd.edu/~gumerov/PDFs/cs-tr-4701.pdf
     """
     lp = np.arange(2*LMax+1)
-    svals = np.sign(dr)**(lp+1)*np.exp(sp.gammaln(lp+1) - (lp+1)*np.log(np.abs(dr)))
+    svals = np.sign(dr)**lp*np.exp(sp.gammaln(lp+1) - (lp+1)*np.log(np.abs(dr)))
     srms = []
     for m in range(LMax+1):
         faca = alphanm(lp[m:LMax+1], m)
-- 
2.43.0


From 9eda4f1506625869587ec82375d60396669ba76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:41 +0000
Subject: [PATCH 56/56] fix: Clebsch-Gordan coefficients overflowed for large
 angular momenta

---
 newt/clebschGordan.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/newt/clebschGordan.py b/newt/clebschGordan.py
index f2793cf..2a5e328 100644
--- a/newt/clebschGordan.py
+++ b/newt/clebschGordan.py
@@ -65,13 +65,15 @@ def cgCoeff(j1, j2, m1, m2, J, M):
     fac2 = sp.gammaln(J+M+1) + sp.gammaln(J-M+1)
     fac2 += sp.gammaln(j1-m1+1) + sp.gammaln(j1+m1+1)
     fac2 += sp.gammaln(j2-m2+1) + sp.gammaln(j2+m2+1)
-    fac2 = np.sqrt(np.exp(fac2))
+    # Scale out of both factors what would overflow for large momenta
+    shift = max([0, fac2-700])/2
+    fac2 = np.sqrt(np.exp(fac2-2*shift))
     sumCG = 0
     for k in range(kmin, kmax+1):
         denFac = sp.gammaln(k+1) + sp.gammaln(j1+j2-J-k+1)
         denFac += sp.gammaln(j1-m1-k+1) + sp.gammaln(j2+m2-k+1)
         denFac += sp.gammaln(J-j2+m1+k+1) + sp.gammaln(J-j1-m2+k+1)
-        denFac = np.exp(denFac)
+        denFac = np.exp(denFac-shift)
         sumCG += (-1)**k/denFac
     CG = delta*fac1*fac2*sumCG
     return CG
-- 
2.43.0

