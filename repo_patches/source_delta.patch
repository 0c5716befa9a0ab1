From faf6b84bae6c6c34a866a7604459fd3d45a617d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 01/31] fix: modular square root looped forever for primes with
 high 2-adicity

The Tonelli-Shanks exponent 2**(m-i-1) was computed with an int shift,
which overflows as soon as 2**31 or more divides p-1 (e.g. P224).
---
 src/field.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/field.c b/src/field.c
index 189ee77..b1145bc 100644
--- a/src/field.c
+++ b/src/field.c
@@ -735,7 +735,10 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
                 mpz_powm_ui(z, z, 2, op->fp->p);
                 //mpz_add_ui(i, i, 1); 
             }
-            mpz_powm_ui(b, c, 1 << (m - i - 1), op->fp->p);
+            // b = c**(2**(m-i-1)), exponent can exceed a machine word
+            mpz_set_ui(z, 0);
+            mpz_setbit(z, m - i - 1);
+            mpz_powm(b, c, z, op->fp->p);
             mpz_mul(r, r, b);
             mpz_mod(r, r, op->fp->p);
             mpz_powm_ui(c, b, 2, op->fp->p);
-- 
2.43.0


From 7ceb362d2d57c19273a3c43899b130e193afdc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 02/31] fix: Edwards addition overwrote the curve object the
 destination used to belong to

mpECP_add copied the parameters of the operands' curve into the curve
object the destination was attached to, changing every point on it.
---
 src/ecpoint.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 01b6b6e..41decb0 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -1104,7 +1104,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 // Z3 = c*F*G
                 mpFp_mul(B, pt1->cvp->coeff.ed.c, G);
                 mpFp_mul(rpt->z, B, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
@@ -1183,7 +1183,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_mul(rpt->y, B, A);
                 // Z3 = F*G
                 mpFp_mul(rpt->z, G, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
@@ -1286,7 +1286,7 @@ void mpECP_double(mpECP_t rpt, mpECP_t pt) {
                 mpFp_clear(YYYY);
                 mpFp_clear(YY);
                 mpFp_clear(XX);
-                mpECurve_set(rpt->cvp, pt->cvp);
+                rpt->cvp = pt->cvp;
                 rpt->is_neutral = 0;
                 return;
             }
-- 
2.43.0


From 40e1d069922e33803c9e675624d5a2c922742296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 03/31] fix: scalar multiplication ignored the top scalar bit
 when the order is longer than the field

For curves whose order has more bits than the field prime (e.g. secp160k1)
scalars of the full length of the order were silently truncated.
---
 src/ecpoint.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 41decb0..569206c 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -55,8 +55,15 @@ typedef mp_limb_t __local_limb_t[_MPFP_MAX_LIMBS];
 
 static char *_hexlut = "0123456789ABCDEF";
 
+// number of bits needed to hold any scalar (mod n). NOTE: the order of the
+// curve can be longer than the order of the field (Hasse bound).
+static inline int _mpECP_scalar_bits(mpECP_t pt) {
+    int nbits = (int)mpz_sizeinbase(pt->cvp->n, 2);
+    return (nbits > (int)pt->cvp->bits) ? nbits : (int)pt->cvp->bits;
+}
+
 static inline int _mpECP_n_base_pt_levels(mpECP_t pt) {
-    return (pt->cvp->bits + pt->base_bits - 1) / pt->base_bits;
+    return (_mpECP_scalar_bits(pt) + pt->base_bits - 1) / pt->base_bits;
 }
 
 static inline int _mpECP_n_base_pt_level_size(mpECP_t pt) {
@@ -1332,7 +1339,7 @@ void mpECP_scalar_mul(mpECP_t rpt, mpECP_t pt, mpFp_t sc) {
     mpECP_set(R1, pt);
     // scalar should be modulo the order of the curve
     assert(mpz_cmp(sc->fp->p, pt->cvp->n) == 0);
-    for (i = pt->cvp->bits - 1; i >= 0 ; i--) {
+    for (i = _mpECP_scalar_bits(pt) - 1; i >= 0 ; i--) {
         int b;
 
         b = mpFp_tstbit(sc, i);
-- 
2.43.0


From 53f0ac10c90c1b4c42869698afb2193a858d993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 04/31] fix: Montgomery curves with B != 1 used an inconsistent
 coordinate transform

The map to Weierstrass form was x/B + A/3 while its inverse was B*u - A/3,
and the compressed encoding took the parity of the internal y coordinate.
---
 src/ecpoint.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 569206c..40dd53f 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -127,9 +127,9 @@ void mpECP_set(mpECP_t rpt, mpECP_t pt) {
 
 static inline void _transform_mo_to_ws(mpECP_t pt) {
     assert (pt->cvp->type == EQTypeMontgomery);
-    // u = x/B + A/3, v = y/B
-    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
+    // u = (x + A/3)/B, v = y/B
     mpFp_add(pt->x, pt->x, pt->cvp->coeff.mo.Adiv3);
+    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
     mpFp_mul(pt->y, pt->y, pt->cvp->coeff.mo.Binv);
 }
 
@@ -548,7 +548,7 @@ void mpECP_out_bytes(unsigned char *s, mpECP_t pt, int compress) {
     if (compress != 0) {
         mpz_t odd;
         mpz_init(odd);
-        mpz_set_mpFp(odd, pt->y);
+        mpz_set_mpECP_affine_y(odd, pt);
         mpz_mod_ui(odd, odd, 2);
         if (mpz_cmp_ui(odd, 1) == 0) {
             s[0] = 3;
-- 
2.43.0


From e4b6208f28507e45bcde36248f2812d4128831c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 05/31] fix: complete point addition degenerated when the
 operands differ by a point of order 2

On short Weierstrass and Montgomery curves of even order the formula yields
(0,0,0), which was taken for the neutral element.
---
 src/ecpoint.c | 77 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 18 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 40dd53f..bd6426d 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -783,9 +783,9 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 //assert(0); // might want to implement something here ;)
                 // 2015 Renes-Costello-Batina "Algorithm 1"
                 // from https://eprint.iacr.org/2015/1060.pdf
-                mpFp_t t0, t1, t2, t3, t4, t5, b3;
+                mpFp_t t0, t1, t2, t3, t4, t5, b3, X3, Y3, Z3;
 #ifdef _MPECP_MPFP_NOMALLOC
-                __local_limb_t lt0, lt1, lt2, lt3, lt4, lt5, lb3;
+                __local_limb_t lt0, lt1, lt2, lt3, lt4, lt5, lb3, lX3, lY3, lZ3;
                 t0->i->_mp_d = lt0; t0->i->_mp_size = 0; t0->i->_mp_alloc = _MPFP_MAX_LIMBS; t0->fp = pt1->cvp->fp;
                 t1->i->_mp_d = lt1; t1->i->_mp_size = 0; t1->i->_mp_alloc = _MPFP_MAX_LIMBS; t1->fp = pt1->cvp->fp;
                 t2->i->_mp_d = lt2; t2->i->_mp_size = 0; t2->i->_mp_alloc = _MPFP_MAX_LIMBS; t2->fp = pt1->cvp->fp;
@@ -793,6 +793,9 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 t4->i->_mp_d = lt4; t4->i->_mp_size = 0; t4->i->_mp_alloc = _MPFP_MAX_LIMBS; t4->fp = pt1->cvp->fp;
                 t5->i->_mp_d = lt5; t5->i->_mp_size = 0; t5->i->_mp_alloc = _MPFP_MAX_LIMBS; t5->fp = pt1->cvp->fp;
                 b3->i->_mp_d = lb3; b3->i->_mp_size = 0; b3->i->_mp_alloc = _MPFP_MAX_LIMBS; b3->fp = pt1->cvp->fp;
+                X3->i->_mp_d = lX3; X3->i->_mp_size = 0; X3->i->_mp_alloc = _MPFP_MAX_LIMBS; X3->fp = pt1->cvp->fp;
+                Y3->i->_mp_d = lY3; Y3->i->_mp_size = 0; Y3->i->_mp_alloc = _MPFP_MAX_LIMBS; Y3->fp = pt1->cvp->fp;
+                Z3->i->_mp_d = lZ3; Z3->i->_mp_size = 0; Z3->i->_mp_alloc = _MPFP_MAX_LIMBS; Z3->fp = pt1->cvp->fp;
 #else
                 mpFp_init_fp(t0, pt1->cvp->fp);
                 mpFp_init_fp(t1, pt1->cvp->fp);
@@ -801,6 +804,9 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_init_fp(t4, pt1->cvp->fp);
                 mpFp_init_fp(t5, pt1->cvp->fp);
                 mpFp_init_fp(b3, pt1->cvp->fp);
+                mpFp_init_fp(X3, pt1->cvp->fp);
+                mpFp_init_fp(Y3, pt1->cvp->fp);
+                mpFp_init_fp(Z3, pt1->cvp->fp);
 #endif
                 // TODO: Precalculate b3 and store in coeff.ws.b3
                 mpFp_add(b3, bb, bb);
@@ -876,25 +882,25 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 //14. t5 <- Y1 + Z1
                 mpFp_add(t5, pt1->y, pt1->z);
                 //15. X3 <- Y2 + Z2
-                mpFp_add(rpt->x, pt2->y, pt2->z);
+                mpFp_add(X3, pt2->y, pt2->z);
                 //16. t5 <- t5 * X3
-                mpFp_mul(t5, t5, rpt->x);
+                mpFp_mul(t5, t5, X3);
                 //17. X3 <- t1 + t2
-                mpFp_add(rpt->x, t1, t2);
+                mpFp_add(X3, t1, t2);
                 //18. t5 <- t5 - X3
-                mpFp_sub(t5, t5, rpt->x);
+                mpFp_sub(t5, t5, X3);
                 //19. Z3 <-  a * t4
-                mpFp_mul(rpt->z, aa, t4);
+                mpFp_mul(Z3, aa, t4);
                 //20. X3 <- b3 * t2
-                mpFp_mul(rpt->x, b3, t2);
+                mpFp_mul(X3, b3, t2);
                 //21. Z3 <- X3 + Z3
-                mpFp_add(rpt->z, rpt->x, rpt->z);
+                mpFp_add(Z3, X3, Z3);
                 //22. X3 <- t1 - Z3
-                mpFp_sub(rpt->x, t1, rpt->z);
+                mpFp_sub(X3, t1, Z3);
                 //23. Z3 <- t1 + Z3
-                mpFp_add(rpt->z, t1, rpt->z);
+                mpFp_add(Z3, t1, Z3);
                 //24. Y3 <- X3 * Z3
-                mpFp_mul(rpt->y, rpt->x, rpt->z);
+                mpFp_mul(Y3, X3, Z3);
                 //25. t1 <- t0 + t0
                 mpFp_add(t1, t0, t0);
                 //26. t1 <- t1 + t0
@@ -914,29 +920,64 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 //33. t0 <- t1 * t4
                 mpFp_mul(t0, t1, t4);
                 //34. Y3 <- Y3 + t0
-                mpFp_add(rpt->y, rpt->y, t0);
+                mpFp_add(Y3, Y3, t0);
                 //35. t0 <- t5 * t4
                 mpFp_mul(t0, t5, t4);
                 //36. X3 <- t3 * X3
-                mpFp_mul(rpt->x, t3, rpt->x);
+                mpFp_mul(X3, t3, X3);
                 //37. X3 <- X3 - t0
-                mpFp_sub(rpt->x, rpt->x, t0);
+                mpFp_sub(X3, X3, t0);
                 //38. t0 <- t3 * t1
                 mpFp_mul(t0, t3, t1);
                 //39. Z3 <- t5 * Z3
-                mpFp_mul(rpt->z, t5, rpt->z);
+                mpFp_mul(Z3, t5, Z3);
                 //40. Z3 <- Z3 + t0
-                mpFp_add(rpt->z, rpt->z, t0);
+                mpFp_add(Z3, Z3, t0);
+
+                if ((mpFp_cmp_ui(Z3, 0) == 0) && (mpFp_cmp_ui(Y3, 0) == 0)) {
+                    // Algorithm 1 degenerates to (0,0,0) when the difference of
+                    // the operands is a point of order 2 (possible only if the
+                    // group order is even). Use the chord formula (operands are
+                    // distinct here, and Z3 == 0 only if pt1 == -pt2), from
+                    // https://hyperelliptic.org/EFD/g1p/auto-shortw-projective.html#addition-add-1998-cmo-2
+                    mpFp_mul(t0, pt1->y, pt2->z);   // Y1Z2
+                    mpFp_mul(t1, pt1->x, pt2->z);   // X1Z2
+                    mpFp_mul(t2, pt1->z, pt2->z);   // Z1Z2
+                    mpFp_mul(t3, pt2->y, pt1->z);
+                    mpFp_sub(t3, t3, t0);           // u = Y2*Z1 - Y1Z2
+                    mpFp_mul(t4, pt2->x, pt1->z);
+                    mpFp_sub(t4, t4, t1);           // v = X2*Z1 - X1Z2
+                    mpFp_sqr(t5, t4);               // vv
+                    mpFp_mul(t1, t5, t1);           // R = vv*X1Z2
+                    mpFp_mul(t5, t5, t4);           // vvv
+                    mpFp_mul(t0, t5, t0);           // vvv*Y1Z2
+                    mpFp_mul(Z3, t5, t2);           // Z3 = vvv*Z1Z2
+                    mpFp_sqr(X3, t3);
+                    mpFp_mul(X3, X3, t2);
+                    mpFp_sub(X3, X3, t5);
+                    mpFp_sub(X3, X3, t1);
+                    mpFp_sub(X3, X3, t1);           // A = uu*Z1Z2 - vvv - 2*R
+                    mpFp_sub(Y3, t1, X3);
+                    mpFp_mul(Y3, Y3, t3);
+                    mpFp_sub(Y3, Y3, t0);           // Y3 = u*(R-A) - vvv*Y1Z2
+                    mpFp_mul(X3, X3, t4);           // X3 = v*A
+                }
 
                 rpt->cvp = pt1->cvp;
+                mpFp_set(rpt->x, X3);
+                mpFp_set(rpt->y, Y3);
+                mpFp_set(rpt->z, Z3);
 
-                if (mpFp_cmp_ui(rpt->z, 0) == 0) {
+                if (mpFp_cmp_ui(Z3, 0) == 0) {
                     mpECP_set_neutral(rpt, pt1->cvp);
                 } else {
                     rpt->is_neutral = 0;
                 }
 
 #ifndef _MPECP_MPFP_NOMALLOC
+                mpFp_clear(Z3);
+                mpFp_clear(Y3);
+                mpFp_clear(X3);
                 mpFp_clear(b3);
                 mpFp_clear(t5);
                 mpFp_clear(t4);
-- 
2.43.0


From 8e593e9c4a2690629ab8ac8bd964678ec19fd97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 06/31] fix: curves over different fields compared equal

mpECurve_cmp returned 0 (equal) when only the fields differ.
---
 src/ecurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecurve.c b/src/ecurve.c
index 1404b4f..d009d77 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -1195,7 +1195,7 @@ int mpECurve_cmp(mpECurve_t op1, mpECurve_t op2) {
     //printf("not the same pointer\n");
     if (op1->type != op2->type) return -1;
     //printf("same type\n");
-    r = (op1->fp == op2->fp) ; if (r != 1) return r;
+    if (op1->fp != op2->fp) return -1;
     //printf("same field\n");
     switch (op1->type) {
         case EQTypeShortWeierstrass:
-- 
2.43.0


From 9fc011adc2ed1926620650f7b6bcd73073d01c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 07/31] fix: curve construction crashed or overflowed on
 unusable parameters

Text that is not a number was silently replaced by a previous value, a zero,
even or oversized modulus (or order) ended the process, and a declared size
smaller than the modulus made the point export overflow its buffer. All of
them are reported as an error now.
---
 src/ecurve.c | 150 ++++++++++++++++-----------------------------------
 1 file changed, 45 insertions(+), 105 deletions(-)

diff --git a/src/ecurve.c b/src/ecurve.c
index d009d77..742e628 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -35,6 +35,9 @@
 #include <stdlib.h>
 #include <string.h>
 
+// limit of the size of field elements (and scalars), see _MPFP_MAX_LIMBS
+#define _MPECURVE_MAX_BITS  (1024)
+
 static int _known_curve_type(mpECurve_t cv) {
     return (cv->type == EQTypeShortWeierstrass) || 
         (cv->type == EQTypeEdwards) ||
@@ -815,125 +818,56 @@ void mpECurve_set(mpECurve_t rop, mpECurve_t op){
     return;
 }
 
-int mpECurve_set_str_ws(mpECurve_t cv, char *p, char *a, char *b, char *n,
-char *h, char *Gx, char *Gy, unsigned int bits){
-    int status;
-    mpFp_field_ptr fp;
-    mpz_t t;
+// sanity check on parameters, to ensure that math on the curve is well-defined
+// and does not exceed internal limits. NOTE: p is assumed to be prime
+static int _mpECurve_check_params(mpz_t p, mpz_t n, unsigned int bits) {
+    if ((mpz_cmp_ui(p, 3) <= 0) || mpz_even_p(p)) return -1;
+    if (mpz_sizeinbase(p, 2) > _MPECURVE_MAX_BITS) return -1;
+    if ((mpz_cmp_ui(n, 1) <= 0) || (mpz_sizeinbase(n, 2) > _MPECURVE_MAX_BITS)) return -1;
+    // bits determines the length of encoded points
+    if ((bits < mpz_sizeinbase(p, 2)) || (bits > _MPECURVE_MAX_BITS)) return -1;
+    return 0;
+}
 
-    mpz_init(t);
-    mpz_set_str(t, p, 0);
-    fp = _mpFp_field_lookup(t);
-    cv->fp = fp;
-    assert(fp != NULL);
-    if (cv->type != EQTypeShortWeierstrass) {
-        _mpECurve_clear_coeff(cv);
-        cv->type = EQTypeShortWeierstrass;
-        _mpECurve_init_coeff(cv);
+typedef int (_mpECurve_setter)(mpECurve_t, mpz_t, mpz_t, mpz_t, mpz_t, mpz_t, mpz_t, mpz_t, unsigned int);
+
+static int _mpECurve_set_str(mpECurve_t cv, _mpECurve_setter *set_mpz, char *p,
+char *k1, char *k2, char *n, char *h, char *Gx, char *Gy, unsigned int bits) {
+    char *str[7] = { p, k1, k2, n, h, Gx, Gy };
+    mpz_t z[7];
+    int i, status = 0;
+
+    for (i = 0; i < 7; i++) {
+        mpz_init(z[i]);
+        if ((str[i] == NULL) || (mpz_set_str(z[i], str[i], 0) != 0)) status = -1;
+    }
+    if (status == 0) {
+        status = set_mpz(cv, z[0], z[1], z[2], z[3], z[4], z[5], z[6], bits);
+    }
+    for (i = 0; i < 7; i++) {
+        mpz_clear(z[i]);
     }
-    mpz_set_str(t, a, 0);
-    mpFp_set_mpz_fp(cv->coeff.ws.a, t, cv->fp);
-    mpz_set_str(t, b, 0);
-    mpFp_set_mpz_fp(cv->coeff.ws.b, t, cv->fp);
-    mpz_set_str(cv->n, n, 0);
-    mpz_set_str(cv->h, h, 0);
-    mpz_set_str(cv->G[0], Gx, 0);
-    mpz_set_str(cv->G[1], Gy, 0);
-    cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
-    mpz_clear(t);
     return status;
 }
 
-int mpECurve_set_str_ed(mpECurve_t cv, char *p, char *c, char *d, char *n,
+int mpECurve_set_str_ws(mpECurve_t cv, char *p, char *a, char *b, char *n,
 char *h, char *Gx, char *Gy, unsigned int bits){
-    int status;
-    mpFp_field_ptr fp;
-    mpz_t t;
+    return _mpECurve_set_str(cv, mpECurve_set_mpz_ws, p, a, b, n, h, Gx, Gy, bits);
+}
 
-    mpz_init(t);
-    mpz_set_str(t, p, 0);
-    fp = _mpFp_field_lookup(t);
-    cv->fp = fp;
-    if (cv->type != EQTypeEdwards) {
-        _mpECurve_clear_coeff(cv);
-        cv->type = EQTypeEdwards;
-        _mpECurve_init_coeff(cv);
-    }
-    mpz_set_str(t, c, 0);
-    mpFp_set_mpz_fp(cv->coeff.ed.c, t, cv->fp);
-    mpz_set_str(t, d, 0);
-    mpFp_set_mpz_fp(cv->coeff.ed.d, t, cv->fp);
-    mpz_set_str(cv->n, n, 0);
-    mpz_set_str(cv->h, h, 0);
-    mpz_set_str(cv->G[0], Gx, 0);
-    mpz_set_str(cv->G[1], Gy, 0);
-    cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
-    mpz_clear(t);
-    return status;
+int mpECurve_set_str_ed(mpECurve_t cv, char *p, char *c, char *d, char *n,
+char *h, char *Gx, char *Gy, unsigned int bits){
+    return _mpECurve_set_str(cv, mpECurve_set_mpz_ed, p, c, d, n, h, Gx, Gy, bits);
 }
 
 int mpECurve_set_str_mo(mpECurve_t cv, char *p, char *B, char *A, char *n,
 char *h, char *Gx, char *Gy, unsigned int bits){
-    int status;
-    mpz_t zp, zB, zA, zn, zh, zGx, zGy;
-
-    mpz_init(zp);
-    mpz_init(zB);
-    mpz_init(zA);
-    mpz_init(zn);
-    mpz_init(zh);
-    mpz_init(zGx);
-    mpz_init(zGy);
-
-    mpz_set_str(zp, p, 0);
-    mpz_set_str(zB, B, 0);
-    mpz_set_str(zA, A, 0);
-    mpz_set_str(zn, n, 0);
-    mpz_set_str(zh, h, 0);
-    mpz_set_str(zGx, Gx, 0);
-    mpz_set_str(zGy, Gy, 0);
-
-    status = mpECurve_set_mpz_mo(cv, zp, zB, zA, zn, zh, zGx, zGy, bits);
-
-    mpz_clear(zGy);
-    mpz_clear(zGx);
-    mpz_clear(zh);
-    mpz_clear(zn);
-    mpz_clear(zA);
-    mpz_clear(zB);
-    mpz_clear(zp);
-    return status;
+    return _mpECurve_set_str(cv, mpECurve_set_mpz_mo, p, B, A, n, h, Gx, Gy, bits);
 }
 
 int mpECurve_set_str_te(mpECurve_t cv, char *p, char *a, char *d, char *n,
 char *h, char *Gx, char *Gy, unsigned int bits){
-    int status;
-    mpFp_field_ptr fp;
-    mpz_t t;
-
-    mpz_init(t);
-    mpz_set_str(t, p, 0);
-    fp = _mpFp_field_lookup(t);
-    cv->fp = fp;
-    if (cv->type != EQTypeTwistedEdwards) {
-        _mpECurve_clear_coeff(cv);
-        cv->type = EQTypeTwistedEdwards;
-        _mpECurve_init_coeff(cv);
-    }
-    mpz_set_str(t, a, 0);
-    mpFp_set_mpz_fp(cv->coeff.te.a, t, cv->fp);
-    mpz_set_str(t, d, 0);
-    mpFp_set_mpz_fp(cv->coeff.te.d, t, cv->fp);
-    mpz_set_str(cv->n, n, 0);
-    mpz_set_str(cv->h, h, 0);
-    mpz_set_str(cv->G[0], Gx, 0);
-    mpz_set_str(cv->G[1], Gy, 0);
-    cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
-    mpz_clear(t);
-    return status;
+    return _mpECurve_set_str(cv, mpECurve_set_mpz_te, p, a, d, n, h, Gx, Gy, bits);
 }
 
 int mpECurve_set_mpz_ws(mpECurve_t cv, mpz_t p, mpz_t a, mpz_t b, mpz_t n,
@@ -941,6 +875,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     int status;
     mpFp_field_ptr fp;
 
+    if (_mpECurve_check_params(p, n, bits) != 0) return -1;
     fp = _mpFp_field_lookup(p);
     cv->fp = fp;
     if (cv->type != EQTypeShortWeierstrass) {
@@ -964,6 +899,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     int status;
     mpFp_field_ptr fp;
 
+    if (_mpECurve_check_params(p, n, bits) != 0) return -1;
     fp = _mpFp_field_lookup(p);
     cv->fp = fp;
     if (cv->type != EQTypeEdwards) {
@@ -987,6 +923,9 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     int status;
     mpFp_field_ptr fp;
 
+    if (_mpECurve_check_params(p, n, bits) != 0) return -1;
+    // B must be invertible
+    if (mpz_divisible_p(B, p)) return -1;
     fp = _mpFp_field_lookup(p);
     _mpECurve_clear_coeff(cv);
     cv->fp = fp;
@@ -1002,7 +941,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     // resulting equation:
     // v^2 = u^3 + ws_a * u + ws_b
     // reverse transform:
-    // u = x/B + A/3, v = y/B
+    // u = (x + A/3)/B, v = y/B
     {
         mpFp_t a, b, s, t;
         mpFp_init_fp(a, cv->fp);
@@ -1051,6 +990,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     int status;
     mpFp_field_ptr fp;
 
+    if (_mpECurve_check_params(p, n, bits) != 0) return -1;
     fp = _mpFp_field_lookup(p);
     cv->fp = fp;
     if (cv->type != EQTypeTwistedEdwards) {
-- 
2.43.0


From c7a69d23e2ea6d579e0ac79256869e6e7f1abc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 08/31] fix: point import accepted encodings that do not denote
 a point of the curve

Uncompressed coordinates were not checked against the curve equation,
coordinates >= p were reduced silently, a zero header accepted any payload
and length, a vanishing denominator on Edwards curves was ignored and the
text form accepted whitespace, signs and non-hexadecimal characters.
---
 src/ecpoint.c | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index bd6426d..56e8130 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -29,6 +29,7 @@
 //OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <assert.h>
+#include <ctype.h>
 #include <ecc/ecpoint.h>
 #include <ecc/ecurve.h>
 #include <ecc/field.h>
@@ -322,6 +323,11 @@ int mpECP_set_str(mpECP_t rpt, char *s, mpECurve_t cv) {
 
     for (i = 0; i < blen; i++) {
         unsigned int btmp;
+        // sscanf alone would accept whitespace, sign or 0x prefix
+        if (!isxdigit((unsigned char)s[2 * i]) || !isxdigit((unsigned char)s[2 * i + 1])) {
+            free(buf);
+            return -1;
+        }
         sscanf(&s[2 * i], "%2X", &btmp);
         // btmp is unsigned, always >= 0
         //assert(btmp >= 0);
@@ -342,19 +348,29 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
     bytes = _bytelen(cv->bits);
     if (blen < (1 + bytes)) return -1;
     switch (b[0]) {
-        case 0:
+        case 0: {
+                size_t i;
+                if ((blen != (1 + bytes)) && (blen != (1 + (2 * bytes)))) return -1;
+                for (i = 1; i < blen; i++) {
+                    if (b[i] != 0) return -1;
+                }
+            }
             mpECP_set_neutral(rpt, cv);
             return 0;
         case 4: {
                 if (blen != (1 + (2 * bytes))) return -1;
                 mpz_t x, y;
+                int error;
                 mpz_init(x);
                 mpz_init(y);
                 mpz_import(x, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1]));
                 mpz_import(y, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1 + bytes]));
-                mpECP_set_mpz(rpt, x, y, cv);
+                error = (mpz_cmp(x, cv->fp->p) >= 0) || (mpz_cmp(y, cv->fp->p) >= 0) ||
+                    (mpECurve_point_check(cv, x, y) == 0);
+                if (error == 0) mpECP_set_mpz(rpt, x, y, cv);
                 mpz_clear(y);
                 mpz_clear(x);
+                if (error != 0) return -1;
             }
             return 0;
         case 2:
@@ -364,10 +380,14 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                 int error, odd;
                 if (blen != (1 + bytes)) return -1;
                 mpz_init(xz);
+                mpz_import(xz, bytes, 1, sizeof(unsigned char), 1, 0, &b[1]);
+                if (mpz_cmp(xz, cv->fp->p) >= 0) {
+                    mpz_clear(xz);
+                    return -1;
+                }
                 mpFp_init_fp(x, cv->fp);
                 mpFp_init_fp(y, cv->fp);
                 mpFp_init_fp(t, cv->fp);
-                mpz_import(xz, bytes, 1, sizeof(unsigned char), 1, 0, &b[1]);
                 mpFp_set_mpz_fp(x, xz, cv->fp);
                 switch (cv->type) {
                     case EQTypeShortWeierstrass: {
@@ -400,9 +420,11 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                             mpFp_set_ui_fp(y, 1, cv->fp);
                             mpFp_sub(t, y, t);
                             mpFp_sub(y, c2, x2);
-                            mpFp_inv(t, t);
-                            mpFp_mul(t, t, y);
-                            error = mpFp_sqrt(y, t);
+                            error = mpFp_inv(t, t);
+                            if (error == 0) {
+                                mpFp_mul(t, t, y);
+                                error = mpFp_sqrt(y, t);
+                            }
                             mpFp_clear(x2);
                             mpFp_clear(c2);
                             if (error != 0) {
@@ -429,9 +451,11 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                             mpFp_sub(t, y, t);
                             mpFp_mul(x2, x2, a);
                             mpFp_sub(y, y, x2);
-                            mpFp_inv(t, t);
-                            mpFp_mul(t, t, y);
-                            error = mpFp_sqrt(y, t);
+                            error = mpFp_inv(t, t);
+                            if (error == 0) {
+                                mpFp_mul(t, t, y);
+                                error = mpFp_sqrt(y, t);
+                            }
                             mpFp_clear(x2);
                             mpFp_clear(a);
                             if (error != 0) {
-- 
2.43.0


From 58300e55729a46e3a3f9445bb8f93f4be42bc353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 09/31] fix: ECDSA truncated the hash to whole bytes instead of
 to the bits of the order

Signatures were not interoperable for orders whose length is not a multiple
of 8 bits (e.g. secp521r1 or sect-size orders with a longer hash).
---
 src/ecdsa.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 95f9b96..5f9ba44 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -77,6 +77,17 @@ void mpECDSASignatureScheme_clear(mpECDSASignatureScheme_t sscheme) {
     return;
 }
 
+// use the leftmost bits of the hash, up to the bit length of the order
+static void _hash_to_mpz(mpz_t e, unsigned char *hash, mpECDSASignatureScheme_t sscheme) {
+    if (sscheme->nsz <= sscheme->H->hsz) {
+        mpz_import(e, sscheme->nsz, 1, 1, 1, 0, hash);
+        mpz_tdiv_q_2exp(e, e, (sscheme->nsz << 3) - mpz_sizeinbase(sscheme->cvp->n, 2));
+    } else {
+        mpz_import(e, sscheme->H->hsz, 1, 1, 1, 0, hash);
+    }
+    return;
+}
+
 int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t sscheme, mpFp_t sK, unsigned char *msg, size_t sz) {
     unsigned char *hash;
     mpFp_t k_n;
@@ -104,11 +115,7 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
     mpECP_init(R, sscheme->cvp);
 
     sscheme->H->dohash(hash, msg, sz);
-    if (sscheme->nsz <= sscheme->H->hsz) {
-        mpz_import(e, sscheme->nsz, 1, 1, 1, 0, hash);
-    } else {
-        mpz_import(e, sscheme->H->hsz, 1, 1, 1, 0, hash);
-    }
+    _hash_to_mpz(e, hash, sscheme);
     free(hash);
     mpFp_set_mpz(e_n, e, sscheme->cvp->n);
 new_random:
@@ -182,11 +189,7 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     mpECP_init(Pq, sig->sscheme->cvp);
 
     sig->sscheme->H->dohash(hash, msg, sz);
-    if (sig->sscheme->nsz <= sig->sscheme->H->hsz) {
-        mpz_import(e, sig->sscheme->nsz, 1, 1, 1, 0, hash);
-    } else {
-        mpz_import(e, sig->sscheme->H->hsz, 1, 1, 1, 0, hash);
-    }
+    _hash_to_mpz(e, hash, sig->sscheme);
     free(hash);
     mpFp_set_mpz(e_n, e, sig->sscheme->cvp->n);
     mpFp_inv(w, sig->s);
-- 
2.43.0


From 42aef582fac200897f60be39538f40d60eadbb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 10/31] fix: ECDSA accepted r = 0 when signing and the neutral
 point when verifying

Signing checked the x coordinate rather than its residue mod n, and for
Montgomery curves the neutral element has a non-zero nominal x coordinate.
---
 src/ecdsa.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 5f9ba44..0aa56fe 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -124,9 +124,9 @@ new_random:
 
     mpECP_scalar_base_mul(R, sscheme->cv_G, k_n);
     mpz_set_mpECP_affine_x(r, R);
-    if (__GMP_UNLIKELY(mpz_cmp_ui(r, 0) == 0)) goto new_random;
-
     mpFp_set_mpz(r_n, r, sscheme->cvp->n);
+    if (__GMP_UNLIKELY(mpFp_cmp_ui(r_n, 0) == 0)) goto new_random;
+
     mpFp_mul(s_n, r_n, sK);
     mpFp_add(s_n, s_n, e_n);
     status = mpFp_inv(e_n, k_n);
@@ -198,10 +198,14 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     mpECP_scalar_base_mul(P, sig->sscheme->cv_G, u1);
     mpECP_scalar_mul(Pq, pK, u2);
     mpECP_add(P, P, Pq);
-    mpz_set_mpECP_affine_x(e, P);
-    mpFp_set_mpz(p_n, e, sig->sscheme->cvp->n);
+    if (P->is_neutral != 0) {
+        status = -1;
+    } else {
+        mpz_set_mpECP_affine_x(e, P);
+        mpFp_set_mpz(p_n, e, sig->sscheme->cvp->n);
 
-    status = mpFp_cmp(p_n, sig->r);
+        status = mpFp_cmp(p_n, sig->r);
+    }
 
     mpECP_clear(Pq);
     mpECP_clear(P);
-- 
2.43.0


From e9dac834fbeab2912541507ef5c0b31d62b72bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 11/31] fix: ECDSA sign and verify aborted on keys of another
 curve

Report an error instead of failing an assertion in the field arithmetic.
---
 src/ecdsa.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 0aa56fe..d74a9b8 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -103,6 +103,9 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
 
     if ((msg == NULL) || (sz == 0)) return -1;
 
+    // private key must be a scalar modulo the order of the curve
+    if (mpz_cmp(sK->fp->p, sscheme->cvp->n) != 0) return -1;
+
     hash = (unsigned char *)malloc(sscheme->H->hsz * sizeof(char));
     assert(hash != NULL);
 
@@ -163,10 +166,12 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     mpECP_t Pq;
     int status;
 
-    if (sz == 0) return -1;
+    if ((msg == NULL) || (sz == 0)) return -1;
 
     if (sig == NULL) return -1;
 
+    if (mpECurve_cmp(pK->cvp, sig->sscheme->cvp) != 0) return -1;
+
     // validate signature input, presume public key was validated at import
     if ((mpz_cmp(sig->r->fp->p, sig->sscheme->cvp->n) != 0) ||
         (mpz_cmp(sig->s->fp->p, sig->sscheme->cvp->n) != 0)) {
-- 
2.43.0


From 197e78311d68ff7581c93a8571c9f1ad3b531aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 12/31] fix: ElGamal decryption aborted when C and D refer to
 separate curve objects

Equal curves are accepted, different curves are reported as an error.
---
 src/ecelgamal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecelgamal.c b/src/ecelgamal.c
index 30083fc..9a2d5b3 100644
--- a/src/ecelgamal.c
+++ b/src/ecelgamal.c
@@ -62,7 +62,9 @@ int mpECElgamal_init_encrypt(mpECElgamalCiphertext_t ctxt, mpECP_t pK, mpECP_t p
 }
 
 int mpECElgamal_init_decrypt(mpECP_t ptxt, mpFp_t sK, mpECElgamalCiphertext_t ctxt) {
-    assert(ctxt->C->cvp == ctxt->D->cvp);
+    if (mpECurve_cmp(ctxt->C->cvp, ctxt->D->cvp) != 0) {
+        return -1;
+    }
     if (mpz_cmp(sK->fp->p, ctxt->C->cvp->n) != 0) {
         return -1;
     }
-- 
2.43.0


From c81d7c158d632e8bc65124b1d5f0de4778cb1ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 13/31] fix: safe-clean memory functions left data behind in
 freed blocks

A block that had been shrunk was only cleared up to its reduced size, and
clearing right before free could be removed by the compiler.
---
 src/safememory.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/safememory.c b/src/safememory.c
index 0770740..2712dd3 100644
--- a/src/safememory.c
+++ b/src/safememory.c
@@ -34,10 +34,16 @@
 #include <string.h>
 #include <stdlib.h>
 
+// call memset through a volatile pointer so that the compiler cannot elide
+// clearing of memory which is about to be released
+static void *(*volatile _clean_memset)(void *, int, size_t) = memset;
+
 void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     void *ret;
 
     if (__GMP_LIKELY(newsz <= oldsz)) {
+        // the tail is not part of the block any more (when it is freed)
+        _clean_memset((char *)old + newsz, 0, oldsz - newsz);
         return old;
     }
 
@@ -48,14 +54,14 @@ void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     }
 
     memcpy(ret, old, oldsz);
-    memset(old, 0, oldsz);
+    _clean_memset(old, 0, oldsz);
     free(old);
 
     return ret;
 }
 
 void _safe_clean_free(void *old, size_t oldsz) {
-    memset(old, 0, oldsz);
+    _clean_memset(old, 0, oldsz);
     free (old);
 }
 
-- 
2.43.0


From 1d76ef0c2d085bb4316530771eb72f977bf3c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 14/31] fix: random numbers repeated in parent and child after
 fork

Both processes kept consuming the same stdio buffer of /dev/urandom.
---
 src/mpzurandom.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index 23eec45..c5205d9 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -50,6 +50,8 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     if (_f_urandom == NULL) {
         _f_urandom = fopen("/dev/urandom", "rb");
         assert(_f_urandom != NULL);
+        // no buffering, a buffer would be shared with the children after fork()
+        setvbuf(_f_urandom, NULL, _IONBF, 0);
         atexit(_close_f_urandom);
     }
     // bytes intentionally long to ensure uniformity, will truncate with modulo
-- 
2.43.0


From d7b5a4d73bcf9f758d6df6eee948dab173519fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 15/31] fix: first use of a field or of the random source was a
 race between threads

Concurrent appends to the field list could lose entries, so that equal
fields got distinct identities, and the random source could be opened twice.
---
 src/field.c      | 47 ++++++++++++++++++++++++++++++-----------------
 src/mpzurandom.c | 21 +++++++++++++++------
 2 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/src/field.c b/src/field.c
index b1145bc..8fb483e 100644
--- a/src/field.c
+++ b/src/field.c
@@ -107,7 +107,7 @@ static void _cleanup_field_list(void) {
 
 mpFp_field_ptr _mpFp_field_lookup(mpz_t p) {
     _mpFp_field_list_t **l;
-    _mpFp_field_list_t *l_this;
+    _mpFp_field_list_t *l_this, *l_new;
 
     size_t psz;
 
@@ -116,28 +116,41 @@ mpFp_field_ptr _mpFp_field_lookup(mpz_t p) {
     // definition of contstant and recomile library
     assert ((psz * 2) <= _MPFP_MAX_LIMBS);
 
-    if (_static_field_list == NULL) {
-        atexit(&_cleanup_field_list);
-    }
-
+    // NOTE: the list is append-only, and shared between threads. Entries are
+    // complete (and never change) once they are reachable
+    l_new = NULL;
     l = &_static_field_list;
-    while (*l != NULL) {
-        l_this = *l;
+    for (;;) {
+        l_this = __atomic_load_n(l, __ATOMIC_ACQUIRE);
+        if (l_this == NULL) {
+            if (l_new == NULL) {
+                l_new = (_mpFp_field_list_t *)malloc(sizeof(_mpFp_field_list_t));
+                assert(l_new != NULL);
+                l_new->fp = (mpFp_field_ptr)malloc(sizeof(_mpFp_field_struct));
+                assert(l_new->fp != NULL);
+                mpFp_field_init(l_new->fp);
+                mpFp_field_set_mpz(l_new->fp, p);
+                l_new->next = NULL;
+            }
+            if (__atomic_compare_exchange_n(l, &l_this, l_new, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
+                if (l == &_static_field_list) {
+                    atexit(&_cleanup_field_list);
+                }
+                //gmp_printf("created field Fp: p = 0x%ZX\n", p);
+                return l_new->fp;
+            }
+            // some other thread was faster, l_this is the entry it appended
+        }
         if (mpz_cmp(l_this->fp->p, p) == 0) {
+            if (l_new != NULL) {
+                mpFp_field_clear(l_new->fp);
+                free(l_new->fp);
+                free(l_new);
+            }
             return l_this->fp;
         }
         l = &(l_this->next);
     }
-    l_this = (_mpFp_field_list_t *)malloc(sizeof(_mpFp_field_list_t));
-    assert(l_this != NULL);
-    l_this->fp = (mpFp_field_ptr)malloc(sizeof(_mpFp_field_struct));
-    assert(l_this->fp != NULL);
-    *l = l_this;
-    mpFp_field_init(l_this->fp);
-    mpFp_field_set_mpz(l_this->fp, p);
-    l_this->next = NULL;
-    //gmp_printf("created field Fp: p = 0x%ZX\n", p);
-    return l_this->fp;
 }
 
 static inline void mpFp_realloc(mpFp_t c) {
diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index c5205d9..c75f09c 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -47,17 +47,26 @@ static void _close_f_urandom(void) {
 void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     int bytes, sz_read;
     char *buffer;
-    if (_f_urandom == NULL) {
-        _f_urandom = fopen("/dev/urandom", "rb");
-        assert(_f_urandom != NULL);
+    FILE *f;
+    f = __atomic_load_n(&_f_urandom, __ATOMIC_ACQUIRE);
+    if (f == NULL) {
+        FILE *other = NULL;
+        f = fopen("/dev/urandom", "rb");
+        assert(f != NULL);
         // no buffering, a buffer would be shared with the children after fork()
-        setvbuf(_f_urandom, NULL, _IONBF, 0);
-        atexit(_close_f_urandom);
+        setvbuf(f, NULL, _IONBF, 0);
+        // another thread may be opening the source at the same time
+        if (__atomic_compare_exchange_n(&_f_urandom, &other, f, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
+            atexit(_close_f_urandom);
+        } else {
+            fclose(f);
+            f = other;
+        }
     }
     // bytes intentionally long to ensure uniformity, will truncate with modulo
     bytes = ((mpz_sizeinbase(rand_max,2) + 7) >> 3) * 2;
     buffer = (char *)malloc((bytes) * sizeof(char));
-    sz_read = fread(buffer, sizeof(char), bytes, _f_urandom);
+    sz_read = fread(buffer, sizeof(char), bytes, f);
     assert(sz_read == bytes);
     mpz_import(rop, sz_read, 1, sizeof(char), 0, 0, buffer);
     mpz_mod(rop, rop, rand_max);
-- 
2.43.0


From e70ea778ad00c0f32525937ffc8046e8a578bf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 16/31] fix: points kept references to the curve object of
 another point

Adding to the neutral element attached the result to the curve object of the
second operand, and swapping points left precomputed tables attached to the
other point's curve object, which may be destroyed first.
---
 src/ecpoint.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 56e8130..b4dff32 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -87,6 +87,15 @@ static void _mpECP_base_pts_cleanup(mpECP_t pt) {
     pt->base_bits = 0;
 }
 
+static void _mpECP_base_pts_set_curve(mpECP_t pt) {
+    int i, npts;
+    if (pt->base_bits == 0) return;
+    npts = _mpECP_n_base_pts(pt);
+    for (i = 0; i < npts; i++) {
+        pt->base_pt[i].cvp = pt->cvp;
+    }
+}
+
 static int _known_curve_type(mpECurve_t cv) {
     return (cv->type == EQTypeShortWeierstrass) || 
         (cv->type == EQTypeEdwards) ||
@@ -746,6 +755,11 @@ void mpECP_swap(mpECP_t pt2, mpECP_t pt1) {
     t_base_pt = pt2->base_pt;
     pt2->base_pt = pt1->base_pt;
     pt1->base_pt = t_base_pt;
+    // precomputed points must refer to the curve object of the point they belong to
+    if (pt1->cvp != pt2->cvp) {
+        _mpECP_base_pts_set_curve(pt1);
+        _mpECP_base_pts_set_curve(pt2);
+    }
     return;
 }
 
@@ -782,7 +796,10 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
             mpECP_set_neutral(rpt, pt1->cvp);
             return;
         } else {
+            mpECurve_ptr cvp = pt1->cvp;
             mpECP_set(rpt, pt2);
+            // as for any other sum, result refers to the curve of the first operand
+            rpt->cvp = cvp;
             return;
         }
     } else if (pt2->is_neutral != 0) {
-- 
2.43.0


From 07b8f1c1438c66529164b972594ae5d2c03694e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 17/31] fix: signature import accepted text that is not
 hexadecimal

Whitespace, signs and single digits were taken by sscanf.
---
 src/ecdsa.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index d74a9b8..1eaacc2 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -29,6 +29,7 @@
 //OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <assert.h>
+#include <ctype.h>
 #include <ecc/ecdsa.h>
 #include <ecc/ecpoint.h>
 #include <ecc/ecurve.h>
@@ -347,8 +348,11 @@ int mpECDSASignature_init_import_str(mpECDSASignature_t sig, mpECDSASignatureSch
     bsz = ssz >> 1;
     bbytes = (unsigned char *)malloc(bsz * sizeof(char));
     for (i = 0; i < bsz; i++) {
-        int iread;
-        iread = sscanf(&ssig[i<<1], "%02hhX", &bbytes[i]);
+        int iread = 0;
+        // sscanf alone would accept whitespace, sign or 0x prefix
+        if (isxdigit((unsigned char)ssig[i<<1]) && isxdigit((unsigned char)ssig[(i<<1)+1])) {
+            iread = sscanf(&ssig[i<<1], "%02hhX", &bbytes[i]);
+        }
         if (iread != 1) {
             memset(bbytes, 0, bsz);
             free(bbytes);
-- 
2.43.0


From 4bda61e7bdb538285ca07579d511c5ed2ed16fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 18/31] fix: ECDSA signing looped forever on curves that admit
 no signature

---
 src/ecdsa.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 1eaacc2..2a20899 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -99,6 +99,7 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
     mpz_t r;
     mpECP_t R;
     int status;
+    int tries = 0;
 
     if (sscheme == NULL) return -1;
 
@@ -123,6 +124,17 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
     free(hash);
     mpFp_set_mpz(e_n, e, sscheme->cvp->n);
 new_random:
+    // no signature exists if the curve parameters are degenerate (e.g. a neutral generator)
+    if (tries++ >= 1024) {
+        mpECP_clear(R);
+        mpz_clear(e);
+        mpz_clear(r);
+        mpFp_clear(e_n);
+        mpFp_clear(s_n);
+        mpFp_clear(r_n);
+        mpFp_clear(k_n);
+        return -1;
+    }
     mpFp_urandom(k_n, sscheme->cvp->n);
     if (__GMP_UNLIKELY(mpFp_cmp_ui(k_n, 0) == 0)) goto new_random;
 
-- 
2.43.0


From cd8da8eb632e73213a98abd5e123dcd42c395319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 19/31] fix: ECDSA signing forgot the message hash when it
 retried after s = 0

---
 src/ecdsa.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 2a20899..5fe3821 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -145,9 +145,10 @@ new_random:
 
     mpFp_mul(s_n, r_n, sK);
     mpFp_add(s_n, s_n, e_n);
-    status = mpFp_inv(e_n, k_n);
+    // e_n must survive in case another random value is needed
+    status = mpFp_inv(k_n, k_n);
     if (status != 0) goto new_random;
-    mpFp_mul(s_n, s_n, e_n);
+    mpFp_mul(s_n, s_n, k_n);
     if (__GMP_UNLIKELY(mpFp_cmp_ui(s_n, 0) == 0)) goto new_random;
 
     mpFp_init(sig->r, sscheme->cvp->n);
-- 
2.43.0


From 26ab8cf10329ed6d0b68d7418352622ef47872e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:07 +0000
Subject: [PATCH 20/31] fix: a random number drawn into the object that holds
 its bound was always zero

---
 src/mpzurandom.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index c75f09c..d7a298d 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -48,6 +48,7 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     int bytes, sz_read;
     char *buffer;
     FILE *f;
+    mpz_t r;
     f = __atomic_load_n(&_f_urandom, __ATOMIC_ACQUIRE);
     if (f == NULL) {
         FILE *other = NULL;
@@ -68,8 +69,11 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     buffer = (char *)malloc((bytes) * sizeof(char));
     sz_read = fread(buffer, sizeof(char), bytes, f);
     assert(sz_read == bytes);
-    mpz_import(rop, sz_read, 1, sizeof(char), 0, 0, buffer);
-    mpz_mod(rop, rop, rand_max);
+    // rop may be the same object as rand_max
+    mpz_init(r);
+    mpz_import(r, sz_read, 1, sizeof(char), 0, 0, buffer);
+    mpz_mod(rop, r, rand_max);
+    mpz_clear(r);
     free(buffer);
     return;
 }
-- 
2.43.0


From ee32f9a71a6807666014e5648284695ab0fa9e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 21/31] fix: square root did not end or aborted for modulus 2
 and moduli that are not prime

---
 src/field.c | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/field.c b/src/field.c
index 8fb483e..b9a2997 100644
--- a/src/field.c
+++ b/src/field.c
@@ -686,6 +686,14 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
     int s;
     int leg_op;
     mpz_t t, q, opi;
+    if (mpz_even_p(op->fp->p)) {
+        // p = 2 is the only even prime, and x**2 = x there
+        if (mpz_cmp_ui(op->fp->p, 2) != 0) {
+            return -1;
+        }
+        mpFp_set(rop, op);
+        return 0;
+    }
     mpz_init(opi);
     mpz_set_mpFp(opi, op);
     // determine whether i is a quadratic residue (mod p)
@@ -694,10 +702,20 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
         mpz_clear(opi);
         return -1;
     } else if (leg_op == 0) {
+        if (mpz_sgn(opi) != 0) {
+            // p is not prime
+            mpz_clear(opi);
+            return -1;
+        }
         mpFp_set_ui_fp(rop, 0, op->fp);
         mpz_clear(opi);
         return 0;
     }
+    if (mpz_perfect_square_p(op->fp->p)) {
+        // p is not prime (and has no quadratic nonresidue in the sense of mpz_legendre)
+        mpz_clear(opi);
+        return -1;
+    }
     mpz_init(t);
     mpz_init(q);
 
@@ -713,9 +731,7 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
         // p = 3 mod 4 case, sqrt by exponentiation
         mpz_add_ui(t, op->fp->p, 1);
         mpz_tdiv_q_ui(t, t, 4);
-        rop->fp = op->fp;
-        mpFp_realloc(rop);
-        mpz_powm(rop->i, opi, t, op->fp->p);
+        mpz_powm(t, opi, t, op->fp->p);
     } else {
         int m;
         mpz_t z, c, r, b;
@@ -737,7 +753,8 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
         while (1) {
             int i;
 
-            if (mpz_cmp_ui(t, 1) == 0) {
+            // m > 1 always if p is prime
+            if ((mpz_cmp_ui(t, 1) == 0) || (m <= 1)) {
                 break;
             }
             mpz_set(z, t);
@@ -760,17 +777,25 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
             //mpz_set(m, i);
             m = i;
         }
-        rop->fp = op->fp;
-        mpFp_realloc(rop);
-        mpz_set(rop->i, r);
+        mpz_set(t, r);
         mpz_clear(b);
         mpz_clear(r);
         mpz_clear(c);
         mpz_clear(z);
     }
+    // the result is a root unless p is not prime
+    mpz_powm_ui(q, t, 2, op->fp->p);
+    s = mpz_cmp(q, opi);
     mpz_clear(q);
-    mpz_clear(t);
     mpz_clear(opi);
+    if (s != 0) {
+        mpz_clear(t);
+        return -1;
+    }
+    rop->fp = op->fp;
+    mpFp_realloc(rop);
+    mpz_set(rop->i, t);
+    mpz_clear(t);
 
     if (__GMP_UNLIKELY(rop->i->_mp_size < op->fp->psize)) {
         int i;
-- 
2.43.0


From 7e12566d9289a71e0eb6e9c0afac2fd7ec575124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 22/31] fix: Python integers of 2048 bits and more overflowed
 the stack or became zero

---
 python/pygmplong.c | 48 ++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/python/pygmplong.c b/python/pygmplong.c
index b342e65..8588ffe 100644
--- a/python/pygmplong.c
+++ b/python/pygmplong.c
@@ -32,10 +32,8 @@
 #include <pygmplong.h>
 #include <Python.h>
 
-#define _MPFP_MAX_LIMBS   (32)
-
 int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
+	unsigned char *pdata;
 	size_t psz;
 	int status;
 	int negative;
@@ -53,39 +51,42 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
 	//printf("psz = %d\n", psz);
 	psz >>= 3;
 
-	if (psz > sizeof(pdata)) {
+	pdata = (unsigned char *)PyMem_Malloc(psz+1);
+	if (pdata == NULL) {
 		return -1;
 	}
 	
 	// convert to bytes, initial 1 implies little endian, final 1 implies signed
-	status = _PyLong_AsByteArray(pobj, (unsigned char *)pdata, psz+1, 1, 1);
+	status = _PyLong_AsByteArray(pobj, pdata, psz+1, 1, 1);
 
 	//{
 	//	int i;
 	//	printf("p= 0x");
 	//	for (i = 0; i <= psz; i++) {
-	//		printf("%02X", ((unsigned char *)pdata)[i]);
+	//		printf("%02X", pdata[i]);
 	//	}
 	//	printf("\n");
 	//}
 
 	if (status != 0) {
+		PyMem_Free(pdata);
 		return -1;
 	}
 
 	// mpz_import is inherently unsigned... detect sign
-	negative = (((unsigned char *)pdata)[psz] & 0x80) != 0;
+	negative = (pdata[psz] & 0x80) != 0;
 	
 	// take 1's complement if negative
 	if (negative) {
-		int i;
+		size_t i;
 		for (i = 0; i <= psz; i++) {
-			((unsigned char *)pdata)[i] ^= 0xFF;
+			pdata[i] ^= 0xFF;
 		}
 	}
 
 	// convert bytes to mpz, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
 	mpz_import(pmpz, psz+1, -1, sizeof(unsigned char), -1, 0, (void *)pdata);
+	PyMem_Free(pdata);
 
 	// convert to 2's complement and negate 	
 	if (negative) {
@@ -97,7 +98,7 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
 }
 
 int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
+	unsigned char *pdata;
 	size_t psz;
 	int status;
 
@@ -113,34 +114,49 @@ int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
 	psz = _PyLong_NumBits((PyObject*)pobj);
 	psz >>= 3;
 
-	if (psz > sizeof(pdata)) {
+	pdata = (unsigned char *)PyMem_Malloc(psz+1);
+	if (pdata == NULL) {
 		return -1;
 	}
 
 	// convert to bytes, 1 implies little endian, 0 implies unsigned
-	status = _PyLong_AsByteArray(pobj, (unsigned char *)pdata, psz+1, 1, 0);
+	status = _PyLong_AsByteArray(pobj, pdata, psz+1, 1, 0);
 
 	if (status != 0) {
+		PyMem_Free(pdata);
 		return -1;
 	}
 
 	// convert bytes to mpz, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
 	mpz_import(pmpz, psz+1, -1, sizeof(unsigned char), -1, 0, (void *)pdata);
+	PyMem_Free(pdata);
 	
 	return 0;
 }
 
 PyObject *_mpz_to_pylong(mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
+	unsigned char *pdata;
 	size_t countp;
+	PyObject *rop;
 
-	countp = sizeof(pdata);
+	// one byte more than needed, as an mpz with zero value exports no bytes
+	pdata = (unsigned char *)PyMem_Malloc((mpz_sizeinbase(pmpz, 2) + 7) / 8 + 1);
+	if (pdata == NULL) {
+		return PyErr_NoMemory();
+	}
 
 	mpz_export((void *)pdata, &countp, -1, sizeof(unsigned char), -1, 0, pmpz);
 
-	// convert from bytes, 1 implies little endian, 0 implies unsigned
+	// convert (magnitude) from bytes, 1 implies little endian, 0 implies unsigned
 	// note, the mpz zero repr (no data written to pdata and countp=0 is correctly handled)
-	return _PyLong_FromByteArray((unsigned char*)pdata, countp, 1, (pmpz->_mp_size < 0));
+	rop = _PyLong_FromByteArray(pdata, countp, 1, 0);
+	PyMem_Free(pdata);
+	if ((rop != NULL) && (mpz_sgn(pmpz) < 0)) {
+		PyObject *neg = PyNumber_Negative(rop);
+		Py_DECREF(rop);
+		rop = neg;
+	}
+	return rop;
 }
 
 PyObject *_mpFp_to_pylong(mpFp_t pFp) {
-- 
2.43.0


From 26f60bf1ea2d833502919897a0169b1d82ea6642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 23/31] fix: Python field elements crashed on unrelated
 operands and unusable moduli

---
 python/pyfield.c | 114 ++++++++++++++++++++++++++++++++++++++---------
 python/pyfield.h |   3 ++
 2 files changed, 95 insertions(+), 22 deletions(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index 4e0ad91..7dc1e4b 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -47,6 +47,20 @@ static inline void mpFp_realloc(mpFp_t c) {
     }
 }
 
+// the values supported by mpFp (see _mpFp_field_init)
+static int _modulus_valid(mpz_t p) {
+	return (mpz_cmp_ui(p, 1) > 0) && ((mpz_size(p) * 2) <= _MPFP_MAX_LIMBS);
+}
+
+// self is a FieldElement which has been through __init__, else set an exception
+static int _require_ready(FieldElement *self) {
+	if (!self->ready) {
+		PyErr_SetString(PyExc_ValueError, "FieldElement not initialized");
+		return 0;
+	}
+	return 1;
+}
+
 PyDoc_STRVAR(FieldElement__doc__,
 "FieldElement implements a prime field element type.\n");
 
@@ -79,6 +93,11 @@ static int FieldElement_init(FieldElement *self, PyObject *args, PyObject *kwarg
 		return -1;
 	}
 
+	if (self->ready) {
+		PyErr_SetString(PyExc_TypeError, "FieldElement is already initialized");
+		return -1;
+	}
+
 	mpz_init(pmpz);
 	status = _pylong_to_mpz_unsigned(p, pmpz);
 	if (status != 0) {
@@ -86,6 +105,11 @@ static int FieldElement_init(FieldElement *self, PyObject *args, PyObject *kwarg
 		mpz_clear(pmpz);
 		return -1;
 	}
+	if (!_modulus_valid(pmpz)) {
+		PyErr_SetString(PyExc_ValueError, "FieldElement modulus out of range");
+		mpz_clear(pmpz);
+		return -1;
+	}
 
 	mpz_init(impz);
     status = _pylong_to_mpz(i, impz);
@@ -123,6 +147,10 @@ static PyObject *FieldElement_op_int(FieldElement *self, PyObject *none) {
 	PyObject *rop;
 	mpz_t t;
 
+	if (!_require_ready(self)) {
+		return NULL;
+	}
+
 	mpz_init(t);
 
 	// convert mpz to bytes, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
@@ -161,19 +189,18 @@ static PyObject *FieldElement_op_add_pylong(FieldElement *op1, PyLongObject *op2
 static PyObject *FieldElement_op_add(FieldElement *op1, FieldElement *op2) {
 	FieldElement *rop;
 
-	if(!PyObject_TypeCheck((PyObject *)op1, &FieldElementType)) {
-		if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	if(!FieldElement_Ready((PyObject *)op1)) {
+		if(FieldElement_Ready((PyObject *)op2) && PyLong_Check((PyObject *)op1)) {
 			return FieldElement_op_add(op2, op1);
 		}
-		PyErr_SetString(PyExc_TypeError, "expected FieldElement, got something else.");
-		return NULL;
+		Py_RETURN_NOTIMPLEMENTED;
 	}
 	
 	if(PyLong_Check((PyObject *)op2)) {
 		return FieldElement_op_add_pylong(op1, (PyLongObject *)op2);
 	}
 	
-	if(!PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	if(!FieldElement_Ready((PyObject *)op2)) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 	
@@ -218,13 +245,16 @@ static PyObject *FieldElement_op_sub_pylong(FieldElement *op1, PyLongObject *op2
 static PyObject *FieldElement_op_sub(FieldElement *op1, FieldElement *op2) {
 	FieldElement *rop;
 
-	if(!PyObject_TypeCheck((PyObject *)op1, &FieldElementType)) {
-		if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	if(!FieldElement_Ready((PyObject *)op1)) {
+		if(FieldElement_Ready((PyObject *)op2) && PyLong_Check((PyObject *)op1)) {
 			PyObject *nop1;
 			PyObject *nop2;
-			nop1 = (Py_TYPE(op1))->tp_as_number->nb_negative((PyObject *)op1);
-			nop2 = (Py_TYPE(op2))->tp_as_number->nb_negative((PyObject *)op2);
+			// explicitly the integer negation (a subclass could return anything)
+			nop1 = PyLong_Type.tp_as_number->nb_negative((PyObject *)op1);
+			nop2 = FieldElementType.tp_as_number->nb_negative((PyObject *)op2);
 			if ((nop1 == NULL) || (nop2 == NULL)) {
+				Py_XDECREF(nop1);
+				Py_XDECREF(nop2);
 				return NULL;
 			}
 			rop = (FieldElement *)FieldElement_op_sub((FieldElement *)nop2, (FieldElement *)nop1);
@@ -232,15 +262,14 @@ static PyObject *FieldElement_op_sub(FieldElement *op1, FieldElement *op2) {
 			Py_DECREF(nop2);
 			return (PyObject *)rop;
 		}
-		PyErr_SetString(PyExc_TypeError, "expected FieldElement, got something else.");
-		return NULL;
+		Py_RETURN_NOTIMPLEMENTED;
 	}
 	
 	if(PyLong_Check((PyObject *)op2)) {
 		return FieldElement_op_sub_pylong(op1, (PyLongObject *)op2);
 	}
 	
-	if(!PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	if(!FieldElement_Ready((PyObject *)op2)) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 	
@@ -285,19 +314,18 @@ static PyObject *FieldElement_op_mul_pylong(FieldElement *op1, PyLongObject *op2
 static PyObject *FieldElement_op_mul(FieldElement *op1, FieldElement *op2) {
 	FieldElement *rop;
 
-	if(!PyObject_TypeCheck((PyObject *)op1, &FieldElementType)) {
-		if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	if(!FieldElement_Ready((PyObject *)op1)) {
+		if(FieldElement_Ready((PyObject *)op2) && PyLong_Check((PyObject *)op1)) {
 			return FieldElement_op_mul(op2, op1);
 		}
-		PyErr_SetString(PyExc_TypeError, "expected FieldElement, got something else.");
-		return NULL;
+		Py_RETURN_NOTIMPLEMENTED;
 	}
 	
 	if(PyLong_Check((PyObject *)op2)) {
 		return FieldElement_op_mul_pylong(op1, (PyLongObject *)op2);
 	}
 	
-	if(!PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	if(!FieldElement_Ready((PyObject *)op2)) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 	
@@ -317,6 +345,10 @@ static PyObject *FieldElement_op_mul(FieldElement *op1, FieldElement *op2) {
 
 static PyObject *FieldElement_op_neg(FieldElement *op1) {
 	FieldElement *rop;
+
+	if (!_require_ready(op1)) {
+		return NULL;
+	}
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
 	mpz_init(rop->fe->i);
@@ -330,6 +362,10 @@ static PyObject *FieldElement_op_neg(FieldElement *op1) {
 static PyObject *FieldElement_op_multiplicative_inverse(FieldElement *op1, PyObject *none) {
 	FieldElement *rop;
 	int status;
+
+	if (!_require_ready(op1)) {
+		return NULL;
+	}
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
 	mpz_init(rop->fe->i);
@@ -338,6 +374,7 @@ static PyObject *FieldElement_op_multiplicative_inverse(FieldElement *op1, PyObj
     status = mpFp_inv(rop->fe, op1->fe);
     if (__GMP_UNLIKELY(status != 0)) {
 		mpz_clear(rop->fe->i);
+		Py_DECREF(rop);
     	Py_RETURN_NONE;
     }
 	rop->ready = 1;
@@ -347,6 +384,14 @@ static PyObject *FieldElement_op_multiplicative_inverse(FieldElement *op1, PyObj
 static PyObject *FieldElement_op_sqrt(FieldElement *op1, PyObject *none) {
 	FieldElement *rop;
 	int status;
+
+	if (!_require_ready(op1)) {
+		return NULL;
+	}
+	if (mpz_probab_prime_p(op1->fe->fp->p, 25) == 0) {
+		PyErr_SetString(PyExc_ValueError, "FieldElement modulus is not prime");
+		return NULL;
+	}
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
 	mpz_init(rop->fe->i);
@@ -355,6 +400,7 @@ static PyObject *FieldElement_op_sqrt(FieldElement *op1, PyObject *none) {
     status = mpFp_sqrt(rop->fe, op1->fe);
     if (status != 0) {
 		mpz_clear(rop->fe->i);
+		Py_DECREF(rop);
     	Py_RETURN_NONE;
     }
 	rop->ready = 1;
@@ -381,6 +427,11 @@ static PyObject *FieldElement_urandom(PyObject *none, PyObject *plong) {
 		mpz_clear(pmpz);
 		return NULL;
 	}
+	if (!_modulus_valid(pmpz)) {
+		PyErr_SetString(PyExc_ValueError, "FieldElement modulus out of range");
+		mpz_clear(pmpz);
+		return NULL;
+	}
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
     mpFp_urandom(rop->fe, pmpz);
@@ -396,7 +447,9 @@ static PyObject *FieldElement_urandom(PyObject *none, PyObject *plong) {
 static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 	int result = 0;
 
-	assert(PyObject_TypeCheck(a, &FieldElementType) != 0);
+	if (!FieldElement_Ready(a)) {
+		Py_RETURN_NOTIMPLEMENTED;
+	}
 
 	if (PyLong_Check(b)) {
 		mpz_t bmpz;
@@ -404,9 +457,9 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 		
 		mpz_init(bmpz);
 		status = _pylong_to_mpz((PyLongObject *)b, bmpz);
-		assert(status == 0);
 		if (status != 0) {
 			PyErr_SetString(PyExc_TypeError, "Error converting integer to mpz_t");
+			mpz_clear(bmpz);
 			return NULL;
 		}
 		switch (op) {
@@ -421,11 +474,21 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 			}
 			break;
 		default:
+			mpz_clear(bmpz);
 			Py_RETURN_NOTIMPLEMENTED;
 		}
 		mpz_clear(bmpz);
 	} else {
-		if (!PyObject_TypeCheck((PyObject *)b, &FieldElementType)) {
+		if (!FieldElement_Ready(b)) {
+			Py_RETURN_NOTIMPLEMENTED;
+		}
+		if (((FieldElement *)a)->fe->fp != ((FieldElement *)b)->fe->fp) {
+			// elements of different fields are never equal (mpFp_cmp requires the same field)
+			if (op == Py_EQ) {
+				Py_RETURN_FALSE;
+			} else if (op == Py_NE) {
+				Py_RETURN_TRUE;
+			}
 			Py_RETURN_NOTIMPLEMENTED;
 		}
 		switch (op) {
@@ -455,6 +518,10 @@ static PyObject *FieldElement_op_power(FieldElement *a, FieldElement *b, PyObjec
 	mpz_t bmpz;
 	unsigned long bui;
 	int status;
+
+	if (!FieldElement_Ready((PyObject *)a) || !PyLong_Check((PyObject *)b)) {
+		Py_RETURN_NOTIMPLEMENTED;
+	}
 	
 	if (c != Py_None) {
 		PyErr_SetString(PyExc_ValueError, "Optional 3rd argument to pow() not supported for Type");
@@ -490,9 +557,12 @@ static PyObject *FieldElement_repr(PyObject *a) {
 	PyObject *i;
 	PyObject *p;
 	PyObject *rep;
-	assert(PyObject_TypeCheck(a, &FieldElementType) != 0);
+
+	if (!_require_ready((FieldElement *)a)) {
+		return NULL;
+	}
 	
-	i = _mpz_to_pylong(((FieldElement *)a)->fe->i);
+	i = _mpFp_to_pylong(((FieldElement *)a)->fe);
 	assert(i != NULL);
 	p = _mpz_to_pylong(((FieldElement *)a)->fe->fp->p);
 	assert(p != NULL);
diff --git a/python/pyfield.h b/python/pyfield.h
index c5a9a2b..e72d96a 100644
--- a/python/pyfield.h
+++ b/python/pyfield.h
@@ -47,6 +47,9 @@ typedef struct {
 
 extern PyTypeObject FieldElementType;
 
+// true for an object of the type (or a subtype) which has been through __init__
+#define FieldElement_Ready(o) (PyObject_TypeCheck((PyObject *)(o), &FieldElementType) && ((FieldElement *)(o))->ready)
+
 #ifdef __cplusplus
 }
 #endif
-- 
2.43.0


From c661b8ca6e5ed2f00146c90d81fbefaf02aac458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 24/31] fix: Python points and ciphertexts referred to
 destroyed curves, leaked, or crashed on wrong types

---
 python/pycurve.c     |  37 ++++++++-----
 python/pycurve.h     |   3 ++
 python/pyecelgamal.c |  60 +++++++++++++++++-----
 python/pyecelgamal.h |   3 ++
 python/pypoint.c     | 120 +++++++++++++++++++++++++++++--------------
 python/pypoint.h     |   3 ++
 6 files changed, 163 insertions(+), 63 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index 41deffc..12c861e 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -39,6 +39,15 @@
 #include <Python.h>
 #include <structmember.h>
 
+// self is an ECurve which has been through __init__, else set an exception
+static int _require_ready(PyObject *self) {
+	if (!ECurve_Ready(self)) {
+		PyErr_SetString(PyExc_ValueError, "ECurve not initialized");
+		return 0;
+	}
+	return 1;
+}
+
 PyDoc_STRVAR(ECurve__doc__,
 "ECurve implements a general interface to elliptic curve parameters of multiple types.\n");
 
@@ -68,10 +77,16 @@ static int ECurve_init(ECurve *self, PyObject *args, PyObject *kwargs) {
 		return -1;
 	}
 
+	if (self->ready) {
+		PyErr_SetString(PyExc_TypeError, "ECurve is already initialized");
+		return -1;
+	}
+
 	mpECurve_init(self->ec);
     status = mpECurve_set_named(self->ec, name);
     
     if (status != 0) {
+		mpECurve_clear(self->ec);
 		PyErr_SetString(PyExc_ValueError, "Unable to find curve matching name");
 		return -1;
     }
@@ -96,9 +111,7 @@ static void ECurve_dealloc(ECurve *self) {
 static PyObject *ECurve_richcompare(PyObject *a, PyObject *b, int op) {
 	int result = 0;
 
-	assert(PyObject_TypeCheck(a, &ECurveType) != 0);
-
-	if (!PyObject_TypeCheck((PyObject *)b, &ECurveType)) {
+	if (!ECurve_Ready(a) || !ECurve_Ready(b)) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 
@@ -129,7 +142,7 @@ static PyObject *ECurve_check_point(PyObject *cv, PyObject *args) {
     int valid;
     int status;
 
-	assert(PyObject_TypeCheck(cv, &ECurveType) != 0);
+	if (!_require_ready(cv)) return NULL;
 
 	if (!PyArg_ParseTuple(args, "OO", &x, &y)) {
 		PyErr_SetString(PyExc_TypeError, "Error parsing ECurve_init arguments");
@@ -520,13 +533,12 @@ static PyObject *ECurve_list_curve_names(PyObject *type, PyObject *none) {
         assert(pstr != NULL);
         status = PyList_Append(clist, pstr);
         Py_DECREF(pstr);
-        if (status != 0) {
-            Py_DECREF(clist);
-            return NULL;
-        }
+        assert(status == 0);
+        free(list[i]);
 
         i++;
     }
+    free(list);
     return clist;
 }
 
@@ -535,7 +547,7 @@ static PyObject *ECurve_repr(PyObject *a) {
 	PyObject *p, *c1, *c2, *n, *h, *gx, *gy;
 	unsigned int bits;
 	PyObject *rep;
-	assert(PyObject_TypeCheck(a, &ECurveType) != 0);
+	if (!_require_ready(a)) return NULL;
 	
 	p = _mpz_to_pylong(((ECurve *)a)->ec->fp->p);
 	assert(p != NULL);
@@ -596,7 +608,7 @@ static PyObject *ECurve_repr(PyObject *a) {
 static PyObject *ECurve_getattr(PyObject *o, char *attr_name) {
     ECurve *cv;
     
-	assert(PyObject_TypeCheck(o, &ECurveType) != 0);
+	if (!_require_ready(o)) return NULL;
 	cv = (ECurve *)o;
 
     if (strcmp(attr_name, "p") == 0) {
@@ -627,10 +639,8 @@ static PyObject *ECurve_getattr(PyObject *o, char *attr_name) {
 
         status = PyTuple_SetItem(t, 0, gx);
         assert(status == 0);
-        Py_INCREF(gx);
         status = PyTuple_SetItem(t, 1, gy);
         assert(status == 0);
-        Py_INCREF(gy);
 
         return t;
     }
@@ -706,7 +716,8 @@ static PyObject *ECurve_getattro(PyObject *o, PyObject *attr_name) {
     }
 
 	assert(PyUnicode_Check(attr_name) != 0);
-    attr_nm_c = PyUnicode_AsUTF8(attr_name);
+    attr_nm_c = (char *)PyUnicode_AsUTF8(attr_name);
+    if (attr_nm_c == NULL) return NULL;
 
     return ECurve_getattr(o, attr_nm_c);
 }
diff --git a/python/pycurve.h b/python/pycurve.h
index 6d6f71f..4196893 100644
--- a/python/pycurve.h
+++ b/python/pycurve.h
@@ -47,6 +47,9 @@ typedef struct {
 
 extern PyTypeObject ECurveType;
 
+// true for an object of the type (or a subtype) which has been through __init__
+#define ECurve_Ready(o) (PyObject_TypeCheck((PyObject *)(o), &ECurveType) && ((ECurve *)(o))->ready)
+
 PyObject *PyECurve_FromECurve(mpECurve_t cv);
 
 #ifdef __cplusplus
diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index 933e3a7..de70bae 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -42,6 +42,15 @@
 #include <Python.h>
 #include <structmember.h>
 
+// self is an ECElgamalCiphertext which has been through __init__, else set an exception
+static int _require_ready(PyObject *self) {
+    if (!ECElgamalCiphertext_Ready(self)) {
+        PyErr_SetString(PyExc_ValueError, "ECElgamalCiphertext not initialized");
+        return 0;
+    }
+    return 1;
+}
+
 PyDoc_STRVAR(ECElgamalCiphertext__doc__,
 "ECElgamalCiphertext implements encoding of cipherext values for the elliptic"
 "curve variant of the Elgamal encryption system.\n");
@@ -72,12 +81,12 @@ static int ECElgamalCiphertext_init(ECElgamalCiphertext *self, PyObject *args, P
         return -1;
     }
 
-    if (!PyObject_TypeCheck((PyObject *)C, &ECPointType)) {
+    if (!ECPoint_Ready(C)) {
         PyErr_SetString(PyExc_TypeError, "ECElgamalCiphertext_init: expected ECPoint type as argument 1 (C)");
         return -1;
     }
 
-    if (!PyObject_TypeCheck((PyObject *)D, &ECPointType)) {
+    if (!ECPoint_Ready(D)) {
         PyErr_SetString(PyExc_TypeError, "ECElgamalCiphertext_init: expected ECPoint type as argument 2 (D)");
         return -1;
     }
@@ -87,6 +96,11 @@ static int ECElgamalCiphertext_init(ECElgamalCiphertext *self, PyObject *args, P
         return -1;
     }
 
+    if (self->ready) {
+        PyErr_SetString(PyExc_TypeError, "ECElgamalCiphertext is already initialized");
+        return -1;
+    }
+
     Py_INCREF((PyObject *)C->cv);
     self->cv = C->cv;
 
@@ -94,6 +108,8 @@ static int ECElgamalCiphertext_init(ECElgamalCiphertext *self, PyObject *args, P
     mpECP_set(self->ctxt->C, C->ecp);
     mpECP_init(self->ctxt->D, D->ecp->cvp);
     mpECP_set(self->ctxt->D, D->ecp);
+    // self holds a reference on the curve of C only
+    self->ctxt->D->cvp = self->cv->ec;
 
     // you're ready!
     self->ready = 1;
@@ -108,12 +124,14 @@ static PyObject *ECElgamalCiphertext_str(PyObject *self) {
     size_t sz;
     PyObject *str;
     
-    assert(PyObject_TypeCheck(self, &ECElgamalCiphertextType) != 0);
+    if (!_require_ready(self)) return NULL;
     egc = (ECElgamalCiphertext *)self;
 
     sz = mpECP_out_strlen(egc->ctxt->C, 1);
     Cstr = malloc((sz + 1)*sizeof(char));
     assert(Cstr != NULL);
+    // the neutral element is shorter than other points
+    sz = mpECP_out_strlen(egc->ctxt->D, 1);
     Dstr = malloc((sz + 1)*sizeof(char));
     assert(Dstr != NULL);
     mpECP_out_str(Cstr, egc->ctxt->C, 1);
@@ -130,9 +148,10 @@ static PyObject *ECElgamalCiphertext_repr(PyObject *self) {
     ECPoint *Dpt;
     PyObject *Cstr;
     PyObject *Dstr;
+    PyObject *rep = NULL;
     ECElgamalCiphertext *egc;
 
-    assert(PyObject_TypeCheck(self, &ECElgamalCiphertextType) != 0);
+    if (!_require_ready(self)) return NULL;
     egc = (ECElgamalCiphertext *)self;
 
 	Cpt = (ECPoint *)PyECPoint_FromECP(egc->ctxt->C);
@@ -140,7 +159,14 @@ static PyObject *ECElgamalCiphertext_repr(PyObject *self) {
     Cstr = Py_TYPE((PyObject *)Cpt)->tp_repr((PyObject *)Cpt);
     Dstr = Py_TYPE((PyObject *)Dpt)->tp_repr((PyObject *)Dpt);
 
-    return PyUnicode_FromFormat("ECC.ECElgamalCiphertext(%S, %S)", Cstr, Dstr);
+    if ((Cstr != NULL) && (Dstr != NULL)) {
+        rep = PyUnicode_FromFormat("ECC.ECElgamalCiphertext(%S, %S)", Cstr, Dstr);
+    }
+    Py_XDECREF(Dstr);
+    Py_XDECREF(Cstr);
+    Py_DECREF(Dpt);
+    Py_DECREF(Cpt);
+    return rep;
 }
 
 // deallocates the object when done
@@ -172,12 +198,12 @@ static PyObject *ECElgamalCiphertext_encrypt(PyObject *none, PyObject *args, PyO
         return NULL;
     }
 
-    if (!PyObject_TypeCheck((PyObject *)key, &ECPointType)) {
+    if (!ECPoint_Ready(key)) {
         PyErr_SetString(PyExc_TypeError, "ECElgamalCiphertext_init: expected ECPoint type as argument 1 (public key)");
         return NULL;
     }
 
-    if (!PyObject_TypeCheck((PyObject *)ptxt, &ECPointType)) {
+    if (!ECPoint_Ready(ptxt)) {
         PyErr_SetString(PyExc_TypeError, "ECElgamalCiphertext_init: expected ECPoint type as argument 2 (plaintext)");
         return NULL;
     }
@@ -192,11 +218,15 @@ static PyObject *ECElgamalCiphertext_encrypt(PyObject *none, PyObject *args, PyO
     status = mpECElgamal_init_encrypt(rop->ctxt, key->ecp, ptxt->ecp);
     if (status != 0) {
         PyErr_SetString(PyExc_RuntimeError, "ECElgamalCiphertext_init: unexpected error encrypting");
+        Py_DECREF(rop);
         return NULL;
     }
 
     Py_INCREF((PyObject *)key->cv);
     rop->cv = key->cv;
+    // rop holds a reference on the curve of the key only
+    rop->ctxt->C->cvp = rop->cv->ec;
+    rop->ctxt->D->cvp = rop->cv->ec;
     
     // you're ready!
     rop->ready = 1;
@@ -216,10 +246,10 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
     int status;
     ECElgamalCiphertext *egc;
 
-    assert(PyObject_TypeCheck(self, &ECElgamalCiphertextType) != 0);
+    if (!_require_ready(self)) return NULL;
     egc = (ECElgamalCiphertext *)self;
 
-    if (PyObject_TypeCheck(sK, &FieldElementType)) {
+    if (FieldElement_Ready(sK)) {
         feK = ((FieldElement *)sK)->fe;
 
         if (mpz_cmp(feK->fp->p, egc->ctxt->C->cvp->n) != 0) {
@@ -247,7 +277,7 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
         return NULL;
     }
 
-	rop = (ECPoint *)PyECPoint_FromECP(egc->ctxt->C);
+	rop = (ECPoint *)ECPointType.tp_new(&ECPointType, NULL, NULL);
 
     status = mpECElgamal_init_decrypt(rop->ecp, feK, egc->ctxt);
 
@@ -258,9 +288,14 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
 
     if (status != 0) {
         PyErr_SetString(PyExc_RuntimeError, "ECElgamalCiphertext_init: unexpected error decrypting");
+        Py_DECREF(rop);
         return NULL;
     }
 
+    Py_INCREF((PyObject *)egc->cv);
+    rop->cv = egc->cv;
+    rop->ecp->cvp = rop->cv->ec;
+
     // you're ready!
     rop->ready = 1;
     // all's clear
@@ -270,7 +305,7 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
 static PyObject *ECElgamalCiphertext_getattr(PyObject *o, char *attr_name) {
     ECElgamalCiphertext *egc;
 
-    assert(PyObject_TypeCheck(o, &ECElgamalCiphertextType) != 0);
+    if (!_require_ready(o)) return NULL;
     egc = (ECElgamalCiphertext *)o;
 
     if (strcmp(attr_name, "C") == 0) {
@@ -299,7 +334,8 @@ static PyObject *ECElgamalCiphertext_getattro(PyObject *o, PyObject *attr_name)
     }
 
 	assert(PyUnicode_Check(attr_name) != 0);
-    attr_nm_c = PyUnicode_AsUTF8(attr_name);
+    attr_nm_c = (char *)PyUnicode_AsUTF8(attr_name);
+    if (attr_nm_c == NULL) return NULL;
 
     return ECElgamalCiphertext_getattr(o, attr_nm_c);
 }
diff --git a/python/pyecelgamal.h b/python/pyecelgamal.h
index 2bf502a..44a7ba7 100644
--- a/python/pyecelgamal.h
+++ b/python/pyecelgamal.h
@@ -47,6 +47,9 @@ typedef struct {
 
 extern PyTypeObject ECElgamalCiphertextType;
 
+// true for an object of the type (or a subtype) which has been through __init__
+#define ECElgamalCiphertext_Ready(o) (PyObject_TypeCheck((PyObject *)(o), &ECElgamalCiphertextType) && ((ECElgamalCiphertext *)(o))->ready)
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/python/pypoint.c b/python/pypoint.c
index 4a9d2d8..9674e4c 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -41,6 +41,15 @@
 #include <Python.h>
 #include <structmember.h>
 
+// self is an ECPoint which has been through __init__, else set an exception
+static int _require_ready(PyObject *self) {
+	if (!ECPoint_Ready(self)) {
+		PyErr_SetString(PyExc_ValueError, "ECPoint not initialized");
+		return 0;
+	}
+	return 1;
+}
+
 PyDoc_STRVAR(ECPoint__doc__,
 "ECPoint implements a general interface to elliptic curve points and basic "
 "aritmetic operations on points.\n");
@@ -77,11 +86,16 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 		return -1;
 	}
 
-	if(!PyObject_TypeCheck((PyObject *)curve, &ECurveType)) {
+	if(!ECurve_Ready(curve)) {
 		PyErr_SetString(PyExc_TypeError, "ECPoint_init: expected ECurve type as argument 1");
 		return -1;
 	}
 
+	if (self->ready) {
+		PyErr_SetString(PyExc_TypeError, "ECPoint is already initialized");
+		return -1;
+	}
+
 	mpECP_init(self->ecp, ((ECurve *)curve)->ec);
 	self->cv = (ECurve *)curve;
 	Py_INCREF(curve);
@@ -93,7 +107,7 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 
             if (PyTuple_Size(initial) != 2) {
         		PyErr_SetString(PyExc_TypeError, "initializer tuple size mismatch");
-        		return -1;
+        		goto InitError;
             }
             
             ix = PyTuple_GetItem(initial, 0);
@@ -106,7 +120,7 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 
                 if (!PyLong_Check(iy)) {
         		    PyErr_SetString(PyExc_TypeError, "initializer tuple type mismatch");
-        		    return -1;
+        		    goto InitError;
                 }
                 
                 mpz_init(ixmpz);
@@ -119,16 +133,16 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 mpz_clear(iympz);
                 mpz_clear(ixmpz);
             } else {
-                if ((!PyObject_TypeCheck(ix, &FieldElementType)) || 
-                    (!PyObject_TypeCheck(iy, &FieldElementType))) {
+                if ((!FieldElement_Ready(ix)) || 
+                    (!FieldElement_Ready(iy))) {
         		    PyErr_SetString(PyExc_TypeError, "initializer tuple type mismatch");
-        		    return -1;
+        		    goto InitError;
                 }
 
                 if ((((FieldElement *)ix)->fe->fp != ((ECurve *)curve)->ec->fp) || 
                     (((FieldElement *)iy)->fe->fp != ((ECurve *)curve)->ec->fp)) {
         		    PyErr_SetString(PyExc_ValueError, "initializer tuple field order mismatch");
-        		    return -1;
+        		    goto InitError;
                 }
 
                 mpECP_set_mpFp(self->ecp, ((FieldElement *)ix)->fe,
@@ -138,11 +152,19 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
             if (PyUnicode_Check(initial)) {
                 char *buffer;
 
-                buffer = (char *)PyUnicode_AsUTF8(initial);
+                Py_ssize_t bsize;
+
+                buffer = (char *)PyUnicode_AsUTF8AndSize(initial, &bsize);
+                if (buffer == NULL) goto InitError;
+                // the text ends at the first NUL for mpECP_set_str
+                if (strlen(buffer) != (size_t)bsize) {
+            		PyErr_SetString(PyExc_ValueError, "invalid curve point");
+            		goto InitError;
+                }
                 status = mpECP_set_str(self->ecp,buffer,((ECurve *)curve)->ec);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "invalid curve point");
-            		return -1;
+            		goto InitError;
                 }
             } else if (PyBytes_Check(initial)) { 
             	unsigned char *buffer;
@@ -151,16 +173,16 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 status = PyBytes_AsStringAndSize(initial, (char **)&buffer, &bsize);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "unable to convert bytes initializer");
-            		return -1;
+            		goto InitError;
                 }
                 status = mpECP_set_bytes(self->ecp,buffer, (size_t)bsize, ((ECurve *)curve)->ec);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "invalid curve point");
-            		return -1;
+            		goto InitError;
                 }
             } else {
         		PyErr_SetString(PyExc_TypeError, "initializer type mismatch, expected unicode string");
-        		return -1;
+        		goto InitError;
                 //char *buffer;
                 //int len;
                 //if (!PyBytes_Check(initial) {
@@ -185,6 +207,12 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 	self->ready = 1;
 	// all's clear
 	return 0;
+
+InitError:
+	mpECP_clear(self->ecp);
+	self->cv = NULL;
+	Py_DECREF(curve);
+	return -1;
 }
 
 static PyObject *ECPoint_str(PyObject *self) {
@@ -193,7 +221,7 @@ static PyObject *ECPoint_str(PyObject *self) {
     PyObject *pointstr;
     ECPoint *ecself;
 
-	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
+	if (!_require_ready(self)) return NULL;
 	ecself = (ECPoint *)self;
 
 	bsize = mpECP_out_strlen(ecself->ecp, 1);
@@ -211,7 +239,7 @@ static PyObject *ECPoint_binary(PyObject *self) {
     PyObject *pointbin;
     ECPoint *ecself;
 
-	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
+	if (!_require_ready(self)) return NULL;
 	ecself = (ECPoint *)self;
 
 	bsize = mpECP_out_bytelen(ecself->ecp, 1);
@@ -229,7 +257,7 @@ static PyObject *ECPoint_binary_full(PyObject *self) {
     PyObject *pointbin;
     ECPoint *ecself;
 
-	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
+	if (!_require_ready(self)) return NULL;
 	ecself = (ECPoint *)self;
 
 	bsize = mpECP_out_bytelen(ecself->ecp, 0);
@@ -244,16 +272,25 @@ static PyObject *ECPoint_binary_full(PyObject *self) {
 static PyObject *ECPoint_repr(PyObject *self) {
     PyObject *pointstr;
     PyObject *cvstr;
+    PyObject *rep;
     ECPoint *ecself;
 
-	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
+	if (!_require_ready(self)) return NULL;
 	ecself = (ECPoint *)self;
 
     pointstr = ECPoint_str(self);
+    if (pointstr == NULL) return NULL;
 
-    cvstr = Py_TYPE((PyObject *)(ecself->cv))->tp_repr((PyObject *)(ecself->cv));
+    cvstr = PyObject_Repr((PyObject *)(ecself->cv));
+    if (cvstr == NULL) {
+        Py_DECREF(pointstr);
+        return NULL;
+    }
 
-	return PyUnicode_FromFormat("ECC.ECPoint(%S, \'%S\')", cvstr, pointstr);
+    rep = PyUnicode_FromFormat("ECC.ECPoint(%S, \'%S\')", cvstr, pointstr);
+    Py_DECREF(cvstr);
+    Py_DECREF(pointstr);
+    return rep;
 }
 
 // deallocates the object when done
@@ -271,9 +308,7 @@ static void ECPoint_dealloc(ECPoint *self) {
 static PyObject *ECPoint_richcompare(PyObject *a, PyObject *b, int op) {
 	int result = 0;
 
-	assert(PyObject_TypeCheck(a, &ECPointType) != 0);
-
-	if (!PyObject_TypeCheck((PyObject *)b, &ECPointType)) {
+	if (!ECPoint_Ready(a) || !ECPoint_Ready(b)) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 
@@ -301,8 +336,7 @@ static PyObject *ECPoint_richcompare(PyObject *a, PyObject *b, int op) {
 static PyObject *ECPoint_op_add(ECPoint *op1, ECPoint *op2) {
 	ECPoint *rop;
 
-	if ((!PyObject_TypeCheck((PyObject *)op1, &ECPointType)) ||
-		(!PyObject_TypeCheck((PyObject *)op2, &ECPointType))) {
+	if (!ECPoint_Ready(op1) || !ECPoint_Ready(op2)) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 	
@@ -316,6 +350,8 @@ static PyObject *ECPoint_op_add(ECPoint *op1, ECPoint *op2) {
     rop->cv = op1->cv;
     Py_INCREF(rop->cv);
     mpECP_add(rop->ecp, op1->ecp, op2->ecp);
+    // the result can be a copy of op2, but holds a reference on the curve of op1 only
+    rop->ecp->cvp = rop->cv->ec;
 	rop->ready = 1;
     return (PyObject *)rop;
 }
@@ -323,8 +359,7 @@ static PyObject *ECPoint_op_add(ECPoint *op1, ECPoint *op2) {
 static PyObject *ECPoint_op_sub(ECPoint *op1, ECPoint *op2) {
 	ECPoint *rop;
 
-	if ((!PyObject_TypeCheck((PyObject *)op1, &ECPointType)) ||
-		(!PyObject_TypeCheck((PyObject *)op2, &ECPointType))) {
+	if (!ECPoint_Ready(op1) || !ECPoint_Ready(op2)) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 	
@@ -338,6 +373,8 @@ static PyObject *ECPoint_op_sub(ECPoint *op1, ECPoint *op2) {
     rop->cv = op1->cv;
     Py_INCREF(rop->cv);
     mpECP_sub(rop->ecp, op1->ecp, op2->ecp);
+    // the result can be a copy of op2, but holds a reference on the curve of op1 only
+    rop->ecp->cvp = rop->cv->ec;
 	rop->ready = 1;
     return (PyObject *)rop;
 }
@@ -345,7 +382,7 @@ static PyObject *ECPoint_op_sub(ECPoint *op1, ECPoint *op2) {
 static PyObject *ECPoint_op_neg(ECPoint *op1) {
 	ECPoint *rop;
 
-	if (!PyObject_TypeCheck((PyObject *)op1, &ECPointType)) {
+	if (!ECPoint_Ready(op1)) {
 		PyErr_SetString(PyExc_TypeError, "unsupported operand type for ECPoint negation(unary -)");
 		return NULL;
 	}
@@ -364,12 +401,11 @@ static PyObject *ECPoint_op_mul(PyObject *op1, PyObject *op2) {
 	mpz_t scalar;
 	int negative = 0;
 
-	if(!PyObject_TypeCheck(op1, &ECPointType)) {
-		if(PyObject_TypeCheck((PyObject *)op2, &ECPointType)) {
+	if(!ECPoint_Ready(op1)) {
+		if(ECPoint_Ready(op2)) {
 			return ECPoint_op_mul(op2, op1);
 		}
-		PyErr_SetString(PyExc_TypeError, "expected ECPointType, got something else.");
-		return NULL;
+		Py_RETURN_NOTIMPLEMENTED;
 	}
 	p = (ECPoint *)op1;
 
@@ -378,14 +414,19 @@ static PyObject *ECPoint_op_mul(PyObject *op1, PyObject *op2) {
 	    int status;
 
 		status = _pylong_to_mpz((PyLongObject *)op2, scalar);
-		assert(status == 0);
+		if (status != 0) {
+			PyErr_SetString(PyExc_TypeError, "Error converting integer to mpz_t");
+			mpz_clear(scalar);
+			return NULL;
+		}
 		if (mpz_cmp_ui(scalar, 0) < 0) {
 		    negative = 1;
 		    mpz_neg(scalar, scalar);
 		}
-	} else if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	} else if(FieldElement_Ready(op2)) {
 	    mpz_set_mpFp(scalar, ((FieldElement *)op2)->fe);
     } else {
+		mpz_clear(scalar);
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 
@@ -415,9 +456,13 @@ PyDoc_STRVAR(ECPoint_urandom__doc__,
 static PyObject *ECPoint_urandom(PyObject *none, ECurve *curve) {
 	ECPoint *rop;
 	
-	assert(PyObject_TypeCheck((PyObject *)curve, &ECurveType));
+	if (!ECurve_Ready(curve)) {
+		PyErr_SetString(PyExc_TypeError, "ECPoint_urandom: expected ECurve type as argument 1");
+		return NULL;
+	}
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
+	mpECP_init(rop->ecp, curve->ec);
     mpECP_urandom(rop->ecp, curve->ec);
     rop->cv = curve;
     Py_INCREF(rop->cv);
@@ -433,7 +478,7 @@ static PyObject *ECPoint_affine(PyObject *p, PyObject *none) {
     mpz_t zx, zy;
     int status;
 	
-	assert(PyObject_TypeCheck((PyObject *)p, &ECPointType));
+	if (!_require_ready(p)) return NULL;
 	
 	mpz_init(zx);
 	mpz_init(zy);
@@ -452,16 +497,14 @@ static PyObject *ECPoint_affine(PyObject *p, PyObject *none) {
 
     status = PyTuple_SetItem(rt, 0, rx);
     assert(status == 0);
-    Py_INCREF(rx);
     status = PyTuple_SetItem(rt, 1, ry);
     assert(status == 0);
-    Py_INCREF(ry);
 
 	return (PyObject *)rt;
 }
 
 static PyObject *ECPoint_set_basemult(PyObject *p, PyObject *none) {
-	assert(PyObject_TypeCheck((PyObject *)p, &ECPointType));
+	if (!_require_ready(p)) return NULL;
 
     mpECP_scalar_base_mul_setup(((ECPoint *)p)->ecp);
     
@@ -475,7 +518,8 @@ PyObject *PyECPoint_FromECP(mpECP_t pt) {
 	mpECP_init(rop->ecp, pt->cvp);
 	mpECP_set(rop->ecp, pt);
 	rop->cv = (ECurve *)PyECurve_FromECurve(pt->cvp);
-	Py_INCREF(rop->cv);
+	// the curve of pt may go away before rop does
+	rop->ecp->cvp = rop->cv->ec;
 	rop->ready = 1;
 	return (PyObject *)rop;
 }
diff --git a/python/pypoint.h b/python/pypoint.h
index 7687c64..a64aee5 100644
--- a/python/pypoint.h
+++ b/python/pypoint.h
@@ -49,6 +49,9 @@ typedef struct {
 
 extern PyTypeObject ECPointType;
 
+// true for an object of the type (or a subtype) which has been through __init__
+#define ECPoint_Ready(o) (PyObject_TypeCheck((PyObject *)(o), &ECPointType) && ((ECPoint *)(o))->ready)
+
 PyObject *PyECPoint_FromECP(mpECP_t pt);
 
 #ifdef __cplusplus
-- 
2.43.0


From 1d1fb99f33d4e88d37d36db409351f43d900de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 25/31] fix: Python signatures dropped references of the
 message and aborted when the hash module failed

---
 python/pyecdsa.c | 302 +++++++++++++++++++++++++----------------------
 python/pyecdsa.h |   6 +
 2 files changed, 164 insertions(+), 144 deletions(-)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 00af979..2f88105 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -42,62 +42,87 @@
 #include <Python.h>
 #include <structmember.h>
 
-// since we want to call back into a python hash function to generate the
-// message digest we need to pass both a pointer to the message and the
-// python hash function module in place of msg pointer
+// the C library cannot handle errors of the hash function, so the python hash
+// function is called in advance and the digest is passed in place of msg pointer
 typedef struct {
-    PyObject *hashmodule;
-    PyObject *msg;
-} _hash_and_msg_t;
+    unsigned char *digest;
+    size_t hsz;
+} _digest_t;
 
-// c routine to call the python hash function - note presumes that the
-// the msg has been replaced by _hash_and_msg_t to encode both the python
-// hash function and the message bytes (python bytes object)
+// c routine which stands in for the python hash function - note presumes that
+// the msg has been replaced by _digest_t
 static void _python_hash_wrapper(unsigned char *hash, unsigned char *msg, size_t sz){
-    _hash_and_msg_t *ham;
-    PyObject *mdict;
+    _digest_t *dgst;
+
+    dgst = (_digest_t *)msg;
+    memcpy(hash, dgst->digest, dgst->hsz);
+    return;
+}
+
+// call the python hash function, returns a bytes object of hsz bytes or NULL
+// (with an exception set)
+static PyObject *_python_hash(PyObject *hashmodule, PyObject *msg, Py_ssize_t hsz) {
     PyObject *hnew;
-    PyObject *tuple;
     PyObject *pyhash;
     PyObject *hbytes;
-    int status;
-    Py_ssize_t hsz;
-    unsigned char *digest;
-    
-    ham = (_hash_and_msg_t *)msg;
-    
-    // no way to error out here, calling function must ensure message is bytes
-    assert(PyBytes_Check(ham->msg));
 
     // call hash.new(msg) to initialize and process message
-    mdict = PyModule_GetDict(ham->hashmodule);
-    assert(PyDict_Check(mdict));
-    hnew = PyDict_GetItemString(mdict, "new");
-    assert(PyFunction_Check(hnew));
-    assert(PyCallable_Check(hnew));
+    hnew = PyDict_GetItemString(PyModule_GetDict(hashmodule), "new");
+    if ((hnew == NULL) || !PyFunction_Check(hnew)) {
+        PyErr_SetString(PyExc_TypeError, "Hash module.new() is not a function");
+        return NULL;
+    }
     Py_INCREF(hnew);
-
-    tuple = PyTuple_New(1);
-    assert(tuple != NULL);
-    Py_INCREF(ham->msg);
-    status = PyTuple_SetItem(tuple, 0, ham->msg);
-    assert(status == 0);
-    pyhash = PyObject_CallObject(hnew, tuple);
-    assert(pyhash != NULL);
-    Py_DECREF(ham->msg);
+    pyhash = PyObject_CallFunctionObjArgs(hnew, msg, NULL);
     Py_DECREF(hnew);
+    if (pyhash == NULL) return NULL;
 
-    Py_INCREF(pyhash);
     hbytes = PyObject_CallMethod(pyhash, "digest", NULL);
-    assert(PyBytes_Check(hbytes));
     Py_DECREF(pyhash);
+    if (hbytes == NULL) return NULL;
 
-    hsz = PyBytes_Size(hbytes);
-    status = PyBytes_AsStringAndSize(hbytes, (char **)&digest, &hsz);
-    assert(status == 0);
+    if (!PyBytes_Check(hbytes)) {
+        PyErr_SetString(PyExc_TypeError, "Hash object item digest() did not return bytes");
+        Py_DECREF(hbytes);
+        return NULL;
+    }
+    if (PyBytes_Size(hbytes) != hsz) {
+        PyErr_SetString(PyExc_TypeError, "Hash bytes size mismatch !?");
+        Py_DECREF(hbytes);
+        return NULL;
+    }
+    return hbytes;
+}
 
-    memcpy(hash, digest, hsz);
-    return;
+// message as (new reference to) bytes object, or NULL (with an exception set)
+static PyObject *_msg_as_bytes(PyObject *msg, const char *type_error) {
+    if (PyBytes_Check(msg)) {
+        Py_INCREF(msg);
+        return msg;
+    }
+    if (PyUnicode_Check(msg)) {
+        return PyUnicode_AsUTF8String(msg);
+    }
+    PyErr_SetString(PyExc_TypeError, type_error);
+    return NULL;
+}
+
+// self is an ECDSASignature which has been through __init__, else set an exception
+static int _require_ready_sig(PyObject *self) {
+    if (!ECDSASignature_Ready(self)) {
+        PyErr_SetString(PyExc_ValueError, "ECDSASignature not initialized");
+        return 0;
+    }
+    return 1;
+}
+
+// self is an ECDSASignatureScheme which has been through __init__, else set an exception
+static int _require_ready_ss(PyObject *self) {
+    if (!ECDSASignatureScheme_Ready(self)) {
+        PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme not initialized");
+        return 0;
+    }
+    return 1;
 }
 
 PyDoc_STRVAR(ECDSASignature__doc__,
@@ -132,11 +157,16 @@ static int ECDSASignature_init(ECDSASignature *self, PyObject *args, PyObject *k
         return -1;
     }
 
-    if (!PyObject_TypeCheck((PyObject *)ss, &ECDSASignatureSchemeType)) {
+    if (!ECDSASignatureScheme_Ready(ss)) {
         PyErr_SetString(PyExc_TypeError, "ECDSASignature_init: expected ECDSASignatureScheme type as argument 1");
         return -1;
     }
 
+    if (self->ready) {
+        PyErr_SetString(PyExc_TypeError, "ECDSASignature is already initialized");
+        return -1;
+    }
+
     if (PyBytes_Check(ssbytes)) {
         status = PyBytes_AsStringAndSize(ssbytes, (char **)&bytes, &bsz);
         if (status != 0) {
@@ -151,13 +181,20 @@ static int ECDSASignature_init(ECDSASignature *self, PyObject *args, PyObject *k
         }
     } else {
         char *sstr;
+        Py_ssize_t ssz;
 
         if (!PyUnicode_Check(ssbytes)) {
             PyErr_SetString(PyExc_TypeError, "ECDSASignature_init: expected bytes or unicode type as argument 2");
             return -1;
         }
 
-        sstr = PyUnicode_AsUTF8(ssbytes);
+        sstr = (char *)PyUnicode_AsUTF8AndSize(ssbytes, &ssz);
+        if (sstr == NULL) return -1;
+        // the text ends at the first NUL for mpECDSASignature_init_import_str
+        if (strlen(sstr) != (size_t)ssz) {
+            PyErr_SetString(PyExc_ValueError, "ECDSASignature_init: cannot initialize from string object");
+            return -1;
+        }
 
         status =  mpECDSASignature_init_import_str(self->sig, ss->sscheme, sstr);
         if (status != 0) {
@@ -180,11 +217,11 @@ static PyObject *ECDSASignature_str(PyObject *self) {
     char *sstr;
     PyObject *str;
     
-    assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
+    if (!_require_ready_sig(self)) return NULL;
     ssig = (ECDSASignature *)self;
 
     sstr = mpECDSASignature_export_str(ssig->sig);
-    if (sstr == NULL) return NULL;
+    if (sstr == NULL) return PyErr_NoMemory();
     str = PyUnicode_FromFormat("%s", sstr);
     free(sstr);
 
@@ -197,11 +234,11 @@ static PyObject *ECDSASignature_binary(PyObject *self) {
     size_t bsz;
     PyObject *bytes;
     
-    assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
+    if (!_require_ready_sig(self)) return NULL;
     ssig = (ECDSASignature *)self;
 
     sbytes = mpECDSASignature_export_bytes(ssig->sig, &bsz);
-    if (sbytes == NULL) return NULL;
+    if (sbytes == NULL) return PyErr_NoMemory();
     bytes = PyBytes_FromStringAndSize((char *)sbytes, bsz);
     free(sbytes);
 
@@ -211,15 +248,24 @@ static PyObject *ECDSASignature_binary(PyObject *self) {
 static PyObject *ECDSASignature_repr(PyObject *self) {
     char *hashstr;
     PyObject *ssstr;
+    PyObject *rep;
     ECDSASignature *ssig;
 
-    assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
+    if (!_require_ready_sig(self)) return NULL;
     ssig = (ECDSASignature *)self;
 
-    ssstr = Py_TYPE((PyObject *)(ssig->ss))->tp_repr((PyObject *)(ssig->ss));
+    ssstr = PyObject_Repr((PyObject *)(ssig->ss));
+    if (ssstr == NULL) return NULL;
     hashstr = mpECDSASignature_export_str(ssig->sig);
+    if (hashstr == NULL) {
+        Py_DECREF(ssstr);
+        return PyErr_NoMemory();
+    }
 
-    return PyUnicode_FromFormat("ECC.ECDSASignature(%S, \'%s\')", ssstr, hashstr);
+    rep = PyUnicode_FromFormat("ECC.ECDSASignature(%S, \'%s\')", ssstr, hashstr);
+    free(hashstr);
+    Py_DECREF(ssstr);
+    return rep;
 }
 
 // deallocates the object when done
@@ -245,10 +291,11 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
     ECDSASignature *ssis;
     ECPoint *kpt;
     PyObject *bytes;
-    _hash_and_msg_t ham;
+    PyObject *hbytes;
+    _digest_t dgst;
     int status;
     
-    assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
+    if (!_require_ready_sig(self)) return NULL;
     ssis = (ECDSASignature *)self;
 
 	if (!PyArg_ParseTuple(args, "OO", &key, &msg)) {
@@ -256,28 +303,26 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
 		return NULL;
 	}
 
-    if(!PyObject_TypeCheck(key, &ECPointType)) {
+    if(!ECPoint_Ready(key)) {
 		PyErr_SetString(PyExc_TypeError, "ECDSASignature_verify: 1st arg must be public key of ECPoint type");
 		return NULL;
     }
     kpt = (ECPoint *)key;
 
-    if (PyBytes_Check(msg)) {
-        bytes = msg;
-    } else {
-        if (!PyUnicode_Check(msg)) {
-    		PyErr_SetString(PyExc_TypeError, "ECDSASignature_verify: 2nd arg must be message of Bytes or Unicode type");
-    		return NULL;
-        }
-        bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
+    bytes = _msg_as_bytes(msg, "ECDSASignature_verify: 2nd arg must be message of Bytes or Unicode type");
+    if (bytes == NULL) return NULL;
+
+    hbytes = _python_hash(ssis->ss->hashmodule, bytes, ssis->ss->sscheme->H->hsz);
+    if (hbytes == NULL) {
+        Py_DECREF(bytes);
+        return NULL;
     }
-    
-    ham.hashmodule = ssis->ss->hashmodule;
-    ham.msg = bytes;
+    dgst.digest = (unsigned char *)PyBytes_AsString(hbytes);
+    dgst.hsz = PyBytes_Size(hbytes);
 
-    status = mpECDSASignature_verify_cmp(ssis->sig, kpt->ecp, (unsigned char *)&ham, PyBytes_Size(bytes));
+    status = mpECDSASignature_verify_cmp(ssis->sig, kpt->ecp, (unsigned char *)&dgst, PyBytes_Size(bytes));
 
+    Py_DECREF(hbytes);
     Py_DECREF(bytes);
     if (status != 0) {
         Py_INCREF(Py_False);
@@ -375,11 +420,16 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
         return -1;
     }
 
-    if(!PyObject_TypeCheck((PyObject *)curve, &ECurveType)) {
+    if(!ECurve_Ready(curve)) {
         PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_init: expected ECurve type as argument 1");
         return -1;
     }
 
+    if (self->ready) {
+        PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme is already initialized");
+        return -1;
+    }
+
     if (!PyModule_Check(hashmodule)) {
         PyErr_SetString(PyExc_TypeError, "Hash module must be a module");
         return -1;
@@ -394,7 +444,7 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 
     digest_size = PyDict_GetItemString(hashmodule_dict, "digest_size");
 
-    if (!PyLong_Check(digest_size)) {
+    if ((digest_size == NULL) || !PyLong_Check(digest_size)) {
         PyErr_SetString(PyExc_TypeError, "Hash module digest_size is not an Integer(PyLong) type");
         return -1;
     }
@@ -407,67 +457,15 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 
     // test hash module all the way through
     {
-        PyObject *hnew;
-        PyObject *tuple;
-        PyObject *pyhash;
         PyObject *mbytes;
         PyObject *hbytes;
-        Py_ssize_t bsz;
-
-        // call hash.new(msg) to initialize and process message
-        hnew = PyDict_GetItemString(hashmodule_dict, "new");
-        if (!PyFunction_Check(hnew)) {
-            PyErr_SetString(PyExc_TypeError, "Hash module.new() is not a function");
-            return -1;
-        }
-    
-        if (!PyCallable_Check(hnew)) {
-            PyErr_SetString(PyExc_TypeError, "Hash module.new() function is not callable");
-            return -1;
-        }
-        Py_INCREF(hnew);
-
-        tuple = PyTuple_New(1);
-        if (tuple == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Create Tuple Failed !?");
-            return -1;
-        }
 
         mbytes = PyBytes_FromStringAndSize("test", 4);
-        if (mbytes == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Create Bytes from String Failed !?");
-            return -1;
-        }
-        Py_INCREF(mbytes);
-
-        status = PyTuple_SetItem(tuple, 0, mbytes);
-        if (status != 0) {
-            PyErr_SetString(PyExc_TypeError, "Tuple SetItem Failed !?");
-            return -1;
-        }
-
-        pyhash = PyObject_CallObject(hnew, tuple);
-        if (pyhash == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Call Hash returned NULL");
-            return -1;
-        }
-
+        if (mbytes == NULL) return -1;
+        hbytes = _python_hash(hashmodule, mbytes, hsz);
         Py_DECREF(mbytes);
-        Py_DECREF(hnew);
-        
-        Py_INCREF(pyhash);
-        hbytes = PyObject_CallMethod(pyhash, "digest", NULL);
-        if (!PyBytes_Check(hbytes)) {
-            PyErr_SetString(PyExc_TypeError, "Hash object item digest() did not return bytes");
-            return -1;
-        }
-        Py_DECREF(pyhash);
-        
-        bsz = PyBytes_Size(hbytes);
-        if (bsz != hsz) {
-            PyErr_SetString(PyExc_TypeError, "Hash bytes size mismatch !?");
-            return -1;
-        }
+        if (hbytes == NULL) return -1;
+        Py_DECREF(hbytes);
     }
 
     Py_INCREF(hashmodule);
@@ -494,15 +492,24 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 static PyObject *ECDSASignatureScheme_repr(PyObject *self) {
     PyObject *hashstr;
     PyObject *cvstr;
+    PyObject *rep;
     ECDSASignatureScheme *ss;
 
-    assert(PyObject_TypeCheck(self, &ECDSASignatureSchemeType) != 0);
+    if (!_require_ready_ss(self)) return NULL;
     ss = (ECDSASignatureScheme *)self;
 
-    cvstr = Py_TYPE((PyObject *)(ss->cv))->tp_repr((PyObject *)(ss->cv));
-    hashstr = Py_TYPE((PyObject *)(ss->hashmodule))->tp_repr((PyObject *)(ss->hashmodule));
+    cvstr = PyObject_Repr((PyObject *)(ss->cv));
+    if (cvstr == NULL) return NULL;
+    hashstr = PyObject_Repr(ss->hashmodule);
+    if (hashstr == NULL) {
+        Py_DECREF(cvstr);
+        return NULL;
+    }
 
-    return PyUnicode_FromFormat("ECC.ECDSASignatureScheme(%S, %S)", cvstr, hashstr);
+    rep = PyUnicode_FromFormat("ECC.ECDSASignatureScheme(%S, %S)", cvstr, hashstr);
+    Py_DECREF(hashstr);
+    Py_DECREF(cvstr);
+    return rep;
 }
 
 // deallocates the object when done
@@ -530,10 +537,11 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
     ECDSASignature *psig;
     FieldElement *kfe;
     PyObject *bytes;
-    _hash_and_msg_t ham;
+    PyObject *hbytes;
+    _digest_t dgst;
     int status;
     
-    assert(PyObject_TypeCheck(self, &ECDSASignatureSchemeType) != 0);
+    if (!_require_ready_ss(self)) return NULL;
     ss = (ECDSASignatureScheme *)self;
 
 	if (!PyArg_ParseTuple(args, "OO", &key, &msg)) {
@@ -541,8 +549,9 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 		return NULL;
 	}
 
-    if(PyObject_TypeCheck(key, &FieldElementType)) {
+    if(FieldElement_Ready(key)) {
         kfe = (FieldElement *)key;
+        Py_INCREF(kfe);
     } else if (PyLong_Check(key)) {
         mpz_t fe_i;
 
@@ -563,25 +572,30 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 		return NULL;
     }
 
-    if (PyBytes_Check(msg)) {
-        bytes = msg;
-    } else {
-        if (!PyUnicode_Check(msg)) {
-    		PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_sign: arg 2 must be message of Bytes or Unicode type");
-    		return NULL;
-        }
-        bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
+    bytes = _msg_as_bytes(msg, "ECDSASignatureScheme_sign: arg 2 must be message of Bytes or Unicode type");
+    if (bytes == NULL) {
+        Py_DECREF(kfe);
+        return NULL;
     }
 
+    hbytes = _python_hash(ss->hashmodule, bytes, ss->sscheme->H->hsz);
+    if (hbytes == NULL) {
+        Py_DECREF(bytes);
+        Py_DECREF(kfe);
+        return NULL;
+    }
+    dgst.digest = (unsigned char *)PyBytes_AsString(hbytes);
+    dgst.hsz = PyBytes_Size(hbytes);
+
     psig = (ECDSASignature *)ECDSASignature_new(&ECDSASignatureType, NULL, NULL);
-    
-    ham.hashmodule = ss->hashmodule;
-    ham.msg = bytes;
 
-    status = mpECDSASignature_init_Sign(psig->sig, ss->sscheme, kfe->fe, (unsigned char *)&ham, PyBytes_Size(bytes));
+    status = mpECDSASignature_init_Sign(psig->sig, ss->sscheme, kfe->fe, (unsigned char *)&dgst, PyBytes_Size(bytes));
+    Py_DECREF(hbytes);
     Py_DECREF(bytes);
+    Py_DECREF(kfe);
     if (status != 0) {
+        PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme_sign: cannot sign (empty message or key of another order)");
+        Py_DECREF(psig);
         return NULL;
     }
     psig->ss = ss;
diff --git a/python/pyecdsa.h b/python/pyecdsa.h
index c9faf73..f9482d1 100644
--- a/python/pyecdsa.h
+++ b/python/pyecdsa.h
@@ -48,6 +48,9 @@ typedef struct {
 
 extern PyTypeObject ECDSASignatureSchemeType;
 
+// true for an object of the type (or a subtype) which has been through __init__
+#define ECDSASignatureScheme_Ready(o) (PyObject_TypeCheck((PyObject *)(o), &ECDSASignatureSchemeType) && ((ECDSASignatureScheme *)(o))->ready)
+
 typedef struct {
     PyObject_HEAD
     mpECDSASignature_t sig;
@@ -57,6 +60,9 @@ typedef struct {
 
 extern PyTypeObject ECDSASignatureType;
 
+// true for an object of the type (or a subtype) which has been through __init__
+#define ECDSASignature_Ready(o) (PyObject_TypeCheck((PyObject *)(o), &ECDSASignatureType) && ((ECDSASignature *)(o))->ready)
+
 #ifdef __cplusplus
 }
 #endif
-- 
2.43.0


From f858133c7f4c0d7c10ca50db3c9ecc6b7059c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 26/31] fix: ecgo: conversions leave the caller's integers
 alone, unusable field orders give nil

FieldElement constructors and methods negated a negative big.Int argument in
place, aborted the process on field orders the C library does not support and
on comparing elements of different fields, and Sqrt did not end cleanly for
composite orders.
---
 ecgo/field.go | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/ecgo/field.go b/ecgo/field.go
index 036f366..197178f 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -111,7 +111,6 @@ func bigint_to_c_mpz_signed(m *C.__mpz_struct, a *big.Int) {
 
 	if a.Cmp(big.NewInt(0)) < 0 {
 		negative = true
-		a.Neg(a)
 	}
 
 	abytes := a.Bytes()
@@ -146,21 +145,24 @@ func c_mpz_to_bigint(m *C.__mpz_struct) (z *big.Int) {
 	return z
 }
 
+// the C library supports moduli greater than 1 up to half of _MPFP_Max_Bytes
+func fieldOrderSupported(field *big.Int) bool {
+	return field.Cmp(big.NewInt(1)) > 0 && field.BitLen() <= (_MPFP_Max_Bytes*8)/2
+}
+
 func NewFieldElement(value, field *big.Int) (z *FieldElement) {
 	var vmpz, pmpz C.__mpz_struct
-	var err error
-
-	C.mpz_init(&vmpz)
-	C.mpz_init(&pmpz)
 
 	if field.Cmp(big.NewInt(0)) == 0 {
 		panic("cannot operate on field of order 0")
 	}
-	bigint_to_c_mpz_signed(&vmpz, value)
-	err = bigint_to_c_mpz_unsigned(&pmpz, field)
-	if err != nil {
+	if !fieldOrderSupported(field) {
 		return nil
 	}
+	C.mpz_init(&vmpz)
+	C.mpz_init(&pmpz)
+	bigint_to_c_mpz_signed(&vmpz, value)
+	bigint_to_c_mpz_unsigned(&pmpz, field)
 
 	// fmt.Println("imported value as:")
 	// C.print_mpz_hex(&vmpz)
@@ -180,16 +182,15 @@ func NewFieldElement(value, field *big.Int) (z *FieldElement) {
 
 func NewFieldElementUI(value uint64, field *big.Int) (z *FieldElement) {
 	var pmpz C.__mpz_struct
-	var err error
 
 	if field.Cmp(big.NewInt(0)) == 0 {
 		panic("cannot operate on field of order 0")
 	}
-	C.mpz_init(&pmpz)
-	err = bigint_to_c_mpz_unsigned(&pmpz, field)
-	if err != nil {
+	if !fieldOrderSupported(field) {
 		return nil
 	}
+	C.mpz_init(&pmpz)
+	bigint_to_c_mpz_unsigned(&pmpz, field)
 
 	// fmt.Println("imported field as:")
 	// C.print_mpz_hex(&pmpz)
@@ -206,16 +207,15 @@ func NewFieldElementUI(value uint64, field *big.Int) (z *FieldElement) {
 
 func NewFieldElementURandom(field *big.Int) (z *FieldElement) {
 	var pmpz C.__mpz_struct
-	var err error
 
 	if field.Cmp(big.NewInt(0)) == 0 {
 		panic("cannot operate on field of order 0")
 	}
-	C.mpz_init(&pmpz)
-	err = bigint_to_c_mpz_unsigned(&pmpz, field)
-	if err != nil {
+	if !fieldOrderSupported(field) {
 		return nil
 	}
+	C.mpz_init(&pmpz)
+	bigint_to_c_mpz_unsigned(&pmpz, field)
 
 	// fmt.Println("imported field as:")
 	// C.print_mpz_hex(&pmpz)
@@ -252,6 +252,9 @@ func (z *FieldElement) Order() (r *big.Int) {
 }
 
 func (z *FieldElement) Cmp(a *FieldElement) int {
+	if C._fp_of_fe(z.fe) != C._fp_of_fe(a.fe) {
+		panic("FE.Cmp: field mismatch")
+	}
 	return int(C.mpFp_cmp(z.fe, a.fe))
 }
 
@@ -293,6 +296,9 @@ func (z *FieldElement) Inv(a *FieldElement) (fe *FieldElement, err error) {
 }
 
 func (z *FieldElement) Sqrt(a *FieldElement) (fe *FieldElement, err error) {
+	if !a.Order().ProbablyPrime(20) {
+		return nil, errors.New("square root is not supported for composite order")
+	}
 	status := C.mpFp_sqrt(z.fe, a.fe)
 	if int(status) != 0 {
 		return nil, errors.New("element is not a quadratic residue")
@@ -306,5 +312,8 @@ func (z *FieldElement) Exp(a *FieldElement, e uint64) *FieldElement {
 }
 
 func (z *FieldElement) Bit(i int) uint {
+	if i < 0 || i >= _MPFP_Max_Bytes*8 {
+		return 0
+	}
 	return uint(C.mpFp_tstbit(z.fe, C.int(i)))
 }
-- 
2.43.0


From a0cef666c3e50799d02307568ec21eeec4b45bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 27/31] fix: ecgo: keep field elements alive during C calls

The finalizer of an operand that is not used after the call could free its C
memory while the C function was still reading it.
---
 ecgo/field.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/ecgo/field.go b/ecgo/field.go
index 197178f..0e0865f 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -240,6 +240,7 @@ func (z *FieldElement) AsInt() (r *big.Int) {
 
 	C.mpz_init(&impz)
 	C.mpz_set_mpFp(&impz, z.fe)
+	runtime.KeepAlive(z)
 	r = c_mpz_to_bigint(&impz)
 	C.mpz_clear(&impz)
 	return r
@@ -248,6 +249,7 @@ func (z *FieldElement) AsInt() (r *big.Int) {
 func (z *FieldElement) Order() (r *big.Int) {
 	impz := C._p_of_fe(z.fe)
 	r = c_mpz_to_bigint(impz)
+	runtime.KeepAlive(z)
 	return r
 }
 
@@ -255,7 +257,10 @@ func (z *FieldElement) Cmp(a *FieldElement) int {
 	if C._fp_of_fe(z.fe) != C._fp_of_fe(a.fe) {
 		panic("FE.Cmp: field mismatch")
 	}
-	return int(C.mpFp_cmp(z.fe, a.fe))
+	r := int(C.mpFp_cmp(z.fe, a.fe))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	return r
 }
 
 func (z *FieldElement) Add(a, b *FieldElement) *FieldElement {
@@ -263,6 +268,9 @@ func (z *FieldElement) Add(a, b *FieldElement) *FieldElement {
 		panic("FE.Add: field mismatch")
 	}
 	C.mpFp_add(z.fe, a.fe, b.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
@@ -271,6 +279,9 @@ func (z *FieldElement) Sub(a, b *FieldElement) *FieldElement {
 		panic("FE.Add: field mismatch")
 	}
 	C.mpFp_sub(z.fe, a.fe, b.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
@@ -279,16 +290,23 @@ func (z *FieldElement) Mul(a, b *FieldElement) *FieldElement {
 		panic("FE.Add: field mismatch")
 	}
 	C.mpFp_mul(z.fe, a.fe, b.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
 func (z *FieldElement) Neg(a *FieldElement) *FieldElement {
 	C.mpFp_neg(z.fe, a.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	return z
 }
 
 func (z *FieldElement) Inv(a *FieldElement) (fe *FieldElement, err error) {
 	status := C.mpFp_inv(z.fe, a.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	if int(status) != 0 {
 		return nil, errors.New("no inverse exists for element")
 	}
@@ -296,10 +314,12 @@ func (z *FieldElement) Inv(a *FieldElement) (fe *FieldElement, err error) {
 }
 
 func (z *FieldElement) Sqrt(a *FieldElement) (fe *FieldElement, err error) {
-	if !a.Order().ProbablyPrime(20) {
+	if !a.Order().ProbablyPrime(0) {
 		return nil, errors.New("square root is not supported for composite order")
 	}
 	status := C.mpFp_sqrt(z.fe, a.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	if int(status) != 0 {
 		return nil, errors.New("element is not a quadratic residue")
 	}
@@ -308,6 +328,8 @@ func (z *FieldElement) Sqrt(a *FieldElement) (fe *FieldElement, err error) {
 
 func (z *FieldElement) Exp(a *FieldElement, e uint64) *FieldElement {
 	C.mpFp_pow_ui(z.fe, a.fe, C.ulong(e))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	return z
 }
 
@@ -315,5 +337,7 @@ func (z *FieldElement) Bit(i int) uint {
 	if i < 0 || i >= _MPFP_Max_Bytes*8 {
 		return 0
 	}
-	return uint(C.mpFp_tstbit(z.fe, C.int(i)))
+	r := uint(C.mpFp_tstbit(z.fe, C.int(i)))
+	runtime.KeepAlive(z)
+	return r
 }
-- 
2.43.0


From ae94bb99a7485d3c569fdaae7be58ce2e8fa190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 28/31] fix: ecgo: points stay alive during C calls and keep
 the curve they refer to

A point could be finalized while a C function was using it, the C structure of
a result could refer to the curve object of an operand that is later freed,
Add and Sub of points on different curves aborted the process, strings leaked
and text after a NUL character was ignored.
---
 ecgo/point.go | 65 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 9 deletions(-)

diff --git a/ecgo/point.go b/ecgo/point.go
index c8d7a4a..0ce2bdd 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -77,6 +77,11 @@ package ecgo
 //     return buf;
 // }
 //
+// // pt refers to cv in place of another object with the same parameters
+// void _mpECP_use_curve(mpECP_ptr pt, mpECurve_ptr cv) {
+//     pt->cvp = cv;
+// }
+//
 // unsigned char *_toUCP(void *p) {
 //     return (unsigned char *)p;
 // }
@@ -101,7 +106,7 @@ import (
 	//"reflect"
 	"runtime"
 	//"strconv"
-	//"strings"
+	"strings"
 	//"time"
 	"unsafe"
 )
@@ -129,6 +134,7 @@ func NewPointXY(x, y *big.Int, c *Curve) (z *Point) {
 	C.mpECP_init(z.ecp, c.ec)
 	runtime.SetFinalizer(z, point_clear)
 	C.mpECP_set_mpz(z.ecp, &xmpz, &ympz, c.ec)
+	runtime.KeepAlive(z)
 
 	C.mpz_clear(&xmpz)
 	C.mpz_clear(&ympz)
@@ -143,6 +149,7 @@ func NewPointNeutral(c *Curve) (z *Point) {
 	C.mpECP_init(z.ecp, c.ec)
 	runtime.SetFinalizer(z, point_clear)
 	C.mpECP_set_neutral(z.ecp, c.ec)
+	runtime.KeepAlive(z)
 
 	return z
 }
@@ -155,6 +162,7 @@ func NewPointGenerator(c *Curve) (z *Point) {
 	C.mpECP_init(z.ecp, c.ec)
 	runtime.SetFinalizer(z, point_clear)
 	C.mpECP_set_mpz(z.ecp, C._pgx_of_cv(c.ec), C._pgy_of_cv(c.ec), c.ec)
+	runtime.KeepAlive(z)
 
 	return z
 }
@@ -167,12 +175,17 @@ func NewPointURandom(c *Curve) (z *Point) {
 	C.mpECP_init(z.ecp, c.ec)
 	runtime.SetFinalizer(z, point_clear)
 	C.mpECP_urandom(z.ecp, c.ec)
+	runtime.KeepAlive(z)
 
 	return z
 }
 
 func NewPointFromString(gst string, c *Curve) (z *Point) {
 
+	// C strings end at the first NUL
+	if strings.IndexByte(gst, 0) >= 0 {
+		return nil
+	}
 	z = new(Point)
 	z.ecp = C.malloc_ECPoint()
 	z.cv = c
@@ -180,10 +193,11 @@ func NewPointFromString(gst string, c *Curve) (z *Point) {
 	runtime.SetFinalizer(z, point_clear)
 	cstr := C.CString(gst)
 	status := C.mpECP_set_str(z.ecp, cstr, c.ec)
+	C.free(unsafe.Pointer(cstr))
+	runtime.KeepAlive(z)
 	if status != C.int(0) {
 		return nil
 	}
-	C.free(unsafe.Pointer(cstr))
 
 	return z
 }
@@ -198,10 +212,11 @@ func NewPointFromBytes(gby []byte, c *Curve) (z *Point) {
 	cby := C.CBytes(gby)
 	l := len(gby)
 	status := C.mpECP_set_bytes(z.ecp, C._toUCP(cby), C.size_t(l), c.ec)
+	C.free(cby)
+	runtime.KeepAlive(z)
 	if status != C.int(0) {
 		return nil
 	}
-	C.free(cby)
 
 	return z
 }
@@ -219,6 +234,7 @@ func (z *Point) Affine() (x, y *big.Int) {
 
 	C.mpz_set_mpECP_affine_x(&xmpz, z.ecp)
 	C.mpz_set_mpECP_affine_y(&ympz, z.ecp)
+	runtime.KeepAlive(z)
 
 	x = c_mpz_to_bigint(&xmpz)
 	y = c_mpz_to_bigint(&ympz)
@@ -232,6 +248,7 @@ func (z *Point) Affine() (x, y *big.Int) {
 func (z *Point) IsNeutral() bool {
 	pt := z.ecp
 	isn := pt.is_neutral
+	runtime.KeepAlive(z)
 	if int(isn) == 0 {
 		return false
 	}
@@ -240,6 +257,7 @@ func (z *Point) IsNeutral() bool {
 
 func (z *Point) StringCompressed() string {
 	cstr := C.mpECP_alloc_out_str(z.ecp, C.int(1))
+	runtime.KeepAlive(z)
 	gstr := C.GoString(cstr)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
@@ -247,6 +265,7 @@ func (z *Point) StringCompressed() string {
 
 func (z *Point) StringUncompressed() string {
 	cstr := C.mpECP_alloc_out_str(z.ecp, C.int(0))
+	runtime.KeepAlive(z)
 	gstr := C.GoString(cstr)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
@@ -255,6 +274,7 @@ func (z *Point) StringUncompressed() string {
 func (z *Point) BytesCompressed() []byte {
 	blen := C.mpECP_out_bytelen(z.ecp, C.int(1))
 	cstr := C.mpECP_alloc_out_bytes(z.ecp, C.int(1))
+	runtime.KeepAlive(z)
 	gstr := C.GoBytes(unsafe.Pointer(cstr), blen)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
@@ -263,36 +283,60 @@ func (z *Point) BytesCompressed() []byte {
 func (z *Point) BytesUncompressed() []byte {
 	blen := C.mpECP_out_bytelen(z.ecp, C.int(0))
 	cstr := C.mpECP_alloc_out_bytes(z.ecp, C.int(0))
+	runtime.KeepAlive(z)
 	gstr := C.GoBytes(unsafe.Pointer(cstr), blen)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
 }
 
 func (z *Point) Cmp(a *Point) int {
-	return int(C.mpECP_cmp(z.ecp, a.ecp))
+	r := int(C.mpECP_cmp(z.ecp, a.ecp))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	return r
+}
+
+// setCurve makes z refer to the C structure of the Curve object which it keeps
+// alive (and not to the one of some other operand)
+func (z *Point) setCurve(c *Curve) {
+	z.cv = c
+	C._mpECP_use_curve(z.ecp, c.ec)
+	runtime.KeepAlive(z)
 }
 
 func (z *Point) Add(a, b *Point) *Point {
+	if C.mpECurve_cmp(a.cv.ec, b.cv.ec) != 0 {
+		panic("Point.Add: curve mismatch")
+	}
 	C.mpECP_add(z.ecp, a.ecp, b.ecp)
-	z.cv = a.cv
+	z.setCurve(a.cv)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
 func (z *Point) Sub(a, b *Point) *Point {
+	if C.mpECurve_cmp(a.cv.ec, b.cv.ec) != 0 {
+		panic("Point.Sub: curve mismatch")
+	}
 	C.mpECP_sub(z.ecp, a.ecp, b.ecp)
-	z.cv = a.cv
+	z.setCurve(a.cv)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
 func (z *Point) Neg(a *Point) *Point {
 	C.mpECP_neg(z.ecp, a.ecp)
-	z.cv = a.cv
+	z.setCurve(a.cv)
+	runtime.KeepAlive(a)
 	return z
 }
 
 func (z *Point) Set(a *Point) *Point {
 	C.mpECP_set(z.ecp, a.ecp)
-	z.cv = a.cv
+	z.setCurve(a.cv)
+	runtime.KeepAlive(a)
 	return z
 }
 
@@ -307,12 +351,15 @@ func (z *Point) Mul(a *Point, b *big.Int) *Point {
 	} else {
 		C.mpECP_scalar_mul_mpz(z.ecp, a.ecp, &bmpz)
 	}
-	z.cv = a.cv
+	z.setCurve(a.cv)
+	C.mpz_clear(&bmpz)
+	runtime.KeepAlive(a)
 
 	return z
 }
 
 func (z *Point) SetupBaseMul() {
 	C.mpECP_scalar_base_mul_setup(z.ecp)
+	runtime.KeepAlive(z)
 	return
 }
-- 
2.43.0


From c6d586ac518241d81f3911e3f364238e4915ed62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 29/31] fix: ecgo: curves stay alive during C calls; custom
 curves are freed

Curves built from parameters had no finalizer, the name list leaked, names with
a NUL character were cut.
---
 ecgo/curve.go | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index fb12abf..9e3414a 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -53,6 +53,14 @@ package ecgo
 //     return i;
 // }
 //
+// void clist_free(char **list) {
+//     char **l;
+//
+//     if (list == NULL) return;
+//     for (l = list; *l != NULL; l++) free(*l);
+//     free(list);
+// }
+//
 // __mpz_struct *_p_of_cv(mpECurve_t cv) {
 //     return cv->fp->p;
 // }
@@ -132,7 +140,7 @@ import (
 	//"reflect"
 	"runtime"
 	//"strconv"
-	//"strings"
+	"strings"
 	//"time"
 	"unsafe"
 )
@@ -157,10 +165,16 @@ type Curve struct {
 func CurveNames() []string {
 	clist := C._mpECurve_list_standard_curves()
 	cllen := C.clist_len(clist)
-	return goStrings(cllen, clist)
+	names := goStrings(cllen, clist)
+	C.clist_free(clist)
+	return names
 }
 
 func NamedCurve(name string) (z *Curve) {
+	// C strings end at the first NUL
+	if strings.IndexByte(name, 0) >= 0 {
+		return nil
+	}
 	z = new(Curve)
 	z.ec = C.malloc_ECurve()
 	C.mpECurve_init(z.ec)
@@ -191,11 +205,16 @@ func mpFp_to_bigint(fp *C._mpFp_struct) (r *big.Int) {
 }
 
 func (z *Curve) Type() (r int) {
-	return int(C._type_of_cv(z.ec))
+	r = int(C._type_of_cv(z.ec))
+	runtime.KeepAlive(z)
+	return r
 }
 
 func (z *Curve) Cmp(a *Curve) int {
-	return int(C.mpECurve_cmp(z.ec, a.ec))
+	r := int(C.mpECurve_cmp(z.ec, a.ec))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	return r
 }
 
 func (z *Curve) GetAttr(attr string) (r *big.Int) {
@@ -260,6 +279,7 @@ func (z *Curve) GetAttr(attr string) (r *big.Int) {
 	default:
 		return nil
 	}
+	runtime.KeepAlive(z)
 	return r
 }
 
@@ -283,6 +303,7 @@ func (z *Curve) PointCheck(gx, gy *big.Int) bool {
 	}
 
 	r = (C.mpECurve_point_check(z.ec, &gxmpz, &gympz) != 0)
+	runtime.KeepAlive(z)
 cleanup:
 	C.mpz_clear(&gympz)
 	C.mpz_clear(&gxmpz)
@@ -343,6 +364,8 @@ func ShortWeierstrassCurve(p, a, b, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -409,6 +432,8 @@ func EdwardsCurve(p, c, d, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -475,6 +500,8 @@ func MontgomeryCurve(p, B, A, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -541,6 +568,8 @@ func TwistedEdwardsCurve(p, a, d, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
-- 
2.43.0


From 41876d692a878ce55f9f56a57a5d1c279b19374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 30/31] fix: ecgo: signatures and ciphertexts keep what they
 use alive

Schemes, signatures, ciphertexts and their operands could be finalized while C
functions used them, decrypting initialised the result twice, imported
signatures were never freed and a scheme that cannot be set up was returned.
---
 ecgo/ecdsa.go     | 20 +++++++++++++++++++-
 ecgo/ecelgamal.go | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/ecgo/ecdsa.go b/ecgo/ecdsa.go
index 53c8126..162b7c7 100644
--- a/ecgo/ecdsa.go
+++ b/ecgo/ecdsa.go
@@ -106,7 +106,12 @@ func NewECDSASignatureScheme(c *Curve, h hash.Hash) (ss *ECDSASignatureScheme) {
 	ss.h = h
 	hdesc.dohash = C._ecdsa_dohash(C.cgo_dohash)
 	hdesc.hsz = C.size_t(h.Size())
-	C.mpECDSASignatureScheme_init(ss.css, c.ec, &hdesc)
+	status := C.mpECDSASignatureScheme_init(ss.css, c.ec, &hdesc)
+	runtime.KeepAlive(c)
+	if status != C.int(0) {
+		C.free_ECDSASignatureScheme(ss.css)
+		return nil
+	}
 	runtime.SetFinalizer(ss, signaturescheme_clear)
 	return ss
 }
@@ -116,6 +121,11 @@ func signaturescheme_clear(ss *ECDSASignatureScheme) {
 	C.free_ECDSASignatureScheme(ss.css)
 }
 
+func signature_clear(sig *ECDSASignature) {
+	C.mpECDSASignature_clear(sig.csig)
+	C.free_ECDSASignature(sig.csig)
+}
+
 func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignature {
 	ss.h.Reset()
 	ss.h.Write(message)
@@ -128,11 +138,14 @@ func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignatur
 	sKfe := NewFieldElement(sK, ss.cv.GetAttr("n"))
 	status := C.mpECDSASignature_init_Sign(sig.csig, ss.css, sKfe.fe, C._toUCP(mhash), hsz)
 	C.free(mhash)
+	runtime.KeepAlive(sKfe)
+	runtime.KeepAlive(ss)
 	if status != C.int(0) {
 		C.free_ECDSASignature(sig.csig)
 		return nil
 	}
 	sig.ss = ss
+	runtime.SetFinalizer(sig, signature_clear)
 	return sig
 }
 
@@ -143,6 +156,8 @@ func (sig *ECDSASignature) Verify(pK *Point, message []byte) bool {
 	hsz := C.size_t(sig.ss.h.Size())
 	status := C.mpECDSASignature_verify_cmp(sig.csig, pK.ecp, C._toUCP(mhash), hsz)
 	C.free(mhash)
+	runtime.KeepAlive(sig)
+	runtime.KeepAlive(pK)
 	if status == C.int(0) {
 		return true
 	}
@@ -152,6 +167,7 @@ func (sig *ECDSASignature) Verify(pK *Point, message []byte) bool {
 func (sig *ECDSASignature) AsBytes() []byte {
 	var sz C.size_t
 	cbytes := unsafe.Pointer(C.mpECDSASignature_export_bytes(sig.csig, &sz))
+	runtime.KeepAlive(sig)
 	gobytes := C.GoBytes(cbytes, C.int(sz))
 	C.memset(cbytes, 0, sz)
 	C.free(cbytes)
@@ -167,9 +183,11 @@ func (ss *ECDSASignatureScheme) SignatureFromBytes(gobytes []byte) *ECDSASignatu
 	status := C.mpECDSASignature_init_import_bytes(sig.csig, ss.css, C._toUCP(cbytes), sz)
 	C.memset(cbytes, 0, sz)
 	C.free(cbytes)
+	runtime.KeepAlive(ss)
 	if status != 0 {
 		C.free_ECDSASignature(sig.csig)
 		return nil
 	}
+	runtime.SetFinalizer(sig, signature_clear)
 	return sig
 }
diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index 08b4fa0..52f6a3d 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -44,6 +44,14 @@ package ecgo
 //     free(csig);
 // }
 //
+// extern mpECP_ptr malloc_ECPoint();
+// extern void free_ECPoint(mpECP_ptr pt);
+//
+// void _egc_use_curve(mpECElgamalCiphertext_ptr ctxt, mpECurve_ptr cv) {
+//     ctxt->C->cvp = cv;
+//     ctxt->D->cvp = cv;
+// }
+//
 // mpECP_ptr C_of(mpECElgamalCiphertext_ptr ctxt) {
 //     return ctxt->C;
 // }
@@ -87,10 +95,15 @@ func ECElgamalEncrypt(pK *Point, ptxt *Point) (ctxt *ECElgamalCiphertext) {
 	ctxt.egc = C.malloc_ECElgamalCiphertext()
 	ctxt.cv = pK.cv
 	status := C.mpECElgamal_init_encrypt(ctxt.egc, pK.ecp, ptxt.ecp)
-	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
+	runtime.KeepAlive(pK)
+	runtime.KeepAlive(ptxt)
 	if status != C.int(0) {
+		C.free_ECElgamalCiphertext(ctxt.egc)
 		return nil
 	}
+	// ctxt keeps the Curve object of the key alive only
+	C._egc_use_curve(ctxt.egc, ctxt.cv.ec)
+	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	return ctxt
 }
 
@@ -101,23 +114,34 @@ func ecelgamalciphertext_clear(ctxt *ECElgamalCiphertext) {
 
 func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
 	sKfe := NewFieldElement(sK, ctxt.cv.GetAttr("n"))
-	ptxt = NewPointNeutral(ctxt.cv)
+	ptxt = new(Point)
+	ptxt.ecp = C.malloc_ECPoint()
+	ptxt.cv = ctxt.cv
 	status := C.mpECElgamal_init_decrypt(ptxt.ecp, sKfe.fe, ctxt.egc)
+	runtime.KeepAlive(sKfe)
+	runtime.KeepAlive(ctxt)
 	if status != C.int(0) {
+		C.free_ECPoint(ptxt.ecp)
 		return nil
 	}
+	ptxt.setCurve(ctxt.cv)
+	runtime.SetFinalizer(ptxt, point_clear)
 	return ptxt
 }
 
 func (ctxt *ECElgamalCiphertext) C() (c *Point) {
 	c = NewPointNeutral(ctxt.cv)
 	C.mpECP_set(c.ecp, C.C_of(ctxt.egc))
+	runtime.KeepAlive(c)
+	runtime.KeepAlive(ctxt)
 	return c
 }
 
 func (ctxt *ECElgamalCiphertext) D() (d *Point) {
 	d = NewPointNeutral(ctxt.cv)
 	C.mpECP_set(d.ecp, C.D_of(ctxt.egc))
+	runtime.KeepAlive(d)
+	runtime.KeepAlive(ctxt)
 	return d
 }
 
@@ -132,6 +156,10 @@ func NewECElgamalCiphertext(c, d *Point) (ctxt *ECElgamalCiphertext) {
 	C.mpECP_set(C.C_of(ctxt.egc), c.ecp)
 	C.mpECP_init(C.D_of(ctxt.egc), d.cv.ec)
 	C.mpECP_set(C.D_of(ctxt.egc), d.ecp)
+	runtime.KeepAlive(c)
+	runtime.KeepAlive(d)
+	// ctxt keeps the Curve object of c alive only
+	C._egc_use_curve(ctxt.egc, ctxt.cv.ec)
 	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	return ctxt
 }
-- 
2.43.0


From 876d01974a8cc7cc2876d208d7ee993dea4f9d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 31/31] fix: Jacobian doubling of a point of order two was not
 neutral

---
 src/ecpoint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index b4dff32..a6b2668 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -1319,6 +1319,11 @@ void mpECP_double(mpECP_t rpt, mpECP_t pt) {
                 // Y3 = M*(S-T)-8*YYYY
                 // Z3 = (Y1+Z1)**2-YY-ZZ
                 mpFp_t XX, YY, YYYY, ZZ, S, M, T;
+                // tangent is vertical
+                if (mpFp_cmp_ui(pt->y, 0) == 0) {
+                    mpECP_set_neutral(rpt, pt->cvp);
+                    return;
+                }
                 mpFp_init_fp(XX, pt->cvp->fp);
                 mpFp_init_fp(YY, pt->cvp->fp);
                 mpFp_init_fp(YYYY, pt->cvp->fp);
-- 
2.43.0

