From 4413281cc22aefd14ba401441ef58783fc64a1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 01/59] fix: classic division of an operator by an integer must
 not truncate

---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index a7d8155..937fbc6 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -431,7 +431,7 @@ class LinearOperator(BaseLinearOperator):
     def __div__(self, other):
         if not np.isscalar(other):
             raise ValueError('Cannot divide')
-        return self * (1 / other)
+        return self * (1. / other)
 
     def __truediv__(self, other):
         if not np.isscalar(other):
-- 
2.43.0


From c5cab248cdd5872f0690aa9277c5973e0c719ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 02/59] fix: inferred transpose and adjoint of a complex
 operator must lead back to it

---
 pykrylov/linop/linop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 937fbc6..da21657 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -139,11 +139,13 @@ class LinearOperator(BaseLinearOperator):
                     if self.H is None and __conj is not None:
                         self.logger.debug('Inferring .H')
                         self.__H = __conj.T
+                        self.__H.__H = self
                 if self.H is not None:
                     self.__H.__T = __conj
                     if self.T is None and __conj is not None:
                         self.logger.debug('Inferring .T')
                         self.__T = __conj.H
+                        self.__T.__T = self
 
     def __set_transpose(self, matvec, transpose_of=None, matvec_transp=None, **kwargs):
 
-- 
2.43.0


From cb7de2c93dbecd4679cfb5d8aabba208f7da25c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 03/59] fix: complex symmetric or hermitian operators keep
 their own T and H

---
 pykrylov/linop/linop.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index da21657..b0b722e 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -135,13 +135,15 @@ class LinearOperator(BaseLinearOperator):
                 # Try to infer missing operators.
                 __conj = self.conjugate()
                 if self.T is not None:
-                    self.__T.__H = __conj
+                    if not self.__T.hermitian:
+                        self.__T.__H = __conj
                     if self.H is None and __conj is not None:
                         self.logger.debug('Inferring .H')
                         self.__H = __conj.T
                         self.__H.__H = self
                 if self.H is not None:
-                    self.__H.__T = __conj
+                    if not self.__H.symmetric:
+                        self.__H.__T = __conj
                     if self.T is None and __conj is not None:
                         self.logger.debug('Inferring .T')
                         self.__T = __conj.H
@@ -725,7 +727,9 @@ def PysparseLinearOperator(A):
 def linop_from_ndarray(A, symmetric=False, **kwargs):
     "Return a linear operator from a Numpy `ndarray`."
 
-    hermitian = kwargs.get('hermitian', symmetric)
+    # Only for non-complex operators does symmetric imply hermitian.
+    hermitian = kwargs.get('hermitian',
+                           symmetric and A.dtype not in complex_types)
 
     if A.dtype in complex_types:
         return LinearOperator(A.shape[1], A.shape[0],
-- 
2.43.0


From ef46a66f645ea6394ad14530f1ba4cb5305665ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 04/59] fix: the conjugate of a symmetric or hermitian operator
 is one too

---
 pykrylov/linop/linop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index b0b722e..63da532 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -249,6 +249,8 @@ class LinearOperator(BaseLinearOperator):
             matvec_transp = matvec_adj = None
 
         return LinearOperator(self.nargin, self.nargout,
+                              symmetric=self.symmetric,
+                              hermitian=self.hermitian,
                               matvec=matvec,
                               matvec_transp=matvec_transp,
                               matvec_adj=matvec_adj,
-- 
2.43.0


From 9a582c891eac062c918e18f363e720bc20eb710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 05/59] fix: a diagonal operator must not follow later changes
 to the caller's array

---
 pykrylov/linop/linop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 63da532..130d065 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -503,8 +503,8 @@ class DiagonalOperator(LinearOperator):
         super(DiagonalOperator, self).__init__(diag.shape[0], diag.shape[0],
                                                symmetric=True,
                                                hermitian=(diag.dtype not in complex_types),
-                                               matvec=lambda x: diag*x,
-                                               matvec_adj=lambda x: diag.conjugate()*x,
+                                               matvec=lambda x: self.__diag*x,
+                                               matvec_adj=lambda x: self.__diag.conjugate()*x,
                                                dtype=diag.dtype,
                                                **kwargs)
 
-- 
2.43.0


From 71f75d5a4cc46fe8bb539a108373101228b6c25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 06/59] fix: dimensions inferred from coordinates must count
 the last row and column

---
 pykrylov/linop/linop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 130d065..d6c0899 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -649,8 +649,9 @@ def CoordLinearOperator(vals, rows, cols,
     `rows` and `cols`. If `symmetric` is `True`, then `vals`, `rows` and
     `cols` are assumed to only represent one triangle of the operator.
     """
-    if nargin == 0: nargin = cols.max()
-    if nargout == 0: nargout = rows.max()
+    if nargin == 0: nargin = cols.max() + 1
+    if nargout == 0: nargout = rows.max() + 1
+    if symmetric: nargin = nargout = max(nargin, nargout)
 
     def matvec(x):
       if x.shape != (nargin,):
-- 
2.43.0


From d2fc6680179fa1d23830360f2ed7e4d4077d6cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 07/59] fix: transpose of a block diagonal operator with
 rectangular blocks

---
 pykrylov/linop/blkop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 41511ae..8f2790b 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -184,9 +184,9 @@ class BlockDiagonalLinearOperator(LinearOperator):
 
         def blk_matvec(x, blks):
             nx = len(x)
-            nargins = [blk.shape[-1] for blk in blocks]
+            nargins = [blk.shape[-1] for blk in blks]
             nargin = sum(nargins)
-            nargouts = [blk.shape[0] for blk in blocks]
+            nargouts = [blk.shape[0] for blk in blks]
             nargout = sum(nargouts)
             self.logger.debug('Multiplying with a vector of size %d' % nx)
             self.logger.debug('nargin=%d, nargout=%d' % (nargin, nargout))
-- 
2.43.0


From f420d74332a45a1eb54830aa521d048c68bcf17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 08/59] fix: block operators must not modify nor follow the
 caller's lists of blocks

---
 pykrylov/linop/blkop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 8f2790b..ee21cde 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -33,7 +33,7 @@ class BlockLinearOperator(LinearOperator):
                 if hermitian and not block_row[0].hermitian:
                     raise ValueError('Blocks on diagonal must be hermitian.')
 
-            self._blocks = copy(blocks)
+            self._blocks = [copy(row) for row in blocks]
             for i in range(1, nrow):
                 for j in range(i - 1, -1, -1):
                     if symmetric:
@@ -42,7 +42,7 @@ class BlockLinearOperator(LinearOperator):
                         self._blocks[i].insert(0, self._blocks[j][i].H)
 
         else:
-            self._blocks = copy(blocks)
+            self._blocks = [copy(row) for row in blocks]
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockLinearOperator')
@@ -164,7 +164,7 @@ class BlockDiagonalLinearOperator(LinearOperator):
         hermitian = reduce(lambda x, y: x and y,
                            [blk.hermitian for blk in blocks])
 
-        self._blocks = blocks
+        self._blocks = list(blocks)
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockDiagonalLinearOperator')
-- 
2.43.0


From 0994b0342af6380399bbd91ee28a1eb748825a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 09/59] fix: assigning a block of a symmetric block operator
 must update its adjoint

---
 pykrylov/linop/blkop.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index ee21cde..c6d1adf 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -139,9 +139,8 @@ class BlockLinearOperator(LinearOperator):
                         self._blocks[i][j] = self._blocks[j][i].T
                     else:
                         self._blocks[i][j] = self._blocks[j][i].H
-        else:
-            self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
-            self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
+        self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
+        self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
 
     def __contains__(self, op):
         return op in list(itertools.chain(*self.blocks))
-- 
2.43.0


From 2eeca4b89755507b2f15fa85d0ddb09c2a50e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:13 +0000
Subject: [PATCH 10/59] fix: block operators must check the shapes of all block
 columns

---
 pykrylov/linop/blkop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index c6d1adf..4760984 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -49,9 +49,9 @@ class BlockLinearOperator(LinearOperator):
 
         nargins = [[blk.shape[-1] for blk in row] for row in self._blocks]
         log.debug('nargins = ' + repr(nargins))
-        nargins_by_row = [nargin[0] for nargin in nargins]
-        if min(nargins_by_row) != max(nargins_by_row):
-            raise ShapeError('Inconsistent block shapes')
+        for row in nargins:
+            if row != nargins[0]:
+                raise ShapeError('Inconsistent block shapes')
 
         nargouts = [[blk.shape[0] for blk in row] for row in self._blocks]
         log.debug('nargouts = ' + repr(nargouts))
-- 
2.43.0


From 3f1892f8fb2be1f9990e75dbff3a9d1dd8376ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 11/59] fix: a block diagonal operator must refuse a block that
 is not an operator

---
 pykrylov/linop/blkop.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 4760984..23094a9 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -243,11 +243,12 @@ class BlockDiagonalLinearOperator(LinearOperator):
 
     def __setitem__(self, idx, ops):
         if not isinstance(ops, BaseLinearOperator):
-            if isinstance(ops, list) or isinstance(ops, tuple):
-                for op in ops:
-                    if not isinstance(op, BaseLinearOperator):
-                        msg = 'Block operators can only contain linear operators'
-                        raise ValueError(msg)
+            if not (isinstance(ops, list) or isinstance(ops, tuple)):
+                ops = [ops]
+            for op in ops:
+                if not isinstance(op, BaseLinearOperator):
+                    msg = 'Block operators can only contain linear operators'
+                    raise ValueError(msg)
         self._blocks.__setitem__(idx, ops)
         if not self.symmetric:
             self._blocksT = [blk.T for blk in self._blocks]
-- 
2.43.0


From a301c010272091fdda9c945d35671f5e702a3fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 12/59] fix: the forward L-BFGS operator ignored scaling

---
 pykrylov/linop/lbfgs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index f570bf6..420ff3f 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -154,6 +154,12 @@ class LBFGSOperator(InverseLBFGSOperator):
         b = np.zeros((self.n, self.npairs))
         a = np.zeros((self.n, self.npairs))
 
+        if self.scaling:
+            last = (self.insert - 1) % self.npairs
+            if ys[last] is not None:
+                self.gamma = ys[last] / np.dot(y[:, last], y[:, last])
+                q /= self.gamma
+
         # B = Σ aa' - bb'.
         for i in range(self.npairs):
             k = (self.insert + i) % self.npairs
@@ -161,7 +167,7 @@ class LBFGSOperator(InverseLBFGSOperator):
                 b[:, k] = y[:, k] / ys[k]**.5
                 bv = np.dot(b[:, k], v[:])
                 q += bv * b[:, k]
-                a[:, k] = s[:, k].copy()
+                a[:, k] = s[:, k] / self.gamma
                 for j in range(i):
                     l = (self.insert + j) % self.npairs
                     if ys[l] is not None:
-- 
2.43.0


From 0a570a546593af7a425fb4703092a81ad01ed9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 13/59] fix: L-BFGS operators multiply integer and complex
 vectors

---
 pykrylov/linop/lbfgs.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 420ff3f..d8adcee 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -101,11 +101,11 @@ class InverseLBFGSOperator(LinearOperator):
         positive-definite approximation to the inverse Hessian matrix and the
         vector v using the LBFGS two-loop recursion formula.
         """
-        q = v.copy()
+        q = 1.0 * v
         s = self.s
         y = self.y
         ys = self.ys
-        alpha = self.alpha
+        alpha = np.empty(self.npairs, q.dtype)
         for i in range(self.npairs):
             k = (self.insert - 1 - i) % self.npairs
             if ys[k] is not None:
@@ -147,7 +147,7 @@ class LBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and storing key dot products.
         """
-        q = v.copy()
+        q = 1.0 * v
         s = self.s
         y = self.y
         ys = self.ys
@@ -201,13 +201,13 @@ class CompactLBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and caching key dot products.
         """
-        q = v.copy()
-        r = v.copy()
+        q = 1.0 * v
+        r = 1.0 * v
         s = self.s
         y = self.y
         ys = self.ys
         prodn = 2 * self.npairs
-        a = np.zeros(prodn)
+        a = np.zeros(prodn, q.dtype)
         minimat = np.zeros([prodn, prodn])
 
         if self.scaling:
@@ -294,7 +294,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and storing key dot products.
         """
-        q = v.copy()
+        q = 1.0 * v
         s = self.s
         y = self.y
         yd = self.yd
-- 
2.43.0


From 749237b1f25c9e0e85faa7e154659b8bdfff319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 14/59] fix: a structured L-BFGS operator could be neither
 constructed nor updated

---
 pykrylov/linop/lbfgs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index d8adcee..ce8c67b 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -280,7 +280,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
                          done as 'method M3' in the LBFGS paper by Zhou and
                          Nocedal; the scaling factor is s'y/y'y (default: False).
         """
-        super(StructuredLBFGSOperator, self).__init__(self, n, npairs, **kwargs)
+        super(StructuredLBFGSOperator, self).__init__(n, npairs, **kwargs)
         self.yd = np.empty((self.n, self.npairs))
         self.accept_threshold = 1e-8
 
@@ -340,7 +340,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         | y_k' s_k + (y's s_k' B_k s_k)**.5 | >= 1e-8.
         """
         ys = np.dot(new_s, new_y)
-        Bs = self.matvec(new_s)
+        Bs = self * new_s
         ypBs = ys + (ys * np.dot(new_s, Bs))**0.5
 
         if ypBs >= self.accept_threshold:
@@ -352,5 +352,5 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
             self.insert += 1
             self.insert = self.insert % self.npairs
         else:
-            self.log.debug('Rejecting (s,y) pair')
+            self.logger.debug('Rejecting (s,y) pair')
         return
-- 
2.43.0


From fcd016b487a8ec2add8f81301b8d4fa92dd3f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 15/59] fix: structured L-BFGS products did not satisfy the
 secant equation

---
 pykrylov/linop/lbfgs.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index ce8c67b..3dcfc4f 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -315,17 +315,16 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         for i in range(npairs):
             k = (self.insert + i) % npairs
             if ys[k] is not None:
-                coef = (self.gamma * ys[k] / np.dot(s[:, k], s[:, k]))**0.5
-                a[:, k] = y[:, k] + coef * s[:, k] / self.gamma
-                ad[:, k] = yd[:, k] - s[:, k] / self.gamma
+                Bs = s[:, k] / self.gamma
                 for j in range(i):
                     l = (self.insert + j) % npairs
                     if ys[l] is not None:
                         alTs = np.dot(a[:, l], s[:, k]) / aTs[l]
                         adlTs = np.dot(ad[:, l], s[:, k])
-                        update = alTs / aTs[l] * ad[:, l] + adlTs / aTs[l] * a[:, l] - adTs[l] / aTs[l] * alTs * a[:, l]
-                        a[:, k] += coef * update
-                        ad[:, k] -= update
+                        Bs += alTs * ad[:, l] + adlTs / aTs[l] * a[:, l] - adTs[l] / aTs[l] * alTs * a[:, l]
+                coef = (ys[k] / np.dot(s[:, k], Bs))**0.5
+                a[:, k] = y[:, k] + coef * Bs
+                ad[:, k] = yd[:, k] - Bs
                 aTs[k] = np.dot(a[:, k], s[:, k])
                 adTs[k] = np.dot(ad[:, k], s[:, k])
                 aTv = np.dot(a[:, k], v[:])
-- 
2.43.0


From 5392b656818eca628b30e0dca62201f540cfcb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 16/59] fix: preconditioned CG must update its directions with
 preconditioned residuals

---
 pykrylov/cg/cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index d733de6..61abd7d 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -101,7 +101,7 @@ class CG( KrylovMethod ):
         self.residHistory.append(self.residNorm0)
         threshold = max(self.abstol, self.reltol * self.residNorm0)
 
-        p = -r   # Initial search direction (copy not to overwrite rhs if x=0)
+        p = -y   # Initial search direction (copy not to overwrite rhs if x=0)
 
         hdr_fmt = '%6s  %7s  %8s'
         hdr = hdr_fmt % ('Matvec', 'Resid', 'Curv')
@@ -148,7 +148,7 @@ class CG( KrylovMethod ):
             # Update search direction
             beta = ry_next/ry
             p *= beta
-            p -= r
+            p -= y
 
             ry = ry_next
             residNorm = np.abs(np.sqrt(ry))
-- 
2.43.0


From 731583421f7dbee99b869e52d2617180f3d69964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 17/59] fix: iterative solvers accept integer and
 single-precision right-hand sides

---
 pykrylov/bicgstab/bicgstab.py | 3 ++-
 pykrylov/cg/cg.py             | 3 ++-
 pykrylov/cgs/cgs.py           | 3 ++-
 pykrylov/lls/craig.py         | 3 ++-
 pykrylov/lls/craigmr.py       | 3 ++-
 pykrylov/lls/lsmr.py          | 3 ++-
 pykrylov/lls/lsqr.py          | 3 ++-
 pykrylov/minres/minres.py     | 3 ++-
 pykrylov/tfqmr/tfqmr.py       | 3 ++-
 9 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 447e901..42c1cb9 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -53,7 +53,8 @@ class BiCGSTAB( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, (1.0 * rhs).dtype)
+        rhs = rhs.astype(result_type)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 61abd7d..1e1c0df 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -72,7 +72,8 @@ class CG( KrylovMethod ):
                 return
 
         # Initial guess
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, (1.0 * rhs).dtype)
+        rhs = rhs.astype(result_type)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
 
diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index a878699..973ad29 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -50,7 +50,8 @@ class CGS( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, (1.0 * rhs).dtype)
+        rhs = rhs.astype(result_type)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 22592ae..2c462ea 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -17,6 +17,7 @@ dominique.orban@gerad.ca
 
 from pykrylov.generic import KrylovMethod
 
+import numpy as np
 from numpy import zeros, dot, inf
 from numpy.linalg import norm
 from math import sqrt
@@ -209,7 +210,7 @@ class CRAIGFramework(KrylovMethod):
         dErr = zeros(window)     # Truncated direct error terms.
         trncDirErr = 0           # Truncated direct error.
 
-        Mu = rhs[:m].copy()
+        Mu = rhs[:m].astype(np.result_type(rhs.dtype, float))
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 12ecbed..8d13842 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -5,6 +5,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
+import numpy as np
 from numpy import zeros, dot
 from numpy.linalg import norm
 from math import sqrt
@@ -72,7 +73,7 @@ class CRAIGMRFramework(KrylovMethod):
 
         # Initialize the Golub-Kahan bidiagonalization process.
 
-        Mu = b.copy()  # Don't want to change input vector.
+        Mu = b.astype(np.result_type(b.dtype, float))  # Copy of the input vector.
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 05d1c59..453cd9b 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -21,6 +21,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
+import numpy as np
 from numpy import zeros, dot
 from numpy.linalg import norm
 from math import sqrt
@@ -207,7 +208,7 @@ class LSMRFramework(KrylovMethod):
 
         # Initialize the Golub-Kahan bidiagonalization process.
 
-        Mu = b.copy()
+        Mu = b.astype(np.result_type(b.dtype, float))  # Copy of the input vector.
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 2cb1297..0533def 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -13,6 +13,7 @@ Dominique Orban, Ecole Polytechnique de Montreal
 
 from pykrylov.generic import KrylovMethod
 
+import numpy as np
 from numpy import zeros, dot, inf
 from numpy.linalg import norm
 from math import sqrt
@@ -185,7 +186,7 @@ class LSQRFramework(KrylovMethod):
         if store_iterates:
             self.iterates.append(x.copy())
 
-        Mu = rhs[:m].copy()
+        Mu = rhs[:m].astype(np.result_type(rhs.dtype, float))
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index ab9bb5d..499d666 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -132,7 +132,8 @@ class Minres(KrylovMethod):
         self.dir_errors_window = []  # Direct error estimates.
         self.iterates = []
 
-        result_type = np.result_type(A.dtype, b.dtype)
+        result_type = np.result_type(A.dtype, (1.0 * b).dtype)
+        b = b.astype(result_type)
         x = zeros(n, dtype=result_type)
         xNrgNorm2 = 0.0          # Squared energy norm of final solution.
         dErr = zeros(window)     # Truncated direct error terms.
diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 5f2e55d..f591c1e 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -49,7 +49,8 @@ class TFQMR( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, (1.0 * rhs).dtype)
+        rhs = rhs.astype(result_type)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
-- 
2.43.0


From 8e1808ad8cc9266352395af70004c4acbc57c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 18/59] fix: a solver object must not carry results of earlier
 solves over

---
 pykrylov/cg/cg.py         | 11 +++++++++++
 pykrylov/minres/minres.py |  2 ++
 pykrylov/symmlq/symmlq.py |  2 ++
 3 files changed, 15 insertions(+)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 1e1c0df..6755042 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -66,6 +66,17 @@ class CG( KrylovMethod ):
         store_resids = kwargs.get('store_resids', False)
         store_iterates = kwargs.get('store_iterates', False)
 
+        # Forget the outcome of previous solves.
+        self.residHistory = []
+        self.resids = []
+        self.iterates = []
+        self.infiniteDescent = None
+        self.definite = True
+        self.converged = False
+        self.nMatvec = 0
+        self.residNorm = self.residNorm0 = None
+        self.bestSolution = self.x = None
+
         if check_sym:
             if not check_symmetric(self.op):
                 self.logger.error('Coefficient operator is not symmetric')
diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 499d666..d9cb3ff 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -129,6 +129,8 @@ class Minres(KrylovMethod):
         store_iterates = kwargs.get('store_iterates', False)
         window = kwargs.get('window', 5)
 
+        self.residHistory = []       # Residual norms.
+        self.resids = []             # Residual vectors.
         self.dir_errors_window = []  # Direct error estimates.
         self.iterates = []
 
diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index a756d45..3dc8098 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -93,6 +93,8 @@ class Symmlq(KrylovMethod) :
         eps = machine_epsilon()
         store_iterates = kwargs.get('store_iterates', False)
 
+        self.iterates = []
+
         first = 'Enter SYMMLQ.   '
         last  = 'Exit  SYMMLQ.   '
         space = ' '
-- 
2.43.0


From b97c897f339e7515716a08a002e82fa46d3a0083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 19/59] fix: CGS and TFQMR must count the product spent on the
 initial guess

---
 pykrylov/cgs/cgs.py     | 1 +
 pykrylov/tfqmr/tfqmr.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index 973ad29..a0e9ca9 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -59,6 +59,7 @@ class CGS( KrylovMethod ):
         r0 = rhs  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.dot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index f591c1e..29de020 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -58,6 +58,7 @@ class TFQMR( KrylovMethod ):
         r0 = rhs  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.dot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
-- 
2.43.0


From 2377134f1e57fe3e71809c4bb988e5503cf962b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 20/59] fix: TFQMR crashed when there is nothing to do and
 ignored exact convergence

---
 pykrylov/tfqmr/tfqmr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 29de020..86e59fb 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -67,6 +67,7 @@ class TFQMR( KrylovMethod ):
         self.logger.info('Initial residual = %8.2e' % self.residNorm0)
         self.logger.info('Threshold = %8.2e' % threshold)
 
+        m = 0.0
         finished = (residNorm <= threshold or nMatvec >= matvec_max)
 
         if not finished:
@@ -100,7 +101,7 @@ class TFQMR( KrylovMethod ):
             eta = c * c * alpha
             x += eta * d
             m = 2.0 * k - 1.0
-            if residNorm * np.sqrt(m+1) < threshold or nMatvec >= matvec_max:
+            if residNorm * np.sqrt(m+1) <= threshold or nMatvec >= matvec_max:
                 finished = True
                 continue
 
@@ -122,7 +123,7 @@ class TFQMR( KrylovMethod ):
             residNorm *= theta * c
             eta = c * c * alpha
             x += eta * d
-            if residNorm * np.sqrt(m+1) < threshold or nMatvec >= matvec_max:
+            if residNorm * np.sqrt(m+1) <= threshold or nMatvec >= matvec_max:
                 finished = True
                 continue
 
@@ -155,7 +156,7 @@ class TFQMR( KrylovMethod ):
             self.logger.info('%5d  %8.2e' % (nMatvec, residNorm))
 
 
-        self.converged = residNorm * np.sqrt(m+1) < threshold
+        self.converged = residNorm * np.sqrt(m+1) <= threshold
         self.nMatvec = nMatvec
         self.bestSolution = self.x = x
         self.residNorm = residNorm
-- 
2.43.0


From a7c0e3c31eb59118a60926fab596708bc8d6b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 21/59] fix: Bi-CGSTAB out of products must return the iterate
 it reports on

---
 pykrylov/bicgstab/bicgstab.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 42c1cb9..8f9ab23 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -109,15 +109,11 @@ class BiCGSTAB( KrylovMethod ):
 
             self.logger.info('%6d  %8.2e' % (nMatvec, residNorm))
 
-            if residNorm <= threshold:
+            if residNorm <= threshold or nMatvec >= matvec_max:
                 x += alpha * q
                 finished = True
                 continue
 
-            if nMatvec >= matvec_max:
-                finished = True
-                continue
-
             if self.precon is not None:
                 z = self.precon * s
             else:
-- 
2.43.0


From ed381d0609a42d28e49c0c248eb292130387f589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 22/59] fix: SYMMLQ called a nonexistent method for its first
 product

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 3dc8098..4f9848b 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -161,7 +161,7 @@ class Symmlq(KrylovMethod) :
             s     = 1.0 / beta1
             v     = s * y
 
-            y = self.matvec(v) ; nMatvec += 1
+            y = self.op * v ; nMatvec += 1
             if check:
                 r2 = self.op * y  # Do not count this matrix-vector product
                 s = np.dot(y,y)
-- 
2.43.0


From 043eaaf4747ae249ea9fa2e59977c8fadbf0e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 23/59] fix: SYMMLQ crashed on a zero right-hand side and on
 failed checks

---
 pykrylov/symmlq/symmlq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 4f9848b..4624be8 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -120,6 +120,7 @@ class Symmlq(KrylovMethod) :
         istop  = 0 ; ynorm  = 0 ; w = np.zeros(n) ; acond = 0
         itn    = 0 ; xnorm  = 0 ; x = np.zeros(n) ; done=False
         anorm  = 0 ; rnorm  = 0 ; v = np.zeros(n)
+        bstep  = 0 ; x1cg   = 0 ; qrnorm = 0 ; cgnorm = 0 ; lqnorm = 0
 
         if store_iterates:
             self.iterates.append(x.copy())
@@ -225,7 +226,7 @@ class Symmlq(KrylovMethod) :
         self.logger.info(head1 + head2)
 
         str1 = '%6g %12.5e %10.3e' % (itn, x1cg, cgnorm)
-        str2 = ' %10.3e  %8.1e' %    (qrnorm, bstep/beta1)
+        str2 = ' %10.3e  %8.1e' %    (qrnorm, bstep)
         self.logger.info(str1 + str2)
 
         # ------------------------------------------------------------------
@@ -368,7 +369,7 @@ class Symmlq(KrylovMethod) :
 
         # Add the step along b.
 
-        bstep  = bstep / beta1
+        if beta1 > 0: bstep = bstep / beta1
         if self.precon is not None:
             y = self.precon * rhs
         else:
-- 
2.43.0


From e85549bc60a411d3a23649155cd3e21485d75bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 24/59] fix: SYMMLQ out of products must stop at a consistent
 point

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 4624be8..985a1e7 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -235,7 +235,7 @@ class Symmlq(KrylovMethod) :
         # Estimate various norms and test for convergence.
 
         if not done:
-            while nMatvec < matvec_max:
+            while True:
                 itn    = itn  +  1
                 anorm  = np.sqrt(tnorm)
                 ynorm  = np.sqrt(ynorm2)
-- 
2.43.0


From bbb927decb71d10cab0b5c447c456dcf78790a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 25/59] fix: SYMMLQ never reported convergence

---
 pykrylov/symmlq/symmlq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 985a1e7..dd6b238 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -397,6 +397,9 @@ class Symmlq(KrylovMethod) :
         self.logger.info(last + msg[istop])
 
         self.nMatvec = nMatvec
+        self.converged = istop in [-1,0,1,2]
+        self.istop = istop ; self.itn = itn
+        self.residNorm0 = np.linalg.norm(rhs)
         self.bestSolution = x ; self.solutionNorm = xnorm
         self.x = self.bestSolution ; self.xNorm = xnorm
         self.residNorm = rnorm
-- 
2.43.0


From c9788cd66017254846f1d3321a2525f963a4eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 26/59] fix: recorded SYMMLQ iterates lacked the step along the
 right-hand side

---
 pykrylov/symmlq/symmlq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index dd6b238..ce942ec 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -161,6 +161,7 @@ class Symmlq(KrylovMethod) :
             beta1 = np.sqrt(beta1)
             s     = 1.0 / beta1
             v     = s * y
+            v1    = v.copy()
 
             y = self.op * v ; nMatvec += 1
             if check:
@@ -338,12 +339,11 @@ class Symmlq(KrylovMethod) :
                 x += s*w + t*v
                 w *= sn ; w -= cs*v
 
-                if store_iterates:
-                    self.iterates.append(x.copy())
-
                 # Accumulate the step along the direction b, and go round again.
 
                 bstep  = snprod * cs * z  +  bstep
+                if store_iterates:
+                    self.iterates.append(x + bstep * v1)
                 snprod = snprod * sn
                 gmax   = max(gmax, gamma)
                 gmin   = min(gmin, gamma)
-- 
2.43.0


From 999fc4ea9c5c705f2d6c449754f80d1a1a3d7568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 27/59] fix: MINRES ignored the preconditioner given to its
 constructor

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index d9cb3ff..9f84005 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -118,7 +118,7 @@ class Minres(KrylovMethod):
         n = b.shape[0]
 
         # Read keyword arguments
-        precon = kwargs.get('precon', None)
+        precon = kwargs.get('precon', self.precon)
         shift  = kwargs.get('shift',  0.0)
         show   = kwargs.get('show',   True)
         check  = kwargs.get('check',  True)
-- 
2.43.0


From 3c45e08fe650eebbc70cd6c00fd21b8502b3ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 28/59] fix: MINRES and CRAIG-MR must print only when asked to

---
 pykrylov/lls/craigmr.py   | 1 -
 pykrylov/minres/minres.py | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 8d13842..81725de 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -188,7 +188,6 @@ class CRAIGMRFramework(KrylovMethod):
             zeta     = c_hat * zeta_hat
             zeta_hat = s_hat * zeta_hat
             xNrgNorm2 += zeta * zeta
-            print itn, xNrgNorm2
             d = (u - beta_hat * d) / alpha_hat
             x += zeta * dbar
 
diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 9f84005..e390840 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -196,7 +196,7 @@ class Minres(KrylovMethod):
         if check and (precon is not None):
             if not check_symmetric(precon):
                 istop = 8
-                show = True
+                self.show = True
                 done = True
 
         # -------------------------------------------------------------------
@@ -383,7 +383,7 @@ class Minres(KrylovMethod):
 
                 if istop > 0: break
 
-                if (itn % 10)==0: print ' '
+                if show and (itn % 10)==0: print ' '
 
         # Display final status.
 
-- 
2.43.0


From cb1cb0d7bb3339595f52c2bf7e521549b92026b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 29/59] fix: MINRES did not stop on nor report exact solutions
 as converged

---
 pykrylov/minres/minres.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index e390840..2f29d07 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -381,10 +381,13 @@ class Minres(KrylovMethod):
                     str3 = ' %8.1e %8.1e %8.1e' % (Anorm, Acond, gbar/Anorm)
                     print str1 + str2 + str3
 
-                if istop > 0: break
+                if istop != 0: break
 
                 if show and (itn % 10)==0: print ' '
 
+        # No iteration was allowed.
+        if istop == 0 and not done: istop = 6
+
         # Display final status.
 
         if show:
@@ -395,7 +398,7 @@ class Minres(KrylovMethod):
             print last+' Arnorm  =  %12.4e' % Arnorm
             print last+self.msg[istop+1]
 
-        self.converged = istop in [1,2,3,4,10]
+        self.converged = istop in [-1,0,1,2,3,4,10]
         if istop == 10: self.status = 'direct error small'
         self.bestSolution = self.x = x
         self.istop = istop
-- 
2.43.0


From c037acc6ff02fcb28e1bfba35753239f258e5412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 30/59] fix: CRAIG crashed on a zero right-hand side

---
 pykrylov/lls/craig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 2c462ea..b079e86 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -217,6 +217,8 @@ class CRAIGFramework(KrylovMethod):
             u = Mu
 
         alpha = 0.
+        Arnorm = 0.
+        v = zeros(n)
         beta = sqrt(dot(u,Mu))       # norm(u)
         if beta > 0:
             u /= beta
-- 
2.43.0


From 8847cab0efeeaeddc6ed96b0c1de88f1d088a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 31/59] fix: LSQR and CRAIG crashed when asked for variances

---
 pykrylov/lls/craig.py | 2 +-
 pykrylov/lls/lsqr.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index b079e86..f041242 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -177,7 +177,7 @@ class CRAIGFramework(KrylovMethod):
         if itnlim == 0: itnlim = 3*n
 
         if wantvar:
-            var = zeros(n,1)
+            var = zeros(n)
         else:
             var = None
 
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 0533def..30da196 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -153,7 +153,7 @@ class LSQRFramework(KrylovMethod):
         if itnlim == 0: itnlim = 3*n
 
         if wantvar:
-            var = zeros(n,1)
+            var = zeros(n)
         else:
             var = None
 
-- 
2.43.0


From ce75465a10ff042c0462d64c1005964a9a0b614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 32/59] fix: LSQR ignored the limit on the condition number

---
 pykrylov/lls/lsmr.py | 2 +-
 pykrylov/lls/lsqr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 453cd9b..e652822 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -276,7 +276,7 @@ class LSMRFramework(KrylovMethod):
         normb  = beta
         istop  = 0
         ctol   = 0
-        if conlim > 0: ctol = 1/conlim
+        if conlim > 0: ctol = 1.0/conlim
         normr  = beta
 
         # Reverse the order here from the original matlab code because
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 30da196..fc1e971 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -161,7 +161,7 @@ class LSQRFramework(KrylovMethod):
 
         itn = istop = 0
         ctol = 0.0
-        if conlim > 0.0: self.ctol = 1.0/conlim
+        if conlim > 0.0: ctol = 1.0/conlim
         Anorm = Acond = 0.
         z = xnorm = xxnorm = ddnorm = res2 = 0.
         cs2 = -1. ; sn2 = 0.
-- 
2.43.0


From 1bb204b3d406e153470e8a21d33b302b643ceaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 33/59] fix: least-squares solvers on exact, zero and
 one-dimensional problems

---
 pykrylov/lls/craigmr.py | 2 +-
 pykrylov/lls/lsmr.py    | 9 ++++++---
 pykrylov/lls/lsqr.py    | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 81725de..5f2ed65 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -61,7 +61,7 @@ class CRAIGMRFramework(KrylovMethod):
         self.init_data()
 
         A = self.A
-        b = b.squeeze()
+        b = b.squeeze().reshape(-1)
         msg = self.msg
 
         m, n = A.shape
diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index e652822..c203989 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -22,7 +22,7 @@ __docformat__ = 'restructuredtext'
 from pykrylov.generic import KrylovMethod
 
 import numpy as np
-from numpy import zeros, dot
+from numpy import zeros, dot, inf
 from numpy.linalg import norm
 from math import sqrt
 
@@ -179,7 +179,7 @@ class LSMRFramework(KrylovMethod):
         self.iterates = []
 
         A = self.A
-        b = b.squeeze()
+        b = b.squeeze().reshape(-1)
         msg = self.msg
 
         hdg1 = '   itn      x(1)       norm r    norm A''r'
@@ -421,7 +421,10 @@ class LSMRFramework(KrylovMethod):
             # some of which will be small near a solution.
 
             test1   = normr /normb
-            test2   = normar/(normA*normr)
+            if normA == 0. or normr == 0.:
+                test2 = inf
+            else:
+                test2 = normar/(normA*normr)
             test3   =      1/condA
             t1      =  test1/(1 + normA*normx/normb)
             rtol    = btol + atol*normA*normx/normb
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index fc1e971..5f398a4 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -439,7 +439,7 @@ class LSQRFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = istop in [0,1,2,4,5,8]
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
-- 
2.43.0


From 72bc01179ad904331bbc07f97127ec22bf4f403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:53 +0000
Subject: [PATCH 34/59] fix: LSMR did not store its outcome

---
 pykrylov/lls/lsmr.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index c203989..c25e76d 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -285,6 +285,7 @@ class LSMRFramework(KrylovMethod):
         if normar == 0:
             if show:
                 print msg[0]
+            self._set_results(x, istop, itn, normr, normar, normA, condA, normx)
             return x, istop, itn, normr, normar, normA, condA, normx
 
         if show:
@@ -478,6 +479,9 @@ class LSMRFramework(KrylovMethod):
 
             if istop > 0: break
 
+        # No iteration was allowed.
+        if istop == 0: istop = 7
+
         # Print the stopping condition.
 
         if show:
@@ -492,9 +496,27 @@ class LSMRFramework(KrylovMethod):
             print str3, str4
             print 'Estimated energy norm of x: %7.1e' % sqrt(xNrgNorm2)
 
-        self.x = x
+        self._set_results(x, istop, itn, normr, normar, normA, condA, normx)
         return x, istop, itn, normr, normar, normA, condA, normx
 
+    def _set_results(self, x, istop, itn, normr, normar, normA, condA, normx):
+        "Store the outcome of a solve in members, as other methods do."
+        if istop == 0: self.status = 'solution is zero'
+        if istop in [1,2,4,5]: self.status = 'residual small'
+        if istop in [3,6]: self.status = 'ill-conditioned operator'
+        if istop == 7: self.status = 'max iterations'
+        if istop == 8: self.status = 'direct error small'
+        self.optimal = istop in [0,1,2,4,5,8]
+        self.x = self.bestSolution = x
+        self.istop = istop
+        self.itn = itn
+        self.nMatvec = 2*itn
+        self.r2norm = self.residNorm = normr
+        self.Anorm = normA
+        self.Acond = condA
+        self.Arnorm = normar
+        self.xnorm = normx
+
 
 def sign(a):
     if a < 0: return -1
-- 
2.43.0


From 6a50bead68d4fc0c0291ac8b0983a005706ee3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 35/59] fix: the symmetry check must not reseed the global
 random generator

---
 pykrylov/tools/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index f37d678..acad88a 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -71,9 +71,9 @@ def check_symmetric(op, repeats=10):
     if m != n:
         return False
     eps = machine_epsilon()
-    np.random.seed(1)
+    rng = np.random.RandomState(1)
     for _ in xrange(repeats):
-        x = np.random.random(n)
+        x = rng.random_sample(n)
         w = op * x
         r = op * w
         s = np.dot(w, w)
-- 
2.43.0


From 3e8a46e83a33c27cf5c05f87b9cbfc9e93ba371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 36/59] fix: the definiteness check must look at directions of
 mixed signs

---
 pykrylov/tools/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index acad88a..04006ef 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -96,7 +96,7 @@ def check_positive_definite(op, repeats=10, semi=False):
     if m != n:
         return False
     for _ in xrange(repeats):
-        v = np.random.random(n)
+        v = 2.0 * np.random.random(n) - 1.0
         w = op * v
         vw = np.dot(v, w)
         eps = machine_epsilon()
-- 
2.43.0


From 48326164a4164a373c96bde9724b8612628fbd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 37/59] fix: CRAIG energy norms lacked their first component

---
 pykrylov/lls/craig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index f041242..37d28af 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -252,6 +252,7 @@ class CRAIGFramework(KrylovMethod):
         tau   = beta / rho
         r     = tau * d
         rnorm = tau * tau
+        rNrgNorm2 = tau * tau
 
         # Primal variable initialization.
         c     = alpha / rho
@@ -262,6 +263,7 @@ class CRAIGFramework(KrylovMethod):
         w     = c * v
         wbar  = s * v
         x     = zeta * w
+        xNrgNorm2 = zeta * zeta
         xnorm = eta * eta
 
         #rnorm  = zeta * zeta    # = ||b - Ax||^2_M + \|x\|^2_N.
-- 
2.43.0


From 641feb0bf067593fa66b86fc14b590ed679993eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:06 +0000
Subject: [PATCH 38/59] fix: refining a nearly double root of a quadratic could
 ruin it

---
 pykrylov/tools/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index 04006ef..232cce4 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -53,8 +53,10 @@ def roots_quadratic(q2, q1, q0, tol=1.0e-8, nitref=1):
             der = 2.0 * a2 * root + a1
             if der == 0.0:
                 continue
-            else:
-                root = root - val/der
+            # Near a double root, a Newton step can do more harm than good.
+            trial = root - val/der
+            if abs((a2 * trial + a1) * trial + a0) <= abs(val):
+                root = trial
         new_roots.append(root)
 
     return new_roots
-- 
2.43.0


From 1e337796351e5ceeda9e89d6defef92077398fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 39/59] fix: the zeroth power of an operator has the operator's
 dtype

---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index d6c0899..0cb26e7 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -452,7 +452,7 @@ class LinearOperator(BaseLinearOperator):
         if self.nargin != self.nargout:
             raise ShapeError('Can only raise square operators to a power')
         if other == 0:
-            return IdentityOperator(self.nargin)
+            return IdentityOperator(self.nargin, dtype=self.dtype)
         if other == 1:
             return self
         return self * self**(other-1)
-- 
2.43.0


From 7871ad4048a7fb7af30ef01deefba490906e24d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 40/59] fix: block operators refuse non-operators and are left
 unchanged

---
 pykrylov/linop/blkop.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 23094a9..67f1a48 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -131,7 +131,12 @@ class BlockLinearOperator(LinearOperator):
     def __setitem__(self, indices, val):
         blks_mat = np.matrix(self._blocks, dtype=object)
         blks_mat.__setitem__(indices, val)
-        self._blocks = blks_mat.tolist()
+        blocks = blks_mat.tolist()
+        for op in itertools.chain(*blocks):
+            if not isinstance(op, BaseLinearOperator):
+                msg = 'Block operators can only contain linear operators'
+                raise ValueError(msg)
+        self._blocks = blocks
         if self.symmetric or self.hermitian:
             for i in range(1, len(self._blocks)):
                 for j in range(i):
@@ -242,13 +247,16 @@ class BlockDiagonalLinearOperator(LinearOperator):
         return blks
 
     def __setitem__(self, idx, ops):
-        if not isinstance(ops, BaseLinearOperator):
-            if not (isinstance(ops, list) or isinstance(ops, tuple)):
-                ops = [ops]
-            for op in ops:
-                if not isinstance(op, BaseLinearOperator):
-                    msg = 'Block operators can only contain linear operators'
-                    raise ValueError(msg)
+        if not (isinstance(idx, slice) and isinstance(ops, (list, tuple))):
+            new_ops = [ops]
+        else:
+            new_ops = ops
+        for op in new_ops:
+            if not isinstance(op, BaseLinearOperator):
+                msg = 'Block operators can only contain linear operators'
+                raise ValueError(msg)
+        if isinstance(idx, slice):
+            ops = new_ops
         self._blocks.__setitem__(idx, ops)
         if not self.symmetric:
             self._blocksT = [blk.T for blk in self._blocks]
-- 
2.43.0


From 82c45dbd9a504b232ca5b33673ea82430c9bbd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 41/59] fix: MINRES keeps the right-hand side's norm out of its
 estimate of the operator's

---
 pykrylov/minres/minres.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 2f29d07..994374e 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -256,7 +256,8 @@ class Minres(KrylovMethod):
                     istop = 6
                     break
                 beta   = sqrt(beta)
-                tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
+                tnorm2 = tnorm2 + alfa**2 + beta**2
+                if itn >= 2: tnorm2 = tnorm2 + oldb**2  # beta1 is not in T
 
                 if itn==1:                    # Initialize a few things.
                     if beta/beta1 <= 10*eps:  # beta2 = 0 or ~ 0.
-- 
2.43.0


From 293c0c1ba220e6f7cdf5be94d090c28aff43c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:55 +0000
Subject: [PATCH 42/59] fix: MINRES keeps the iterate that passes its
 least-squares test

---
 pykrylov/minres/minres.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 994374e..b1dd64b 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -283,6 +283,17 @@ class Minres(KrylovMethod):
                 root   = self.normof2(gbar, dbar)
                 Arnorm = phibar * root
 
+                # If the current x already solves the least-squares problem,
+                # keep it: rounding errors would dominate the next one.
+                if root <= max(rtol, eps) * sqrt(tnorm2):
+                    istop = 2
+                    Anorm = sqrt(tnorm2)
+                    rnorm = phibar
+                    self.residHistory.append(rnorm)
+                    if store_iterates:
+                        self.iterates.append(x.copy())
+                    break
+
                 # Compute the next plane rotation Qk
 
                 gamma  = self.normof2(gbar, beta)       # gammak
-- 
2.43.0


From b33ccb9572df2a09708b61ce3da70ea4c8776ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:56 +0000
Subject: [PATCH 43/59] fix: CRAIG-MR iterated on a zero right-hand side

---
 pykrylov/lls/craigmr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 5f2ed65..29485b4 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -125,8 +125,10 @@ class CRAIGMRFramework(KrylovMethod):
         if store_resids:
             self.norms.append(xNrgNorm2)
 
+        x_is_zero = beta == 0   # Nothing to do if b = 0.
+
         # Main iteration loop.
-        while itn < itnlim:
+        while itn < itnlim and not x_is_zero:
             itn = itn + 1
 
             # Perform the next step of the bidiagonalization to obtain the
-- 
2.43.0


From f5c570ccc07ccad8a81b4fab72fb25c5f9322f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:55 +0000
Subject: [PATCH 44/59] fix: CRAIG-MR recorded solution components instead of
 residual norms

---
 pykrylov/lls/craigmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 29485b4..07ecd58 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -198,7 +198,7 @@ class CRAIGMRFramework(KrylovMethod):
 
             if store_resids:
                 self.norms.append(xNrgNorm2)
-                self.normal_eqns_resids.append(abs(zeta))
+                self.normal_eqns_resids.append(abs(zeta_hat))
 
             # See if it's time to stop.
             dErr[itn % window] = zeta
-- 
2.43.0


From 4e45010739408eeb0aaebadf7c9c2a04eb3bc63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:15 +0000
Subject: [PATCH 45/59] fix: CRAIG recorded wrong residuals of its normal
 equations

---
 pykrylov/lls/craig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 37d28af..1667d28 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -312,7 +312,7 @@ class CRAIGFramework(KrylovMethod):
             beta = sqrt(dot(u,Mu))   # norm(u)
 
             # Update residual of CRAIG's "other" normal equations.
-            Arnorm = abs(alpha * beta * s * zeta)
+            Arnorm = abs(beta * c * zeta)
 
             # Update residual estimate of SQD system.
             sqd_resid = beta * c * zeta
-- 
2.43.0


From f52d1c76797a1fdb825b950b15d7548055901bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 46/59] fix: SYMMLQ accepts integer and single-precision
 right-hand sides

---
 pykrylov/symmlq/symmlq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index ce942ec..f917e4c 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -83,6 +83,7 @@ class Symmlq(KrylovMethod) :
 
         # Set parameters
         n = rhs.shape[0]
+        rhs = rhs.astype(np.result_type(rhs.dtype, float))
         nMatvec = 0
 
         matvec_max = kwargs.get('matvec_max', 2*n+2)
-- 
2.43.0


From fe4b265953805029045e1c5018ed8920c7551278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 47/59] fix: MINRES took a large right-hand side for an
 eigenvector

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index b1dd64b..585fd84 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -260,7 +260,7 @@ class Minres(KrylovMethod):
                 if itn >= 2: tnorm2 = tnorm2 + oldb**2  # beta1 is not in T
 
                 if itn==1:                    # Initialize a few things.
-                    if beta/beta1 <= 10*eps:  # beta2 = 0 or ~ 0.
+                    if beta <= 10*eps*abs(alfa): # beta2 = 0 or ~ 0.
                         istop = -1            # Terminate later.
 
                     # tnorm2 = alfa**2  ??
-- 
2.43.0


From b5d51f60740f791db7d57cd92ef2ac8894edb011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 48/59] fix: SYMMLQ took every right-hand side for an
 eigenvector of a tiny operator

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index f917e4c..96a84fe 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -200,7 +200,7 @@ class Symmlq(KrylovMethod) :
             #  Cause termination (later) if beta is essentially zero.
 
             beta = np.sqrt(beta)
-            if beta <= eps:
+            if beta <= eps * np.abs(alfa):
                 istop = -1
 
             #  See if the local reorthogonalization achieved anything.
-- 
2.43.0


From a999ef10595191c76639d2e292103e06254707f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 49/59] fix: MINRES returned nonsense for tiny operators

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 585fd84..7da6db1 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -297,7 +297,7 @@ class Minres(KrylovMethod):
                 # Compute the next plane rotation Qk
 
                 gamma  = self.normof2(gbar, beta)       # gammak
-                gamma  = max(gamma, eps)
+                gamma  = max(gamma, eps*sqrt(tnorm2))
                 cs     = gbar / gamma             # ck
                 sn     = beta / gamma             # sk
                 phi    = cs * phibar              # phik
-- 
2.43.0


From 57e0c4eb959edf72dbecbb86fd403ff273ad4a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 50/59] fix: LSMR found every small operator ill-conditioned

---
 pykrylov/lls/lsmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index c25e76d..9b45700 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -407,8 +407,8 @@ class LSMRFramework(KrylovMethod):
             normA2        = normA2 + alpha*alpha
 
             # Estimate cond(A).
-            maxrbar       = max(maxrbar,rhobarold)
-            if itn>1:
+            if itn>1:           # rhobarold is not in R the first time
+              maxrbar     = max(maxrbar,rhobarold)
               minrbar     = min(minrbar,rhobarold)
             condA         = max(maxrbar,rhotemp)/min(minrbar,rhotemp)
 
-- 
2.43.0


From fdb5db9caa08ca827a29ff2c8e86de9771cc1e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 51/59] fix: the forward L-BFGS product formed a dense n by n
 matrix

---
 pykrylov/linop/lbfgs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 3dcfc4f..2b52b36 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -174,7 +174,7 @@ class LBFGSOperator(InverseLBFGSOperator):
                         a[:, k] += np.dot(b[:, l], s[:, k]) * b[:, l]
                         a[:, k] -= np.dot(a[:, l], s[:, k]) * a[:, l]
                 a[:, k] /= np.dot(s[:, k], a[:, k])**.5
-                q -= np.dot(np.outer(a[:, k], a[:, k]), v[:])
+                q -= np.dot(a[:, k], v[:]) * a[:, k]
 
         return q
 
-- 
2.43.0


From 7c1adb015321551209f7239897eb89f48ad9b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:42 +0000
Subject: [PATCH 52/59] fix: LSQR and CRAIG solved with the head of a
 right-hand side that is too long

---
 pykrylov/lls/craig.py | 2 +-
 pykrylov/lls/lsqr.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 1667d28..b1d1ce7 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -210,7 +210,7 @@ class CRAIGFramework(KrylovMethod):
         dErr = zeros(window)     # Truncated direct error terms.
         trncDirErr = 0           # Truncated direct error.
 
-        Mu = rhs[:m].astype(np.result_type(rhs.dtype, float))
+        Mu = rhs.astype(np.result_type(rhs.dtype, float))
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 5f398a4..7616cb8 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -186,7 +186,7 @@ class LSQRFramework(KrylovMethod):
         if store_iterates:
             self.iterates.append(x.copy())
 
-        Mu = rhs[:m].astype(np.result_type(rhs.dtype, float))
+        Mu = rhs.astype(np.result_type(rhs.dtype, float))
         if M is not None:
             u = M(Mu)
         else:
-- 
2.43.0


From 992d229bc70fe81f81b706c9f38792f5523b9c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 53/59] fix: a right-hand side of one entry was spread over all
 equations

---
 pykrylov/bicgstab/bicgstab.py | 2 ++
 pykrylov/cgs/cgs.py           | 2 ++
 pykrylov/tfqmr/tfqmr.py       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 8f9ab23..abfcf81 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -50,6 +50,8 @@ class BiCGSTAB( KrylovMethod ):
             :matvec_max: Max. number of matrix-vector produts (2n)
         """
         n = rhs.shape[0]
+        if n != self.op.shape[0]:
+            raise ValueError('Right-hand side has wrong size.')
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index a0e9ca9..e52e2f1 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -47,6 +47,8 @@ class CGS( KrylovMethod ):
             :matvec_max: Max. number of matrix-vector produts (2n)
         """
         n = rhs.shape[0]
+        if n != self.op.shape[0]:
+            raise ValueError('Right-hand side has wrong size.')
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 86e59fb..d8476cf 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -46,6 +46,8 @@ class TFQMR( KrylovMethod ):
             :matvec_max: Max. number of matrix-vector produts (2n)
         """
         n = rhs.shape[0]
+        if n != self.op.shape[0]:
+            raise ValueError('Right-hand side has wrong size.')
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-- 
2.43.0


From 7f40abff3d7d9e8b2d90bf520d341cab3b0d1e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 54/59] fix: SYMMLQ's log inverted whether there is a
 preconditioner

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 96a84fe..bd2de8d 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -113,7 +113,7 @@ class Symmlq(KrylovMethod) :
 
         self.logger.info(first + 'Solution of symmetric Ax = b')
         fmt = 'n     =  %3g    precon =  %5s           '
-        self.logger.info(fmt % (n, repr(self.precon is None)))
+        self.logger.info(fmt % (n, repr(self.precon is not None)))
         if shift is not None: self.logger.info('shift  =  %23.14e' % shift)
         fmt = 'maxit =  %3g     eps    =  %11.2e    rtol   =  %11.2e'
         self.logger.info(fmt % (int((matvec_max-2.0)/2),eps,rtol))
-- 
2.43.0


From 9d4ac0bf1ac254fc2ed2bc53629d0f793ab9e5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:16 +0000
Subject: [PATCH 55/59] fix: SYMMLQ's log showed an iteration limit other than
 the one in force

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index bd2de8d..5682189 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -116,7 +116,7 @@ class Symmlq(KrylovMethod) :
         self.logger.info(fmt % (n, repr(self.precon is not None)))
         if shift is not None: self.logger.info('shift  =  %23.14e' % shift)
         fmt = 'maxit =  %3g     eps    =  %11.2e    rtol   =  %11.2e'
-        self.logger.info(fmt % (int((matvec_max-2.0)/2),eps,rtol))
+        self.logger.info(fmt % (matvec_max,eps,rtol))
 
         istop  = 0 ; ynorm  = 0 ; w = np.zeros(n) ; acond = 0
         itn    = 0 ; xnorm  = 0 ; x = np.zeros(n) ; done=False
-- 
2.43.0


From 2085819e6844820200f1a1b97ffa3b3815531517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:37 +0000
Subject: [PATCH 56/59] fix: the norms CRAIG reports were not those of the
 blocks it returns

---
 pykrylov/lls/craig.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index b1d1ce7..0d3feaf 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -264,10 +264,14 @@ class CRAIGFramework(KrylovMethod):
         wbar  = s * v
         x     = zeta * w
         xNrgNorm2 = zeta * zeta
-        xnorm = eta * eta
+        xnorm = eta * eta       # = ||x||^2_N.
+        xwbar = eta * s         # Inner product of x and wbar.
+        wbar2 = s * s           # Squared norm of wbar.
 
         #rnorm  = zeta * zeta    # = ||b - Ax||^2_M + \|x\|^2_N.
         r1norm = xi * xi        # = ||b - Ax||^2_M.
+        rd    = tau / rho**2    # Inner product of r and d.
+        dd    = 1 / rho**2      # Squared norm of d.
         r2norm = rnorm
 
         head1  = '   Itn      x(1)       r1norm     r2norm '
@@ -352,6 +356,11 @@ class CRAIGFramework(KrylovMethod):
             d = (u - beta_hat * d) / alpha_hat
             tau = -beta_hat * tau / alpha_hat
             r += tau * d
+            # Update the norm of r: u is orthogonal to r and to d.
+            rd *= -beta_hat / alpha_hat
+            dd  = (1 + beta_hat**2 * dd) / alpha_hat**2
+            r1norm += tau * (2 * rd + tau * dd)      # = ||b - Ax||^2_M.
+            rd += tau * dd
 
             # Update x, w and wbar.
 
@@ -365,6 +374,13 @@ class CRAIGFramework(KrylovMethod):
             wbar += s * v
             x    += zeta * w
 
+            # Update the norm of x: v is orthogonal to x and to wbar.
+            xwbar *= s2
+            wbar2 *= s2 * s2
+            xnorm += zeta * (2 * s * xwbar + zeta * (c * c + s * s * wbar2))
+            xwbar  = zeta * s * c * (1 - wbar2) - c * xwbar
+            wbar2  = s * s + c * c * wbar2
+
             if store_iterates:
                 self.iterates_p.append(x.copy())
                 self.iterates_d.append(r.copy())
@@ -394,7 +410,6 @@ class CRAIGFramework(KrylovMethod):
             #xnorm   =   sqrt(xxnorm + zbar**2)
             #rnorm   += zeta * zeta               # inv(A)-norm of ||b-Ax||.
             rnorm   += tau * tau
-            xnorm   += eta * eta                 # C-norm of x.
             #gamma   =   normof2(gambar, theta)
             #cs2     =   gambar / gamma
             #sn2     =   theta  / gamma
@@ -420,7 +435,6 @@ class CRAIGFramework(KrylovMethod):
             # Although there is cancellation, it might be accurate enough.
 
             #r1sq    =   rnorm**2  -  dampsq * xxnorm
-            r1norm += xi * xi
             #if r1sq < 0: r1norm = - r1norm
             r2norm = rnorm
 
@@ -520,7 +534,7 @@ class CRAIGFramework(KrylovMethod):
         #self.Anorm = Anorm
         #self.Acond = Acond
         self.Arnorm = Arnorm
-        self.xnorm = xnorm
+        self.xnorm = sqrt(max(xnorm, 0.))   # Rounding may leave it negative.
         #self.var = var
         return
 
-- 
2.43.0


From 658747cde38cca6d62c1ceb5c453d9d172ba6a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 57/59] fix: MINRES gave up as ill-conditioned when the first
 Lanczos coefficient vanishes

---
 pykrylov/minres/minres.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 7da6db1..b309299 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -264,8 +264,9 @@ class Minres(KrylovMethod):
                         istop = -1            # Terminate later.
 
                     # tnorm2 = alfa**2  ??
-                    gmax   = abs(alfa)        # alpha1
-                    gmin   = gmax             # alpha1
+                    # alpha1 is not a diagonal of R, and may well be zero.
+                    gmax   = 0.0
+                    gmin   = np.inf
 
                 # Apply previous rotation Qk-1 to get
                 #   [deltak epslnk+1] = [cs  sn][dbark    0   ]
-- 
2.43.0


From f8ed26383a3f4aeda7600f1c09f86b2af2aa33ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:41 +0000
Subject: [PATCH 58/59] fix: SYMMLQ gave up as ill-conditioned when the first
 Lanczos coefficient vanishes

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 5682189..e90e4b5 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -217,7 +217,7 @@ class Symmlq(KrylovMethod) :
             #  Initialize other quantities.
             cgnorm = beta1 ; rhs2   = 0 ; tnorm  = alfa**2 + beta**2
             gbar   = alfa  ; bstep  = 0 ; ynorm2 = 0
-            dbar   = beta  ; snprod = 1 ; gmax   = np.abs(alfa) + eps
+            dbar   = beta  ; snprod = 1 ; gmax   = np.sqrt(tnorm)  # First gamma.
             rhs1   = beta1 ; x1cg   = 0 ; gmin   = gmax
             qrnorm = beta1
 
-- 
2.43.0


From 3e90e93316d557dbeb7515c3fa9964518635f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 59/59] fix: CGS, Bi-CGSTAB and TFQMR returned NaN when they
 break down

---
 pykrylov/bicgstab/bicgstab.py | 5 ++++-
 pykrylov/cgs/cgs.py           | 2 ++
 pykrylov/tfqmr/tfqmr.py       | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index abfcf81..b472a9b 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -103,7 +103,9 @@ class BiCGSTAB( KrylovMethod ):
 
             v = self.op * q ; nMatvec += 1
 
-            alpha = rho/np.dot(r0, v)
+            sigma = np.dot(r0, v)
+            if sigma == 0: break           # Breakdown.
+            alpha = rho/sigma
             s = r - alpha * v
 
             # Check for CGS termination
@@ -143,6 +145,7 @@ class BiCGSTAB( KrylovMethod ):
                 finished = True
                 continue
 
+            if rho_next == 0: break        # Breakdown.
 
         self.converged = residNorm <= threshold
         self.nMatvec = nMatvec
diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index e52e2f1..aed6596 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -86,6 +86,7 @@ class CGS( KrylovMethod ):
 
             v = self.op * y ; nMatvec += 1
             sigma = np.dot(r0,v)
+            if sigma == 0: break           # Breakdown.
             alpha = rho/sigma
             q = u - alpha * v
 
@@ -107,6 +108,7 @@ class CGS( KrylovMethod ):
                 continue
 
             rho_next = np.dot(r0,r)
+            if rho_next == 0: break        # Breakdown.
             beta = rho_next/rho
             rho = rho_next
             u = r + beta * q
diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index d8476cf..239dad4 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -91,6 +91,7 @@ class TFQMR( KrylovMethod ):
 
             k += 1
             sigma = np.dot(r0,v)
+            if sigma == 0: break           # Breakdown.
             alpha = rho/sigma
 
             # First pass
@@ -131,6 +132,7 @@ class TFQMR( KrylovMethod ):
 
             # Final updates
             rho_next = np.dot(r0,w)
+            if rho_next == 0: break        # Breakdown.
             beta = rho_next/rho
             rho = rho_next
 
-- 
2.43.0

