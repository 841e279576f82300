From 9d6fc18f6e7d9148195cf8f177a73e20ec9407fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:31 +0000
Subject: [PATCH 1/5] fix: fishers_noncentral_hypergeometric cache must
 distinguish argument types

_support_pmf was cached without typed=True, so a call with e.g. ntotal=16.0
raised TypeError in a fresh process but returned a result after the same
call had been made with ntotal=16.
---
 mpsci/distributions/fishers_noncentral_hypergeometric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/fishers_noncentral_hypergeometric.py b/mpsci/distributions/fishers_noncentral_hypergeometric.py
index 2909fff..1491da8 100644
--- a/mpsci/distributions/fishers_noncentral_hypergeometric.py
+++ b/mpsci/distributions/fishers_noncentral_hypergeometric.py
@@ -31,8 +31,9 @@ def support(nc, ntotal, ngood, nsample):
 
 
 # This auxiliary version of support includes the parameter prec,
-# so the mpmath precision is part of the cache key.
-@lru_cache()
+# so the mpmath precision is part of the cache key.  With typed=True, equal
+# arguments of different types do not share a cache entry.
+@lru_cache(typed=True)
 @mp.extradps(5)
 def _support_pmf(nc, ntotal, ngood, nsample, prec):
     sup = _hg.support(ntotal, ngood, nsample)
-- 
2.43.0


From 2d9c9f7279cd932eb71245168a6567983b2898f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:43 +0000
Subject: [PATCH 2/5] fix: fishers_noncentral_hypergeometric.support_pmf must
 not return the cached list

Modifying the returned list in place changed the results of later calls of
support_pmf, pmf, cdf, sf and mean with the same parameters.
---
 mpsci/distributions/fishers_noncentral_hypergeometric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/fishers_noncentral_hypergeometric.py b/mpsci/distributions/fishers_noncentral_hypergeometric.py
index 1491da8..5975462 100644
--- a/mpsci/distributions/fishers_noncentral_hypergeometric.py
+++ b/mpsci/distributions/fishers_noncentral_hypergeometric.py
@@ -118,7 +118,8 @@ def support_pmf(nc, ntotal, ngood, nsample):
     _hg._validate(ntotal, ngood, nsample)
     prec = mp.prec
     sup, values = _support_pmf(nc, ntotal, ngood, nsample, prec)
-    return sup, values
+    # Return a copy, so the caller can't modify the cached list.
+    return sup, list(values)
 
 
 _c_k_formula = r"""
-- 
2.43.0


From 9cc3d2a2f36f441b0138e1eb558d575d868218b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:43 +0000
Subject: [PATCH 3/5] fix: maxwell.invsf fallback must solve for the survival
 function

When the secant solver failed, invsf fell back to solving cdf(x) = p and
returned the wrong quantile.
---
 mpsci/distributions/maxwell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/maxwell.py b/mpsci/distributions/maxwell.py
index edfe226..3c69947 100644
--- a/mpsci/distributions/maxwell.py
+++ b/mpsci/distributions/maxwell.py
@@ -132,7 +132,7 @@ def invsf(p, loc=0, scale=1):
         x = mp.findroot(lambda x: sf(x, loc, scale) - p, x0=(x0, x1),
                         solver='secant')
     except Exception:
-        x = mp.findroot(lambda x: cdf(x, loc, scale) - p, x0=(x0 + x1)/2,
+        x = mp.findroot(lambda x: sf(x, loc, scale) - p, x0=(x0 + x1)/2,
                         solver='newton')
     return x
 
-- 
2.43.0


From 28211ebfd083abc3b7f0f7d63e92b43e1c86cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:29 +0000
Subject: [PATCH 4/5] fix: a failing git must make the revision in the
 generated docs unknown

git_version() ignored git's exit status.  In a repository without commits,
'git rev-parse HEAD' fails but prints "HEAD", which ended up in the docs
as the revision.
---
 doc/myautogen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doc/myautogen.py b/doc/myautogen.py
index 66dc6ad..4599b5d 100644
--- a/doc/myautogen.py
+++ b/doc/myautogen.py
@@ -52,8 +52,10 @@ def git_version():
         env['LANGUAGE'] = 'C'
         env['LANG'] = 'C'
         env['LC_ALL'] = 'C'
-        out = subprocess.Popen(cmd, stdout=subprocess.PIPE,
-                               env=env).communicate()[0]
+        proc = subprocess.Popen(cmd, stdout=subprocess.PIPE, env=env)
+        out = proc.communicate()[0]
+        if proc.returncode != 0:
+            raise OSError('%s failed' % cmd[0])
         return out
 
     try:
-- 
2.43.0


From efcded7ad39ec6fdd794298bbb61f41880034b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:17 +0000
Subject: [PATCH 5/5] fix: binomial.mle must not take an error of the data
 source for a solver failure

counts was read inside the try block that handles a failure of findroot, so
a ValueError raised by the caller's data was swallowed.
---
 mpsci/distributions/binomial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/binomial.py b/mpsci/distributions/binomial.py
index 44f22e2..3a2615a 100644
--- a/mpsci/distributions/binomial.py
+++ b/mpsci/distributions/binomial.py
@@ -225,6 +225,10 @@ def mle(x, *, counts=None, n=None, p=None):
                            strict_low=False)
     xmax = max(x)
     counts = _validate_counts(x, counts, expand_none=False)
+    if counts is not None:
+        # Read the caller's data here, so an error raised by it is not
+        # mistaken for a failure of the solver below.
+        counts = list(counts)
     n_fixed = isfixed(n)
     p_fixed = isfixed(p)
     if n_fixed:
-- 
2.43.0

