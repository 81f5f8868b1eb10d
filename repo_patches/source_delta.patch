From 0b190feacc8da92f6999c324ca40c009607572da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:04 +0000
Subject: [PATCH 001/144] fix: SplinesModel.derivative is the derivative for
 every order, not only for order 3

---
 BayesicFitting/source/SplinesModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 84eda44..60240d0 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -239,7 +239,7 @@ class SplinesModel( LinearModel ):
 
         """
         ff = numpy.append( numpy.arange( self.order + 1, dtype=float ),
-                           numpy.full( self.npbase - self.order - 1, 3, dtype=float ) )
+                           numpy.full( self.npbase - self.order - 1, self.order, dtype=float ) )
         pars = params * ff
         pars = pars[1:]
         return SplinesModel( knots=self.knots, order=self.order-1 ).result( xdata, pars )
-- 
2.43.0


From 6da40db4f285e0de9379db6c99996baaf511952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:04 +0000
Subject: [PATCH 002/144] fix: EtalonDriftModel.derivative failed on a list
 without transpose and had a surplus factor

---
 BayesicFitting/source/EtalonDriftModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/EtalonDriftModel.py b/BayesicFitting/source/EtalonDriftModel.py
index 89c78c1..fed8516 100644
--- a/BayesicFitting/source/EtalonDriftModel.py
+++ b/BayesicFitting/source/EtalonDriftModel.py
@@ -131,9 +131,9 @@ class EtalonDriftModel( NonLinearModel ):
         dd = 1 + p1 * sx * sx
 
         dd *= dd
-        df = - 2 * math.pi * params[0] * p1 * params[2] * sx * numpy.cos( x ) / dd
+        df = - 2 * math.pi * params[0] * p1 * sx * numpy.cos( x ) / dd
 
-        return [df * params[2], df * params[4]].T
+        return numpy.asarray( [df * params[2], df * params[4]] ).T
 
     def basePartial( self, xdata, params, parlist=None ):
         """
-- 
2.43.0


From 568b2bdd0f34b0210d435e3b58a84d922b244798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:04 +0000
Subject: [PATCH 003/144] fix: derivative of SineSplineModel and
 SineSplineDriftModel

---
 BayesicFitting/source/SineSplineDriftModel.py | 12 +++++++-----
 BayesicFitting/source/SineSplineModel.py      |  7 ++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/SineSplineDriftModel.py b/BayesicFitting/source/SineSplineDriftModel.py
index cbf3c44..bc3bd31 100644
--- a/BayesicFitting/source/SineSplineDriftModel.py
+++ b/BayesicFitting/source/SineSplineDriftModel.py
@@ -197,16 +197,18 @@ class SineSplineDriftModel( NonLinearModel ):
 
         """
         nd = self.degree + 1
-        drift = 2 * math.pi * xdata * self.pm.result( xdata, params[:nd] )
+        nh = ( self.npbase - nd ) // 2
+        freq = self.pm.result( xdata, params[:nd] )
+        drift = 2 * math.pi * xdata * freq
         cx = numpy.cos( drift )
         sx = numpy.sin( drift )
-        pdx = self.pm.baseDerivative( xdata, params )
+        pdx = 2 * math.pi * ( freq + xdata * self.pm.baseDerivative( xdata, params[:nd] ) )
         cdx = cx * pdx
         sdx = sx * pdx
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return 2 * math.pi * ( cadx * cx - amps[0] * sdx + sadx * sx + amps[1] * cdx )
+        cadx = self.cm.baseDerivative( xdata, params[nd:nd+nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nd+nh:] )
+        return cadx * cx - amps[0] * sdx + sadx * sx + amps[1] * cdx
 
     def getAmplitudes( self, xdata, params ) :
         """
diff --git a/BayesicFitting/source/SineSplineModel.py b/BayesicFitting/source/SineSplineModel.py
index 178c1be..b685745 100644
--- a/BayesicFitting/source/SineSplineModel.py
+++ b/BayesicFitting/source/SineSplineModel.py
@@ -181,9 +181,10 @@ class SineSplineModel( LinearModel ):
         cx = numpy.cos( tx )
         sx = numpy.sin( tx )
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return tpf * ( cadx * cx - amps[0] * sx + sadx * sx + amps[1] * cx )
+        nh = self.npbase // 2
+        cadx = self.cm.baseDerivative( xdata, params[:nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nh:] )
+        return cadx * cx + sadx * sx + tpf * ( amps[1] * cx - amps[0] * sx )
 
     def getAmplitudes( self, xdata, params ) :
         """
-- 
2.43.0


From 8aed3e39339418ea52f82bd94b6b268a1b28bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 004/144] fix: kernels without resultsq returned None and
 Tophat took the squared distance for the distance

---
 BayesicFitting/source/kernels/Kernel.py | 3 ++-
 BayesicFitting/source/kernels/Tophat.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/kernels/Kernel.py b/BayesicFitting/source/kernels/Kernel.py
index b633d70..c4ce27e 100644
--- a/BayesicFitting/source/kernels/Kernel.py
+++ b/BayesicFitting/source/kernels/Kernel.py
@@ -1,3 +1,4 @@
+import numpy as numpy
 
 __author__ = "Do Kester"
 __year__ = 2017
@@ -128,7 +129,7 @@ class Kernel( object ):
         Parameters: x the square of the input value
 
         """
-        pass
+        return self.result( numpy.sqrt( xsq ) )
 
     def partial( self, x ):
         """
diff --git a/BayesicFitting/source/kernels/Tophat.py b/BayesicFitting/source/kernels/Tophat.py
index 0c18024..0dc2515 100644
--- a/BayesicFitting/source/kernels/Tophat.py
+++ b/BayesicFitting/source/kernels/Tophat.py
@@ -83,7 +83,7 @@ class Tophat( Kernel ):
         return self.conv.result( x )
 
     def resultsq( self, xsq ):
-        return self.result( xsq )                   #  the same
+        return self.result( numpy.sqrt( xsq ) )
 
     def partial( self, x ):
         return self.conv.partial( x )
-- 
2.43.0


From 387d4058fcbec832f24d4ed567311baa15f2dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 005/144] fix: piping into a chain of models had no pipe
 selected for the brackets around it

---
 BayesicFitting/source/Model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index e839d66..714b8da 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -420,11 +420,13 @@ class Model( FixedModel ):
             if self.lastndout != model.ndim :
                 raise ValueError( "Trying to pipe incompatible models:  %d | %d"%
                                 (self.lastndout, model.ndim) )
-            model.selectPipe( self.ndim, model.ndim, model.ndout )
 
         if model._next is not None :
             model = Brackets( model )     # provide brackets if model is a chain
 
+        if operation == self.PIP :
+            model.selectPipe( self.ndim, model.ndim, model.ndout )
+
         last = self
         while last._next != None:
             last = last._next
@@ -1727,6 +1729,8 @@ class Brackets( Model ):
     #  *************************************************************************
     def __init__( self, model, copy=None, **kwargs ):
 
+        if model.lastndout > 1 :
+            setatt( self, "ndout", model.lastndout )
         super( Brackets, self ).__init__( model.npchain, ndim=model.ndim,
                                 copy=copy, **kwargs )
         setatt( self, "model", model, type=Model )
-- 
2.43.0


From a887d6609e38f459a1ee0a8b3fdbcb4c713ca0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 006/144] fix: products, ratios and differences of models with
 more inputs or outputs had wrong or no derivatives

---
 BayesicFitting/source/Model.py | 36 +++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 714b8da..8a214a0 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -582,15 +582,22 @@ class Model( FixedModel ):
                  [ d + n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.SUB :
-            df = df - nextdf
+            df = ( df - nextdf if isnotlist else
+                 [ d - n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.MUL :
             nextres = super( Model, self ).result( xdata, par )
-            df = df * nextres + nextdf * result
+            df = self._timesOutput( df, nextres )
+            nextdf = self._timesOutput( nextdf, result )
+            df = ( df + nextdf if isnotlist else
+                 [ d + n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            df = ( df * nextres - nextdf * result ) / ( nextres * nextres )
+            df = self._timesOutput( df, 1 / nextres )
+            nextdf = self._timesOutput( nextdf, result / ( nextres * nextres ) )
+            df = ( df - nextdf if isnotlist else
+                 [ d - n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.PIP :
 #            nextres = 'dummy'           ## not needed, but needs something
@@ -609,6 +616,21 @@ class Model( FixedModel ):
         return model._recursiveDerivative( xdata, param[np:], result, df,
                     useNum=useNum )
 
+    def _timesOutput( self, deriv, res ):
+        """
+        Return the derivatives (or partials), multiplied by res at each data point.
+
+        Parameters
+        ----------
+        deriv : array of form [N], [N,I], [N,O] or list of form [O][N,I]
+            derivatives of the N data points
+        res : array of form [N] or [N,O]
+            multiplier at the data points (for each output).
+        """
+        if isinstance( deriv, list ) :
+            return [ ( d.T * res[:,k] ).T for k,d in enumerate( deriv )]
+        return numpy.multiply( numpy.transpose( deriv ), numpy.transpose( res ) ).T
+
     #  *****PARTIAL*************************************************************
     def partial( self, xdata, param, useNum=False ):
         """
@@ -654,14 +676,14 @@ class Model( FixedModel ):
 
         elif self._operation == self.MUL :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.multiply( partial.transpose(), nextres ).transpose()
-            nextpartial = numpy.multiply( nextpartial.transpose(), result ).transpose()
+            partial = self._timesOutput( partial, nextres )
+            nextpartial = self._timesOutput( nextpartial, result )
 
         elif self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.divide( partial.transpose(), nextres ).transpose()
+            partial = self._timesOutput( partial, 1 / nextres )
             invres = - result / ( nextres * nextres )
-            nextpartial = numpy.multiply( nextpartial.transpose(), invres ).transpose()
+            nextpartial = self._timesOutput( nextpartial, invres )
 
         elif self._operation == self.PIP :
 
-- 
2.43.0


From 6fd04847c6dc3f16ab4a10b61aef86c1e934edcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 007/144] fix: models in a pipe were evaluated at the original
 inputs, which may have other dimensions

---
 BayesicFitting/source/Model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 8a214a0..e441e24 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -607,7 +607,7 @@ class Model( FixedModel ):
 
         if self._next is None :
             return df
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
         result = self.operate( result, par, nextres )
 
@@ -703,7 +703,7 @@ class Model( FixedModel ):
         model = self._next
         if model is None:
             return partial
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
 
         result = self.operate( result, param[at:], nextres )
-- 
2.43.0


From 464614d2364ac0bccae6c0facb8a7cfc34ea81b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 008/144] fix: derivative of SplinesModel with fixed parameters

---
 BayesicFitting/source/SplinesModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 60240d0..66a7482 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -239,7 +239,7 @@ class SplinesModel( LinearModel ):
 
         """
         ff = numpy.append( numpy.arange( self.order + 1, dtype=float ),
-                           numpy.full( self.npbase - self.order - 1, self.order, dtype=float ) )
+                           numpy.full( self.npmax - self.order - 1, self.order, dtype=float ) )
         pars = params * ff
         pars = pars[1:]
         return SplinesModel( knots=self.knots, order=self.order-1 ).result( xdata, pars )
-- 
2.43.0


From b346fddf90ae91cd5aaae330118d113c27e78182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 009/144] fix: gradient of PseudoVoigtModel and SplinesModel
 for a list of parameters

---
 BayesicFitting/source/PseudoVoigtModel.py | 26 +++++++++--------------
 BayesicFitting/source/SplinesModel.py     |  2 +-
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/BayesicFitting/source/PseudoVoigtModel.py b/BayesicFitting/source/PseudoVoigtModel.py
index e98b035..1420bd7 100644
--- a/BayesicFitting/source/PseudoVoigtModel.py
+++ b/BayesicFitting/source/PseudoVoigtModel.py
@@ -158,23 +158,17 @@ class PseudoVoigtModel( NonLinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        pl = parlist
-        if parlist is not None and 3 in pl :
-            pl = parlist.copy()
-            pl.remove( 3 )
-
         pars = params[:3]
-        partial = ( params[3] * self.lorentz.basePartial( xdata, pars, parlist=pl ) +
-                 ( 1 - params[3] ) * self.gauss.basePartial( xdata, pars, parlist=pl ) )
-
-        if parlist is None or 3 in parlist :
-            part3 = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
-            (n0,n1) = partial.shape
-            shp = ( n0, n1+1 )
-            pp = numpy.zeros( shp, dtype=float )
-            pp[:,:n1] = partial
-            pp[:,n1] = part3
-            partial = pp
+        plorentz = self.lorentz.basePartial( xdata, pars )
+        pgauss = self.gauss.basePartial( xdata, pars )
+
+        partial = numpy.zeros( ( len( plorentz ), self.npmax ), dtype=float )
+        for k in range( 3 ) :
+            partial[:,k] = params[3] * plorentz[:,k] + ( 1 - params[3] ) * pgauss[:,k]
+        partial[:,3] = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
+
+        if parlist is not None :
+            partial = partial[:,parlist]
 
         return partial
 
diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 66a7482..e89be58 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -220,7 +220,7 @@ class SplinesModel( LinearModel ):
             i += 1
         partial[ki,i] = x[ki]
 
-        if parlist is None or len( parlist ) == np :
+        if parlist is None :
             return partial
 
         return partial[:,parlist]
-- 
2.43.0


From a289c5e322c4fb4333d26cd90f4784cffd6ae37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 010/144] fix: Kernel2dModel with a parameter fixed to a model
 did not count the parameters of that model

---
 BayesicFitting/source/Kernel2dModel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Kernel2dModel.py b/BayesicFitting/source/Kernel2dModel.py
index 3b05ada..1968596 100644
--- a/BayesicFitting/source/Kernel2dModel.py
+++ b/BayesicFitting/source/Kernel2dModel.py
@@ -158,7 +158,9 @@ class Kernel2dModel( NonLinearModel ):
 
         self.shape = shape
         self.npbase = self.NPAR[shape]
-        if self.fixed is not None : self.npbase -= len( self.fixed )
+        if self.fixed is not None :
+            self.npbase -= len( self.fixed )
+            self.npbase += sum( [self.fixed[k].npchain for k in self.mlist] )
 
         parNames = ["amplitude", "x-center", "y-center"]
         if shape == 1 :
-- 
2.43.0


From f51f42d6bb392127698392e61c24f16b670490ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 011/144] fix: models with a non-zero parameter fixed to
 another model raised a ValueError

---
 BayesicFitting/source/BaseModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index a3c5818..d4ba38d 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -253,11 +253,12 @@ class BaseModel( object ):
 
         """
         for k in self.nonZero :
-            if param[k] == 0 :
+            zero = numpy.equal( param[k], 0 )           # param[k] is an array if fixed to a model
+            if numpy.any( zero ) :
                 msg = ( ( self.shortName() + ": " + self.baseParameterName( k ) +
                             " ( =parameter[%d] ) equals zero."%k ) )
                 warnings.warn( msg )
-                param[k] = self.tiny
+                param[k] = numpy.where( zero, self.tiny, param[k] )
 
     def isDynamic( self ) :
         """
-- 
2.43.0


From 6585497b86ef8bc3d7072d7e9272abe809fdf791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 012/144] fix: copy of a ConstantModel shared its fixed model
 and table with the original

---
 BayesicFitting/source/ConstantModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/ConstantModel.py b/BayesicFitting/source/ConstantModel.py
index ab6d7a5..6bc5c2d 100644
--- a/BayesicFitting/source/ConstantModel.py
+++ b/BayesicFitting/source/ConstantModel.py
@@ -116,8 +116,9 @@ class ConstantModel( Model ):
         super( ConstantModel, self ).__init__( 0, ndim=ndim, copy=copy )
 
         if copy is not None :                  # copy from model
-            setatt( self, "fixedModel", copy.fixedModel )
-            setatt( self, "table", copy.table )
+            fmdl = copy.fixedModel
+            setatt( self, "fixedModel", None if fmdl is None else fmdl.copy() )
+            setatt( self, "table", None if copy.table is None else copy.table.copy() )
         elif table is not None :                # store tabular results
             setatt( self, "table", table, islist=True, type=float )
             setatt( self, "fixedModel", None )
-- 
2.43.0


From c8a8aff13316621143374609f7bab981f66635f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 013/144] fix: gradient of a chain beyond a piped model passed
 it the parameters of the later models too

---
 BayesicFitting/source/Model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index e441e24..f39505e 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -706,7 +706,7 @@ class Model( FixedModel ):
         if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
 
-        result = self.operate( result, param[at:], nextres )
+        result = self.operate( result, par, nextres )
         #  append the partials of the _next model
         at += np
         return model._recursivePartial( xdata, param, at, result, partial,
-- 
2.43.0


From bf9ec02030ed6b6dff053deaff8f26b9e58b293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 014/144] fix: copy of a chain headed by a BracketModel lost
 its parameter values

---
 BayesicFitting/source/Model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index f39505e..9d6d30c 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1756,7 +1756,8 @@ class Brackets( Model ):
         super( Brackets, self ).__init__( model.npchain, ndim=model.ndim,
                                 copy=copy, **kwargs )
         setatt( self, "model", model, type=Model )
-        setatt( self, "parameters", model.parameters )
+        if copy is None :
+            setatt( self, "parameters", model.parameters )
 
         next = model
         deep = 1
-- 
2.43.0


From d3893dc894e58c05b9474ff30fda9a513a65b862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 015/144] fix: BracketModel had no short name

---
 BayesicFitting/source/Model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 9d6d30c..2092c09 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1865,6 +1865,10 @@ class Brackets( Model ):
                  indent + self._next._toString( indent=indent, npars=npars+np ) )
 
     #  ******Brackets BASENAME*******************************************************************
+    def shortName( self ):
+        """ Return a short version of the string representation.  """
+        return "{ " + self.model.shortName() + " }"
+
 #    def baseName( self ):
 #        """ Returns a string representation of the model.  """
 #        indent = "  "
-- 
2.43.0


From 4e4dcc685d4601adfefcf331c0a16c9474a44649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 016/144] fix: copy of a CombiModel lost parameter values,
 stdevs and the models chained to it

---
 BayesicFitting/source/CombiModel.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 3ca1902..84c1b94 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -155,8 +155,8 @@ class CombiModel( BracketModel ):
                     values  multiplied to each of the key-th parameters
 
         """
-        mdl = model.copy()
-        for k in range( 1, nrepeat ) :
+        mdl = model.copy() if copy is None else copy.model.copy()
+        for k in range( 1, nrepeat if copy is None else 1 ) :
             if oper == 'add' :
                 mdl.addModel( model.copy() )
             elif oper == 'mul' :
@@ -164,11 +164,11 @@ class CombiModel( BracketModel ):
             else :
                 raise ValueError( "Unknown operation : " + oper )
 
-        super( CombiModel, self ).__init__( mdl, **kwargs )
+        super( CombiModel, self ).__init__( mdl, copy=copy, **kwargs )
 
-        setatt( self, "nmp", model.npchain )
+        setatt( self, "nmp", model.npchain if copy is None else copy.nmp )
         setatt( self, "nrepeat", nrepeat )
-        setatt( self, "npcmax", model.npchain * nrepeat )
+        setatt( self, "npcmax", self.nmp * nrepeat )
 
         self.combine( addCombi=addCombi, mulCombi=mulCombi )
 
@@ -180,19 +180,15 @@ class CombiModel( BracketModel ):
             setatt( self, "select", copy.select.copy() )
             setatt( self, "expandindex", copy.expandindex.copy() )
 
-        setatt( self, "_npchain", len( self.select ) )
-        setatt( self, "npbase", self._npchain )
+        setatt( self, "npbase", len( self.select ) )
         setatt( self, "npmax", self.npbase )
-        setatt( self, "parameters", self.parameters[self.select] )
+        if copy is None :
+            setatt( self, "_npchain", self.npbase )
+            setatt( self, "parameters", self.parameters[self.select] )
 
     def copy( self ):
         """ Copy method.  """
-        oper = "add"
-        if self.model._next and self.model._next._operation == 3 :
-            oper = "mul"
-
-        return CombiModel( self.model.isolateModel( 0 ), nrepeat=self.nrepeat,
-                    oper=oper, copy=self )
+        return CombiModel( self.model, nrepeat=self.nrepeat, copy=self )
 
     def combine( self, addCombi=None, mulCombi=None ) :
         """
-- 
2.43.0


From 7ed73b580d1aa49fe21f6750d82a23b9efbca658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 017/144] fix: copy of a RepeatingModel shared the repeated
 model and failed when not dynamic

---
 BayesicFitting/source/RepeatingModel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index d26922f..473fb01 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -165,7 +165,9 @@ class RepeatingModel( Model, Dynamic ):
         else :
             self.minComp = copy.minComp
             self.maxComp = copy.maxComp
-            growPrior = copy.growPrior.copy()
+            self.priors = self.model.priors
+            if self.isDynamic() :
+                growPrior = copy.growPrior.copy()
             same = copy.same
 
         self.setSame( same )
@@ -183,7 +185,7 @@ class RepeatingModel( Model, Dynamic ):
 
     def copy( self ):
         """ Copy method.  """
-        return RepeatingModel( self.ncomp, self.model, isDynamic=self.isDyna, copy=self )
+        return RepeatingModel( self.ncomp, self.model.copy(), dynamic=self.isDyna, copy=self )
 
     def changeNComp( self, dn ) :
         setatt( self, "ncomp", self.ncomp + dn )
-- 
2.43.0


From 13920c24315f6bd6b38c8fcdf7a1bd8643418287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 018/144] fix: names, hasPriors and error message of
 RepeatingModel

---
 BayesicFitting/source/RepeatingModel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 473fb01..95a8cd1 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -469,10 +469,10 @@ class RepeatingModel( Model, Dynamic ):
             self.model.setPrior( kpar, prior=prior, **kwargs )
         else :
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
-                               self.model.shortname() )
+                               self.model.shortName() )
 
-    def hasPriors( self ) :
-        return self.model.hasPriors()
+    def hasPriors( self, isBound=True ) :
+        return self.model.hasPriors( isBound=isBound )
 
     def basePrior( self, kpar ):
         """
@@ -502,7 +502,7 @@ class RepeatingModel( Model, Dynamic ):
         """
         i,k = self.par2model( k )
         return ( self.model.getParameterName( i ) + 
-                    ( "_%d" % k if i not in self.same else "" ) )
+                    ( "_%d" % k if self.same is None or i not in self.same else "" ) )
 
     def baseParameterUnit( self, k ):
         """
-- 
2.43.0


From b82699f22a1ea7bbc2eedb74d3663ec883e37d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 019/144] fix: copy of a SplinesDynamicModel lost its border
 setting

---
 BayesicFitting/source/SplinesDynamicModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 8574247..0c2e1cb 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -156,7 +156,7 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         if dynamic is None :
             dynamic = self.dynamic
 
-        return SplinesDynamicModel( knots=self.knots, modifiable=modifiable,
+        return SplinesDynamicModel( knots=self.knots, border=self.border, modifiable=modifiable,
                                     dynamic=dynamic, copy=self )
 
     def __setattr__( self, name, value ) :
-- 
2.43.0


From 5264b2d0776e0f1fa3a3139951183bdcf0ebf120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 020/144] fix: new limits on a circular prior were mapped
 through the circular map

---
 BayesicFitting/source/Prior.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index c910226..f4fef3b 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -191,8 +191,9 @@ class Prior( object ):
         try :
             self._umin = 0.0            ## only for re-setting the limits
             self._urng = 1.0
-            umax = self.domain2Unit( self.highLimit )
-            self._umin = self.domain2Unit( self.lowLimit )
+            d2u = getattr( self, "baseDomain2Unit", self.domain2Unit )
+            umax = d2u( self.highLimit )
+            self._umin = d2u( self.lowLimit )
             self._urng = umax - self._umin
         except Exception :
             self._urng = math.inf
-- 
2.43.0


From d855db4419b6f2354213c4b093e7ce69437d961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 021/144] fix: density of a prior was not normalised to limits
 set after construction

---
 BayesicFitting/source/Prior.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index f4fef3b..be548a5 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -197,6 +197,7 @@ class Prior( object ):
             self._urng = umax - self._umin
         except Exception :
             self._urng = math.inf
+        self.limint = self._urng            ## normalisation of the limited prior
 
 #        print( "Prior 3 ", self._umin, self._urng )
 
-- 
2.43.0


From bfb3505bdeeb99415b2fe941ce49020bc2e8c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 022/144] fix: unsetLimits left the map to the unit interval
 limited

---
 BayesicFitting/source/Prior.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index be548a5..1e307e6 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -318,8 +318,7 @@ class Prior( object ):
 
     def unsetLimits( self ):
         """ Remove all limits.  """
-        self.lowLimit = self._lowDomain
-        self.highLimit = self._highDomain
+        self.setLimits()
 
     def setAttributes( self, limits=None, scale=None ) :
         """
-- 
2.43.0


From 95b462b8c0412da4059e964f8ba2d37c59954e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 023/144] fix: setting the scale of a limited prior left its
 limits at the old scale

---
 BayesicFitting/source/Prior.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index 1e307e6..a119021 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -331,10 +331,12 @@ class Prior( object ):
         scale : float or None
             scale factor
         """
-        if limits is not None :
-            self.setLimits( limits=limits )
         if scale is not None :
             self.scale = scale
+            if limits is None and self.hasLimits() :
+                limits = self.getLimits()           # redo them for the new scale
+        if limits is not None :
+            self.setLimits( limits=limits )
 
     def isOutOfLimits( self, par ):
         """
-- 
2.43.0


From b221627cb0be3736ed495436dd6eaf18c506011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 024/144] fix: copy of an ExponentialPrior lost its low limit

---
 BayesicFitting/source/ExponentialPrior.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ExponentialPrior.py b/BayesicFitting/source/ExponentialPrior.py
index af0ed5e..87fb90b 100644
--- a/BayesicFitting/source/ExponentialPrior.py
+++ b/BayesicFitting/source/ExponentialPrior.py
@@ -84,8 +84,10 @@ class ExponentialPrior( LaplacePrior ):
 
     def copy( self ):
         """ Copy the prior """
-        return ExponentialPrior( scale=self.scale, hilimit=self.limits[1], 
+        pr = ExponentialPrior( scale=self.scale, hilimit=self.limits[1], 
             prior=self )
+        pr.setLimits( self.limits )
+        return pr
 
     def shortName( self ) :
         return "ExponentialPrior"
-- 
2.43.0


From f1098c8efe417eb22678f38053aa370cebe6a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 025/144] fix: JeffreysPrior without limits had a density of
 zero, in stead of raising

---
 BayesicFitting/source/JeffreysPrior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/JeffreysPrior.py b/BayesicFitting/source/JeffreysPrior.py
index 1659ee0..e0f1717 100644
--- a/BayesicFitting/source/JeffreysPrior.py
+++ b/BayesicFitting/source/JeffreysPrior.py
@@ -133,7 +133,7 @@ class JeffreysPrior( Prior ):
             value within the domain of a parameter
 
         """
-        if math.isnan( self._urng ) :
+        if not math.isfinite( self._urng ) :
             raise AttributeError( "Limits are needed for JeffreysPrior" )
         try :
             return 0 if self.isOutOfLimits( x ) else 1.0 / ( x * self._urng )
-- 
2.43.0


From d23e92cf6e75da520c1149d774c2aa4ab0868035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 026/144] fix: mapping all parameters used wrong priors in
 bracketed, repeating and harmonic dynamic models

---
 BayesicFitting/source/FootballModel.py |  4 ++--
 BayesicFitting/source/Model.py         | 17 ++++-------------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/BayesicFitting/source/FootballModel.py b/BayesicFitting/source/FootballModel.py
index ad80153..3b0d32d 100644
--- a/BayesicFitting/source/FootballModel.py
+++ b/BayesicFitting/source/FootballModel.py
@@ -129,7 +129,7 @@ class FootballModel( NonLinearModel ):
         """ Copy method.  """
         return FootballModel( self.nteams, complexity=self.complexity, copy=self )
 
-    def getPrior( self, k ) :
+    def basePrior( self, k ) :
         """
         Return the prior of the parameter, indicated by k modulo the complexity
 
@@ -138,7 +138,7 @@ class FootballModel( NonLinearModel ):
         k : int
             parameter number.
         """
-        return self.basePrior( k % self.complexity )
+        return super( ).basePrior( k % self.complexity )
         
 
     def __setattr__( self, name, value ):
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 2092c09..78bb4e1 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1312,16 +1312,10 @@ class Model( FixedModel ):
 
     def nextPrior( self ) :
         mdl = self
-        k = 0
-        while True :
-            try :
-                yield mdl.priors[k]
-            except :
-                yield mdl.priors[-1]
-            k += 1
-            if k >= mdl.npbase :
-                mdl = mdl._next
-                k = 0
+        while mdl is not None :
+            for k in range( mdl.npbase ) :
+                yield mdl.basePrior( k )
+            mdl = mdl._next
 
 
     #  *****SOME DUMMY METHODS TO ALLOW LINEAR MODELS IN NONLIN FITTERS********
@@ -1849,9 +1843,6 @@ class Brackets( Model ):
         return self.model.getPrior( kpar )
     """
 
-    def nextPrior( self ) :
-        yield self.model.nextPrior()
-
     def _toString( self, indent="", npars=0 ) :
         opname = [" null\n", " +\n", " -\n", " *\n", " /\n", " |\n" ]
         np = self.npbase
-- 
2.43.0


From 661d5972098bb975d5db66a1ec9f33c750764938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 027/144] fix: hasPriors looked only at the first model in a
 chain

---
 BayesicFitting/source/Model.py          | 22 +++++-----------------
 BayesicFitting/source/RepeatingModel.py |  3 ---
 2 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 78bb4e1..b66ea01 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1037,12 +1037,11 @@ class Model( FixedModel ):
         isBound : bool
             Also check if the prior is bound.
         """
-        hasp = True
-        mdl = self
-        while mdl is not None and hasp :
-            hasp = hasp and super( Model, self ).hasPriors( isBound=isBound )
-            mdl = mdl._next
-        return hasp
+        try :
+            priors = [self.getPrior( k ) for k in range( self.npchain )]
+        except IndexError :
+            return False
+        return not isBound or all( p.isBound() for p in priors )
 
     def getPrior( self, kpar ):
         """
@@ -1876,17 +1875,6 @@ class Brackets( Model ):
         """
         return self.model.getPrior( k )
 
-    def hasPriors( self, isBound=True ) :
-        """
-        Return True when the model has priors for all its parameters.
-
-        Parameters
-        ----------
-        isBound : bool
-            Also check if the prior is bound.
-        """
-        return self.model.hasPriors( isBound=isBound )
-
 
     #  ******Brackets Parameter NAME*******************************************************************
 
diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 95a8cd1..7129812 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -471,9 +471,6 @@ class RepeatingModel( Model, Dynamic ):
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
                                self.model.shortName() )
 
-    def hasPriors( self, isBound=True ) :
-        return self.model.hasPriors( isBound=isBound )
-
     def basePrior( self, kpar ):
         """
         Return the prior for parameter with index kpar.
-- 
2.43.0


From 3a531fef8aa8ec0a85bff6a06526c9ac10fcf307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 028/144] fix: hasLimits missed limits in brackets and skipped
 parameters of fitindex

---
 BayesicFitting/source/Model.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index b66ea01..d3dfbbc 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1229,17 +1229,12 @@ class Model( FixedModel ):
         fitindex    list of indices to be fitted.
 
         """
-        haslim = True
-        mdl = self
-        while mdl is not None :
-            haslim = haslim and super( Model, mdl ).hasLimits( fitindex=fitindex )
-            if not haslim :
-                return haslim
-            if fitindex is not None :
-                q = numpy.where( fitindex >= mdl.npbase )
-                fitindex = fitindex[q] - mdl.npbase
-            mdl = mdl._next
-        return haslim
+        if fitindex is None :
+            fitindex = range( self.npchain )
+        try :
+            return all( self.getPrior( k ).hasLimits() for k in fitindex )
+        except IndexError :
+            return False
 
 
     #  ****** UNIT <--> DOMAIN ********************************************
-- 
2.43.0


From f4cf6e5ac0b98225bb6f7b20634b4350ea607765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 029/144] fix: setLimits failed when only low or only high
 limits were given

---
 BayesicFitting/source/Model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index d3dfbbc..4a170ca 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1170,7 +1170,7 @@ class Model( FixedModel ):
             upper limits on the parameters
 
         """
-        ml = 0
+        ml = nl = nh = 0
         if lowLimits is not None :
             lowLimits = Tools.toArray( lowLimits )
             nl = len( lowLimits )
-- 
2.43.0


From a03a57f95abe90a3227cac187278e1cbf691a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 030/144] fix: priors of a CombiModel belonged to other
 parameters

---
 BayesicFitting/source/CombiModel.py | 35 +++++++++++++++++++++++------
 BayesicFitting/source/Model.py      |  2 +-
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 84c1b94..890963c 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -373,11 +373,34 @@ class CombiModel( BracketModel ):
         """
         return self.model.getParameterUnit( self.select[k] % self.nmp )
 
-    def getPrior( self, kpar ) :
+    def setPrior( self, kpar, prior=None, **kwargs ) :
+        """
+        Set the prior and/or limits for the indicated parameter.
+
+        Parameters
+        ----------
+        kpar : int
+            parameter number.
+        prior : Prior
+            prior for the parameter
+        kwargs : dict
+            attributes to be passed to the prior
+        """
+        if kpar >= self.npbase :
+            return super().setPrior( kpar, prior=prior, **kwargs )
+
+        ks = self.select[kpar]
+        ## connected parameters, not in use, take the prior of the first component
+        for k in range( ks - ks % self.nmp, ks ) :
+            if k not in self.select :
+                self.model.setPrior( k, prior=self.model.getPrior( k % self.nmp ) )
+        self.model.setPrior( ks, prior=prior, **kwargs )
+
+    def basePrior( self, kpar ) :
         """
         Return the prior for parameter kpar.
 
-        First try at the kpar location, possibly further in the chain;
+        First try at the location of kpar, possibly further in the chain;
         Upon failure try at the equivalent position in the head model
     
         Parameters
@@ -385,12 +408,10 @@ class CombiModel( BracketModel ):
         kpar : int
             index of the parameter to be selected.
         """
-#        print( kpar, self.parameters[kpar] )
+        ks = self.select[kpar]
         try :
-            return self.model.getPrior( kpar )
+            return self.model.getPrior( ks )
         except IndexError :
-            k = self.select[kpar] % self.nmp
-#            print( k, self.expandindex[kpar], self.nmp, self.select[kpar] )
-            return self.model.getPrior( k )
+            return self.model.getPrior( ks % self.nmp )
 
 
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 4a170ca..dbed8a7 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1825,7 +1825,7 @@ class Brackets( Model ):
     def getPrior( self, kpar ) :
         np = self.npbase
         if kpar < np :
-            return self.model.getPrior( kpar )
+            return self.basePrior( kpar )
         else :
             return super().getPrior( kpar )
 
-- 
2.43.0


From 403cd1c5b7c3c0dd4a963935ec53941e4829224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 031/144] fix: hyperparameter dropped the limits of the prior
 it was given

---
 BayesicFitting/source/HyperParameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/HyperParameter.py b/BayesicFitting/source/HyperParameter.py
index 728d61b..f695c49 100644
--- a/BayesicFitting/source/HyperParameter.py
+++ b/BayesicFitting/source/HyperParameter.py
@@ -84,7 +84,8 @@ class HyperParameter( object ):
         self.stdev = None
         self.prior = prior
         if prior is not None :
-            self.prior.setLimits( limits )
+            if limits is not None :
+                self.prior.setLimits( limits )
             self.isFixed = False
         elif limits is not None :
             self.prior = JeffreysPrior( limits=limits ) 
-- 
2.43.0


From 94def1f949ea3a9a85ea864f4b59d9c38e20b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 032/144] fix: setPriors of an error distribution called a
 missing method

---
 BayesicFitting/source/HyperParameter.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/BayesicFitting/source/HyperParameter.py b/BayesicFitting/source/HyperParameter.py
index f695c49..8956370 100644
--- a/BayesicFitting/source/HyperParameter.py
+++ b/BayesicFitting/source/HyperParameter.py
@@ -111,6 +111,19 @@ class HyperParameter( object ):
         if self.prior is None :
             raise ValueError( "Need a prior set to %s" % self.__str__() )
 
+    def setPrior( self, prior ):
+        """
+        Set the prior on the hyperparameter.
+
+        Parameters
+        ----------
+        prior : Prior
+            the prior probability
+
+        """
+        self.prior = prior
+        self.isFixed = False
+
     def setLimits( self, limits ):
         """
         Set the limits on the scale within the prior.
-- 
2.43.0


From 653dde0fff6040c86ab04d79729e9f0a85959966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 033/144] fix: copy of a NoiseScale lost its prior and stdev

---
 BayesicFitting/source/NoiseScale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NoiseScale.py b/BayesicFitting/source/NoiseScale.py
index 1a4c4b4..0aa0494 100644
--- a/BayesicFitting/source/NoiseScale.py
+++ b/BayesicFitting/source/NoiseScale.py
@@ -92,7 +92,7 @@ class NoiseScale( HyperParameter ):
         if limits is not None and prior is None :
             prior = JeffreysPrior()
         super( NoiseScale, self ).__init__( hypar=scale, isFixed=isFixed,
-                        prior=prior, limits=limits )
+                        prior=prior, limits=limits, copy=copy )
         self.minimum = False
 
         if copy is not None :
-- 
2.43.0


From a9ff54c6cf8dcd1432305bbef1de6f88c9ee7160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 034/144] fix: hyperparameter with limits stayed fixed (power
 of ExponentialErrorDistribution)

---
 BayesicFitting/source/HyperParameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/HyperParameter.py b/BayesicFitting/source/HyperParameter.py
index 8956370..c68b8d6 100644
--- a/BayesicFitting/source/HyperParameter.py
+++ b/BayesicFitting/source/HyperParameter.py
@@ -89,7 +89,7 @@ class HyperParameter( object ):
             self.isFixed = False
         elif limits is not None :
             self.prior = JeffreysPrior( limits=limits ) 
-
+            self.isFixed = False
 
         if copy is not None :
             self.hypar = copy.hypar
-- 
2.43.0


From 86f7caa8572de46da3971e2aa28a031c86de18ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 035/144] fix: number of data in MultipleOutputProblem was not
 that of its residuals

---
 BayesicFitting/source/MultipleOutputProblem.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/BayesicFitting/source/MultipleOutputProblem.py b/BayesicFitting/source/MultipleOutputProblem.py
index eda8994..df283ca 100644
--- a/BayesicFitting/source/MultipleOutputProblem.py
+++ b/BayesicFitting/source/MultipleOutputProblem.py
@@ -86,6 +86,16 @@ class MultipleOutputProblem( Problem ):
         """
         return MultipleOutputProblem( copy=self )
 
+    def __getattr__( self, name ) :
+        """
+        Return value belonging to attribute with name.
+
+        The number of data is the number of (flattened) residuals.
+        """
+        if name == 'ndata' :
+            return self.ydata.size
+        return super().__getattr__( name )
+
 
     def expandFlat( self, weights, ndout ) :
         """
-- 
2.43.0


From 9df9a33f57e95d725e423e6cadceb6ee8c175236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 036/144] fix: uniform likelihood ignored cyclic and multiple
 output residuals

---
 BayesicFitting/source/UniformErrorDistribution.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/BayesicFitting/source/UniformErrorDistribution.py b/BayesicFitting/source/UniformErrorDistribution.py
index 6b42734..1b76121 100644
--- a/BayesicFitting/source/UniformErrorDistribution.py
+++ b/BayesicFitting/source/UniformErrorDistribution.py
@@ -172,11 +172,9 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
             as calculated by the model
 
         """
-        if mockdata is None :
-            mockdata = problem.result( allpars[:-1] )
         scale = allpars[-1] if not problem.hasAccuracy else problem.accuracy
 
-        ares = numpy.abs( problem.ydata - mockdata )
+        ares = numpy.abs( problem.residuals( allpars[:-1], mockdata=mockdata ) )
 
         lld = numpy.where( ares < scale, -numpy.log( 2 * scale ), -math.inf )
         if problem.weights is not None :
-- 
2.43.0


From dcc4ec1c1f8cb4950f4b7b54226704e6099264c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 037/144] fix: two-dimensional gauss likelihood was not
 normalised

---
 BayesicFitting/source/Gauss2dErrorDistribution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/Gauss2dErrorDistribution.py b/BayesicFitting/source/Gauss2dErrorDistribution.py
index 7b66d74..130ada2 100644
--- a/BayesicFitting/source/Gauss2dErrorDistribution.py
+++ b/BayesicFitting/source/Gauss2dErrorDistribution.py
@@ -139,11 +139,11 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
 
         if problem.weights is None :
             if det.size == 1 : 
-                norm = problem.ndata * ( self.LOG2PI + math.log( det ) )
+                norm = problem.ndata * ( 2 * self.LOG2PI + math.log( det ) )
             else :
-                norm = problem.ndata * self.LOG2PI + numpy.sum( numpy.log( det ) )  
+                norm = problem.ndata * 2 * self.LOG2PI + numpy.sum( numpy.log( det ) )  
         else :
-            norm = numpy.sum( problem.weights * ( LOG2PI + numpy.log( det ) ) ) 
+            norm = numpy.sum( problem.weights * ( 2 * self.LOG2PI + numpy.log( det ) ) ) 
 
         return -0.5 * ( norm + chisq )
 
@@ -167,7 +167,7 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
 
         rot2 = problem.weightedResSq( allpars, mockdata=mockdata )
 
-        norm = self.LOG2PI + numpy.log( det )
+        norm = 2 * self.LOG2PI + numpy.log( det )
         if problem.weights is not None :
             norm *= problem.weights
 
-- 
2.43.0


From 4d219c4c280d31bf3eaaeaa94848ebc117c1c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 038/144] fix: logFactorial failed on floats and on lists of
 one

---
 BayesicFitting/source/LogFactorial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/LogFactorial.py b/BayesicFitting/source/LogFactorial.py
index 63f1176..2d33fdf 100644
--- a/BayesicFitting/source/LogFactorial.py
+++ b/BayesicFitting/source/LogFactorial.py
@@ -97,7 +97,8 @@ def logFactorial( k ):
              359.1342053695754544]
 
 
-    if Tools.length( k ) == 1 :
+    if numpy.ndim( k ) == 0 :
+        k = int( k )
         return ( logfact[k] if k < 100 else
             0.9189385332046727 + ( k + 0.5 ) * math.log( k ) - k + 1.0 / ( 12.0 * k ) )
 
-- 
2.43.0


From 19a5d0f36b111d2bbbc5b1d471ef48c12c221eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 039/144] fix: residuals of error distributions without
 hyperparameters were those of an empty parameter list

---
 BayesicFitting/source/ErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 0840573..a66a4d9 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -189,7 +189,7 @@ class ErrorDistribution( object ):
             param = problem.model.parameters
         else :
             nh = self.nphypar
-            param = allpars[:-nh]
+            param = allpars[:-nh] if nh > 0 else allpars
 
         return problem.residuals( param )
 
-- 
2.43.0


From 7cecbb3aee1118abe9571c75e350011f4d3abe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 040/144] fix: MultipleOutputProblem failed on a scalar
 accuracy and on lists

---
 BayesicFitting/source/MultipleOutputProblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/MultipleOutputProblem.py b/BayesicFitting/source/MultipleOutputProblem.py
index df283ca..a809f41 100644
--- a/BayesicFitting/source/MultipleOutputProblem.py
+++ b/BayesicFitting/source/MultipleOutputProblem.py
@@ -102,7 +102,8 @@ class MultipleOutputProblem( Problem ):
         Expand and flatten the arrays.
 
         """
-        if weights is not None :
+        if weights is not None and numpy.ndim( weights ) > 0 :
+            weights = numpy.asarray( weights )
             if len( weights.shape ) == 1 :
                 wgts = numpy.zeros( ( len( weights ), ndout ), dtype=float )
                 for k in range( ndout ) :
-- 
2.43.0


From f1e50084b1b1bcffcea5fec79d6bccdc68aa949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 041/144] fix: ErrorsInXandYProblem squared the accuracies in
 place, twice when they are the same

---
 BayesicFitting/source/ErrorsInXandYProblem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/ErrorsInXandYProblem.py b/BayesicFitting/source/ErrorsInXandYProblem.py
index a9b0761..ea6f009 100644
--- a/BayesicFitting/source/ErrorsInXandYProblem.py
+++ b/BayesicFitting/source/ErrorsInXandYProblem.py
@@ -225,9 +225,9 @@ class ErrorsInXandYProblem( Problem ):
                     if accuracy.shape[-1] == 3 :
                         varxy = accuracy[:,2]
 
-                varxy *= varyy * varxx
-                varyy *= varyy
-                varxx *= varxx
+                varxy = varxy * varyy * varxx
+                varyy = varyy * varyy
+                varxx = varxx * varxx
             else :
                 raise AttributeError( "Covar and Accuracy are mutually exclusive" )
 
-- 
2.43.0


From 4d5ae5bbb8cb0d7b519963e9c9ae172f201d638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 042/144] fix: scale derivative in the alternative gradient of
 the Laplace likelihood

---
 BayesicFitting/source/LaplaceErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/LaplaceErrorDistribution.py b/BayesicFitting/source/LaplaceErrorDistribution.py
index 91bf692..e9c3564 100644
--- a/BayesicFitting/source/LaplaceErrorDistribution.py
+++ b/BayesicFitting/source/LaplaceErrorDistribution.py
@@ -231,7 +231,7 @@ class LaplaceErrorDistribution( ScaledErrorDistribution ):
                 dL[i] = numpy.sum( wgt * dM[:,k] )
                 i += 1
             else :
-                dL[-1] = self.getSumRes( problem, allpars=allpars, scale=scale ) - problem.sumweight
+                dL[-1] = ( self.getSumRes( problem, allpars=allpars, scale=scale ) - problem.sumweight ) / scale
         return dL
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
-- 
2.43.0


From 68ef2d9ee9bddb4e5b9a43cac0b301b29a92f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 043/144] fix: alternative gradient of the exponential
 likelihood failed when only the scale is selected

---
 BayesicFitting/source/ExponentialErrorDistribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 557c552..531e8e7 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -277,7 +277,8 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
                 dL[i] = numpy.sum( dLdm * dM[:,k] )
                 i += 1
             elif k == -2 :
-                dL[-2] = - problem.sumweight / scale + power * numpy.sum( rsp ) / scale
+                dL[i] = - problem.sumweight / scale + power * numpy.sum( rsp ) / scale
+                i += 1
             else :
                 # special.psi( x ) is the same as special.polygamma( 1, x )
                 dldp = problem.sumweight * ( power + special.psi( 1.0 / power ) )
-- 
2.43.0


From c5c27c22a13168a36bea44120947038571f799ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 044/144] fix: alternative gradient of the Bernoulli likelihood
 had a wrong sign and ignored the selection

---
 BayesicFitting/source/BernoulliErrorDistribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/BernoulliErrorDistribution.py b/BayesicFitting/source/BernoulliErrorDistribution.py
index 26b9b78..63c3116 100644
--- a/BayesicFitting/source/BernoulliErrorDistribution.py
+++ b/BayesicFitting/source/BernoulliErrorDistribution.py
@@ -176,9 +176,9 @@ class BernoulliErrorDistribution( ErrorDistribution ):
         dLdM = numpy.zeros_like( mock )
 
         if problem.model.lastndout == 1 :
-            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, 1 - mock )
+            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, mock - 1 )
             dL = numpy.sum( numpy.multiply( dLdM, dM.T ), axis=1 )
-            return dL
+            return dL[fitIndex]
 
         for k in range( problem.model.lastndout ) :
             q = numpy.where( problem.ydata == k )
@@ -186,7 +186,7 @@ class BernoulliErrorDistribution( ErrorDistribution ):
 
         dL = numpy.tensordot( dLdM, numpy.asarray( dM ), axes=([0,1],[1,0]) )
 
-        return dL
+        return dL[fitIndex]
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
         """
-- 
2.43.0


From 2b8d5f52f815f8459c1d1250d03c169c59c8e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 045/144] fix: alternative gradient of the 2d gauss likelihood
 failed for accuracies per point

---
 BayesicFitting/source/Gauss2dErrorDistribution.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/Gauss2dErrorDistribution.py b/BayesicFitting/source/Gauss2dErrorDistribution.py
index 130ada2..5ecaecf 100644
--- a/BayesicFitting/source/Gauss2dErrorDistribution.py
+++ b/BayesicFitting/source/Gauss2dErrorDistribution.py
@@ -201,16 +201,13 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
         dM = problem.partial( allpars[:-1] )
 
         dL = numpy.zeros( len( fitIndex ), dtype=float )
-        print( "G2dED   ", rot2.shape, res.shape, res2.shape, dM.shape, dL.shape ), 
-        print( fmt( dM, max=None ) )
-        print( "LLD    ", fmt( res, max=None ) )
 
         i = 0
         for  k in fitIndex :
             if k < 0 :              # model accuracy
                 wgt = 1 if problem.weights is None else problem.weights
-                dL[-1] = - modelscale / det * numpy.sum( ( problem.varxx + problem.varyy +
-                    2 * modelscale * modelscale ) * ( wgt - rot2 ) + res2 ) 
+                dL[-1] = - modelscale * numpy.sum( ( ( problem.varxx + problem.varyy +
+                    2 * modelscale * modelscale ) * ( wgt - rot2 ) + res2 ) / det ) 
             else :
                 dL[i] = numpy.sum( res * dM[:,k] )
                 i += 1
-- 
2.43.0


From 3870bf890d274c917c6f88b4d20ac7b73e8103d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 046/144] fix: partials of the uniform likelihood had the wrong
 shape for multiple outputs

---
 BayesicFitting/source/UniformErrorDistribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/UniformErrorDistribution.py b/BayesicFitting/source/UniformErrorDistribution.py
index 1b76121..9b0819e 100644
--- a/BayesicFitting/source/UniformErrorDistribution.py
+++ b/BayesicFitting/source/UniformErrorDistribution.py
@@ -223,11 +223,11 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
 
         """
         scale = allpars[-1]
-        pll = numpy.zeros_like( problem.ydata )
+        pll = numpy.zeros( problem.ndata, dtype=float )
         if problem.weights is not None :
             wgt = problem.weights
         else :
-            wgt = numpy.ones_like( problem.ydata )
+            wgt = numpy.ones( problem.ndata, dtype=float )
 
         for k in fitIndex :
             if k >= 0 :
-- 
2.43.0


From 47d38c04bb94d4c42150fdf4c632ae644ea0f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 047/144] fix: gradient of a mixed likelihood assumed one
 hyperparameter per distribution

---
 BayesicFitting/source/MixedErrorDistribution.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 89f013a..4e9be88 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -192,10 +192,9 @@ class MixedErrorDistribution( ErrorDistribution ):
         q = numpy.where( fitIndex >= 0 )
         f1 = fitIndex[q]
         f2 = f1.copy()
-        if -3 in fitIndex :
-            f1 = numpy.append( f1, [-1] )
-        if -2 in fitIndex :
-            f2 = numpy.append( f2, [-1] )
+        h = fitIndex[fitIndex < -1]
+        f1 = numpy.append( f1, h[h < -n2-1] + n2 + 1 )
+        f2 = numpy.append( f2, h[h >= -n2-1] + 1 )
 
         # make fitindices (f1,f2) for errdis1&2
         lhd1 = numpy.exp( self.errdis1.logLdata( problem, p1, mockdata=mockdata ) )
@@ -225,12 +224,12 @@ class MixedErrorDistribution( ErrorDistribution ):
             if fi == -1 :           ## partialLogL for fraction f
                 yield ( ( lhd1 - lhd2 ) * fff )
 
-            elif fi == -2 :         ## partialLogL for sigma of errdis2
+            elif -n2-1 <= fi < -1 :     ## partialLogL for hyperparameters of errdis2
                 npg2 = next( pg2 )
 
                 yield ( emf * lhd2 * fff * npg2 )
 
-            elif fi == -3 :         ## partialLogL for sigma of errdis1
+            elif fi < -n2-1 :           ## partialLogL for hyperparameters of errdis1
                 npg1 = next( pg1 )
 
                 yield ( f * lhd1 * fff * npg1 )
-- 
2.43.0


From 951c0f57ad167b05f224edfb307ee21160655bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 048/144] SalesmanProblem warns about an unknown distance
 instead of raising a TypeError

---
 BayesicFitting/source/SalesmanProblem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/SalesmanProblem.py b/BayesicFitting/source/SalesmanProblem.py
index f52c624..a820e60 100644
--- a/BayesicFitting/source/SalesmanProblem.py
+++ b/BayesicFitting/source/SalesmanProblem.py
@@ -120,10 +120,10 @@ class SalesmanProblem( OrderProblem ):
                 self.disname = self.DISNAMES[4]
                 self.table = table
             else :
-                warnings.warn( "Unknown distance ", distance, " Using euclidic in stead" )
+                warnings.warn( "Unknown distance %s. Using euclidic in stead" % distance )
                 self.distance = self.euclidic
         else :
-            warnings.warn( "Unknown distance ", distance, " Using euclidic in stead" )
+            warnings.warn( "Unknown distance %s. Using euclidic in stead" % str( distance ) )
             self.distance = self.euclidic
 
         mindis = self.minimumDistance()
-- 
2.43.0


From ff4a7a1551e500c84a0a72993ca3660dfa12f504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 049/144] SalesmanProblem accepts any array_like table of
 distances

---
 BayesicFitting/source/SalesmanProblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SalesmanProblem.py b/BayesicFitting/source/SalesmanProblem.py
index a820e60..e9c0dab 100644
--- a/BayesicFitting/source/SalesmanProblem.py
+++ b/BayesicFitting/source/SalesmanProblem.py
@@ -118,7 +118,7 @@ class SalesmanProblem( OrderProblem ):
             elif dis == "t" :
                 self.distance = self.tabulated
                 self.disname = self.DISNAMES[4]
-                self.table = table
+                self.table = numpy.asarray( table )
             else :
                 warnings.warn( "Unknown distance %s. Using euclidic in stead" % distance )
                 self.distance = self.euclidic
-- 
2.43.0


From 8cb9efee4c5f5750c3464e9b21796f2819e9a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 050/144] SalesmanProblem accepts a user defined distance of
 the documented form

---
 BayesicFitting/source/SalesmanProblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SalesmanProblem.py b/BayesicFitting/source/SalesmanProblem.py
index e9c0dab..2841156 100644
--- a/BayesicFitting/source/SalesmanProblem.py
+++ b/BayesicFitting/source/SalesmanProblem.py
@@ -299,7 +299,8 @@ class SalesmanProblem( OrderProblem ):
         pars = numpy.arange( ndata, dtype=int )
         md = self.distance( self.xdata, pars ).min()
         for roll in range( 2, ndata ) :
-            md = self.distance( self.xdata, pars, roll=roll ).min( initial=md )
+            pairs = numpy.stack( ( pars, numpy.roll( pars, -roll ) ), axis=1 ).flatten()
+            md = self.distance( self.xdata, pairs )[::2].min( initial=md )
 
         return md
 
-- 
2.43.0


From 07b1d6a420bf200402aa33b51edd4e1883bb92a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 051/144] fitters accept any array_like accuracy

---
 BayesicFitting/source/BaseFitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 4082a88..b438dc0 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -255,6 +255,8 @@ class BaseFitter( object ):
             ydata = numpy.asarray( ydata )
             if weights is not None :
                 weights = numpy.asarray( weights )
+            if Tools.length( accuracy ) > 1 :
+                accuracy = numpy.asarray( accuracy )
 
         self.weights = weights
         self.accuracy = accuracy
@@ -488,7 +490,7 @@ class BaseFitter( object ):
         if  accuracy is not None :
             if not numpy.all( numpy.isfinite( accuracy ) ) :
                 raise ValueError( "Fitter: NaNs or Infs in accuracy" )
-            if not numpy.all( accuracy > 0 ) :
+            if not numpy.all( numpy.asarray( accuracy ) > 0 ) :
                 raise ValueError( "Fitter: zeros or negatives in accuracy" )
 
     def __getattr__( self, name ) :
-- 
2.43.0


From 38a4b0d9fa08d7f333616be7622f9cc0e8b24af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 052/144] the number of fitted parameters is the number that is
 not kept

---
 BayesicFitting/source/BaseFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index b438dc0..867e577 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -313,9 +313,9 @@ class BaseFitter( object ):
             return None
         else :
 #            print( "Keep  ", keep )
-            self.npfit = len( keep )
             fitIndex = numpy.arange( self.model.npchain )      # start from scratch
             fitIndex = numpy.setxor1d( fitIndex, list( keep.keys() ) )
+            self.npfit = len( fitIndex )
             self.model.parameters[list(keep.keys())] = list( keep.values() )
             return fitIndex
 
-- 
2.43.0


From fcfb9f68fec2fd8a0c0bce1bcb66d4e3275bd427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 053/144] linear fitters use the weights as weights in the
 chisq of a model without parameters

---
 BayesicFitting/source/Fitter.py   | 2 +-
 BayesicFitting/source/QRFitter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Fitter.py b/BayesicFitting/source/Fitter.py
index 0b1e9c8..7bde7f9 100644
--- a/BayesicFitting/source/Fitter.py
+++ b/BayesicFitting/source/Fitter.py
@@ -130,7 +130,7 @@ class Fitter( BaseFitter ):
                     accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitWgts )
+            self.chiSquared( ydata, weights=fitWgts )
             return numpy.asarray( 0 )
 
         hessian = self.getHessian( weights=fitWgts, index=fitIndex )
diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index b0be4f6..64705a7 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -140,7 +140,7 @@ class QRFitter( BaseFitter ):
                         accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitwgts )
+            self.chiSquared( ydata, weights=fitwgts )
             return numpy.asarray( 0 )
 
         ydatacopy = ydata.copy( )
-- 
2.43.0


From b6b4fade21fea8b77c5757c4dc559ac2770c2349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 054/144] Fitter subtracts the kept parameters from normalising
 measurements too

---
 BayesicFitting/source/Fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Fitter.py b/BayesicFitting/source/Fitter.py
index 7bde7f9..ac86776 100644
--- a/BayesicFitting/source/Fitter.py
+++ b/BayesicFitting/source/Fitter.py
@@ -144,7 +144,8 @@ class Fitter( BaseFitter ):
         if fitWgts is not None :
             ydatacopy *= fitWgts
         if hasattr( self, "normdfdp" ) :
-            ydatacopy = numpy.append( ydatacopy, self.normdata * self.normweight )
+            normdata = self.normdata - numpy.inner( self.normdfdp, fxpar )
+            ydatacopy = numpy.append( ydatacopy, normdata * self.normweight )
 
         vector = self.getVector( ydatacopy, index=fitIndex )
 #        print( fmt( hessian ) )
-- 
2.43.0


From 50ac0c526a4f08223797966706fdfe6372999ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 055/144] QRFitter solves the weighted normal equations, also
 with kept parameters and several normalising measurements

---
 BayesicFitting/source/QRFitter.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index 64705a7..b1ccb19 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -150,15 +150,11 @@ class QRFitter( BaseFitter ):
             fxpar[fi] = 0.0
             ydatacopy = numpy.subtract( ydatacopy, self.model.result( self.xdata, fxpar) )
 
-#        wgts = ( numpy.ones_like( ydata, dtype=float ) if fitwgts is None else
-#                 numpy.sqrt( fitwgts ) )
-
-        wgts = numpy.full_like( ydata, fitwgts, dtype=float )
+        wgts = numpy.sqrt( numpy.full_like( ydata, fitwgts, dtype=float ) )
 
         if hasattr( self, "normdata" ) :
-            normweight = math.sqrt( self.normweight )
-            ydatacopy = numpy.append( ydatacopy, self.normdata )
-            wgts = numpy.append( wgts, normweight )
+            ydatacopy = numpy.append( ydatacopy, self.normdata - numpy.inner( self.normdfdp, fxpar ) )
+            wgts = numpy.append( wgts, numpy.sqrt( self.normweight ) )
 
         ydatacopy = ydatacopy * wgts
 
-- 
2.43.0


From 51b73bdb9705533c6b3675e46337b0b476ba0423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 056/144] QRFitter does not reuse a decomposition made for
 other weights or other kept parameters

---
 BayesicFitting/source/QRFitter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index b1ccb19..4d0da65 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -158,7 +158,9 @@ class QRFitter( BaseFitter ):
 
         ydatacopy = ydatacopy * wgts
 
-        if self.needsNewDecomposition or weights is not None:
+        same = ( self.qrmat is not None and numpy.array_equal( fi, self.qrindex )
+                    and numpy.array_equal( wgts, self.qrwgts ) )
+        if self.needsNewDecomposition or not same :
             design = ( self.getDesign( index=fi ).transpose() * wgts ).transpose()
 
             # The QR decomposition in numpy has a different interface from that in scipy.
@@ -167,6 +169,8 @@ class QRFitter( BaseFitter ):
 
             q, r = numpy.linalg.qr( design )
             self.qrmat = numpy.dot( numpy.linalg.inv( r ), q.transpose() )
+            self.qrindex = fi
+            self.qrwgts = wgts
             self.needsNewDecomposition = False
 
         params = numpy.dot( self.qrmat, ydatacopy )
-- 
2.43.0


From ff4e2948c18ee1e41de58bc397715b99ddbb3c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 057/144] fix: results of a fit with kept parameters pertain to
 the parameters fitted

---
 BayesicFitting/source/BaseFitter.py  | 33 ++++++++++------------------
 BayesicFitting/source/CurveFitter.py |  3 ---
 2 files changed, 11 insertions(+), 25 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 867e577..81333df 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -269,15 +269,16 @@ class BaseFitter( object ):
         if accuracy is not None :
             self.fitWgts /= ( accuracy * accuracy )
            
-        if keep is not None :
-            return ( self.keepFixed( keep ), ydata, self.fitWgts )
+        # hessian of an earlier fit is not valid any more
+        self.__dict__.pop( "hessian", None )
+
+        # select the parameters of this fit, also for all results derived from it
+        self.fitIndex = self.keepFixed( self.keep if keep is None else keep )
 
         if self.fitIndex is None :
-            self.npfit = self.model.npchain
             return ( numpy.arange( self.model.npchain, dtype=int ), 
                      ydata, self.fitWgts )
 
-        self.npfit = len( self.fitIndex )
         return ( self.fitIndex, ydata, self.fitWgts )
 
     def fitpostscript( self, ydata, plot=False ) :
@@ -398,21 +399,15 @@ class BaseFitter( object ):
         if self.model.priors is None :                  # no priors -> no limits
             return pars
 
-        sfix = self.keep                                # save original fixed setting
-
         npchain = self.model.npchain
         params = self.model.parameters
         index = self.fitIndex
 #        print( "index  ", fmt( index ) )
         if index is None :
             index = [*range( npchain )]                 # unpack range object into list
-            fix = {}
-        else :
-            fix = sfix.copy()
 
-        if keep is not None :
-            for k in keep.keys() : 
-                fix[k] = keep[k]
+        fix = self.keep if keep is None else keep       # kept in the fit above
+        fix = {} if fix is None else fix.copy()
 
 #        print( "index  ", fmt( index ) )
 #        print( "fix    ", fmt( fix ) )
@@ -430,14 +425,7 @@ class BaseFitter( object ):
 
         if ool > 0 :                                        # some transgressions
             print( "ool    ", fmt( ool ), fmt( fix ) )
-            self.keepFixed( fix )                           # fix them
             pars = self.fit( ydata, weights=weights, keep=fix )      # run fit again
-#            print( "pars   ", fmt( pars, max=None ) )
-#            print( fmt( sfix ) )
-            self.keepFixed( sfix )                          # reset original fitIndex
-            if sfix is not None :                           # select parameters
-                pars = [self.model.parameters[k] for k in self.fitIndex]
-                fix = list( set( fix ) - set( sfix ) )
 #            warnings.warn( "Parameters ", fix, " exceeded limits." )
 
         return pars                                         # return parameters
@@ -518,7 +506,7 @@ class BaseFitter( object ):
         elif name == 'design' :
             return self.getDesign()
         elif name == 'hessian' :
-            return self.getHessian()
+            return self.getHessian( index=self.fitIndex )
         elif name == 'covariance' :
             return self.getCovarianceMatrix()
         elif name == 'stdevs' or name == 'standardDeviations' :
@@ -767,7 +755,7 @@ class BaseFitter( object ):
         cov = self.covariance
 
         stdevs = numpy.sqrt( cov.diagonal() )
-        if self.keep is None :
+        if self.fitIndex is None :
             self.model.stdevs = stdevs
         else :
             intostd = numpy.zeros( self.model.npchain, dtype=float )
@@ -955,7 +943,8 @@ class BaseFitter( object ):
         if priorlength < self.npfit :                          # add enough times the last one
             spr += ( self.npfit - priorlength ) * prirange[-1]
 
-        lidet = math.log( numpy.linalg.det( self.hessian ) )
+        hessian = self.getHessian( index=self.fitIndex )
+        lidet = math.log( numpy.linalg.det( hessian ) )
 
         # implementing eq 18 (Kester 2002) term by term
         self.logOccam += -spr + 0.5 * ( self.npfit *
diff --git a/BayesicFitting/source/CurveFitter.py b/BayesicFitting/source/CurveFitter.py
index f3d32d7..71896f4 100644
--- a/BayesicFitting/source/CurveFitter.py
+++ b/BayesicFitting/source/CurveFitter.py
@@ -135,9 +135,6 @@ class CurveFitter( IterativeFitter ):
             bounds = ( -numpy.inf, numpy.inf )
 
         # Make requested fitIndex; save original one.
-        if keep is not None :
-            self.fitIndex = self.keepFixed( keep )
-
         # Make initial parameters
         p0 = self.model.parameters if inipar is None else inipar
         if fitIndex is not None :
-- 
2.43.0


From 0ebe532921629166a122a0db8370b22d07bd022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 058/144] fix: the evidence with noise limits has the Jeffreys
 prior of the scale only once

---
 BayesicFitting/source/BaseFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 81333df..46a488d 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -899,7 +899,7 @@ class BaseFitter( object ):
             scalerange = math.log( noiseLimits[1] ) - math.log( noiseLimits[0] )
             autoScale = True
             s2 = self.makeVariance( )
-            self.logOccam = 0.5 * math.log( math.pi * dof ) - scalerange
+            self.logOccam = 0.5 * math.log( math.pi / dof )
         else :
             autoScale = False
             scale = 1.0 if self.fixedScale is None else self.fixedScale
-- 
2.43.0


From a7101f7fb94c57b232160b0b5fa284cff08c5b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 059/144] fix: weighted data count according to their weight in
 the loglikelihood with accuracies

---
 BayesicFitting/source/BaseFitter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 46a488d..680c41c 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -854,7 +854,10 @@ class BaseFitter( object ):
 
         if self.accuracy is not None :
             if Tools.length( self.accuracy ) > 1 :
-                slacc = numpy.sum( numpy.log( self.accuracy ) )
+                slacc = numpy.log( self.accuracy )
+                if self.weights is not None :
+                    slacc = slacc * self.weights
+                slacc = numpy.sum( slacc )
             else :
                 slacc = self.sumwgt * numpy.log( self.accuracy )
         else :
-- 
2.43.0


From f662d7948d9636084e6b75eb4ad1ee0c6f95b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 060/144] fix: the evidence of a compound model uses the priors
 of all its models

---
 BayesicFitting/source/BaseFitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 680c41c..11e1143 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -921,11 +921,11 @@ class BaseFitter( object ):
         if self.npfit == 0 :
             return self.logLikelihood + self.logOccam
 
-        priors = self.model.priors
         if limits is not None :
             prirange = Tools.toArray( limits[1] ) - Tools.toArray( limits[0] )
         elif self.model.hasLimits() :
-            prirange = [p.getIntegral() for p in priors]        # convert to list
+            prirange = [self.model.getPrior( k ).getIntegral()
+                            for k in range( self.model.npchain )]
         elif self.model.npchain > 0 :
             raise ValueError( "No limits provided on the parameters. Cannot calculate evidence." )
 
-- 
2.43.0


From 67965b79e5a555cd82428dd30660e06d51ca4d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 061/144] fix: LevenbergMarquardtFitter leaves the initial
 parameters it was given alone

---
 BayesicFitting/source/LevenbergMarquardtFitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index 1e21cac..84d0006 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -181,7 +181,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                         accuracy=accuracy, keep=keep )
 
 
-        trypar = self.model.parameters if par0 is None else par0
+        trypar = self.model.parameters if par0 is None else numpy.array( par0, dtype=float )
 
 #        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
 #            par0 = par0[fitIndex]
@@ -259,7 +259,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
             if onEdge :
                 newpar = edgePar
 
-            trypar = self.insertParameters( newpar, index=fi, into=params )
+            trypar = self.insertParameters( newpar, index=fi, into=params.copy() )
 
             trychi = self.chiSquaredExtra( data, trypar, weights=weights )
 
-- 
2.43.0


From c1a771d4dad1c4882fbad9f0d23e9bf09fa38203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 062/144] fix: LevenbergMarquardtFitter keeps parameters at the
 requested value, whatever the initial parameters

---
 BayesicFitting/source/LevenbergMarquardtFitter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index 84d0006..8f906a7 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -182,6 +182,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
 
 
         trypar = self.model.parameters if par0 is None else numpy.array( par0, dtype=float )
+        trypar = self.insertParameters( trypar[fitIndex], index=fitIndex )    # others as kept
 
 #        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
 #            par0 = par0[fitIndex]
-- 
2.43.0


From f0abe9b15fd34a17e30034109178a49a1d0a3cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 063/144] fix: the hessian after a LevenbergMarquardt fit is
 that of the final parameters

---
 BayesicFitting/source/LevenbergMarquardtFitter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index 8f906a7..f933e8c 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -205,6 +205,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                 self.chi = trychi
                 self.report( verbose, trypar, trychi, more=math.log10( self.lamda ), force=True )
                 self.converged = True
+                del( self.hessian )             # was modified by lamda; made again when needed
 
                 self.fitpostscript( data, plot=plot )
                 return trypar                   # we are done.
-- 
2.43.0


From 405b9b46fd8cf86402fd63b36dcb511193871e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 064/144] fix: LevenbergMarquardtFitter starts within the
 limits and does not accept a first step that increases chisq

---
 BayesicFitting/source/LevenbergMarquardtFitter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index f933e8c..b67a2f7 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -182,12 +182,14 @@ class LevenbergMarquardtFitter( IterativeFitter ):
 
 
         trypar = self.model.parameters if par0 is None else numpy.array( par0, dtype=float )
-        trypar = self.insertParameters( trypar[fitIndex], index=fitIndex )    # others as kept
+        inipar = self.checkLimits( trypar[fitIndex], fitIndex )[1]            # start within limits
+        trypar = self.insertParameters( inipar, index=fitIndex )              # others as kept
 
 #        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
 #            par0 = par0[fitIndex]
 
-        self.chi = self.chiSquaredExtra( data, trypar, weights=fitWgts ) + 1
+        self.chi = self.chiSquaredExtra( data, trypar, weights=fitWgts )
+        firststep = True
 
         self.lamda = 0.001
 
@@ -201,7 +203,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
             self.model.parameters = trypar
 
             tol = tolerance if self.chi < 1 else tolerance * self.chi
-            if abs( self.chi - trychi ) < tol :
+            if abs( self.chi - trychi ) < tol and not firststep :
                 self.chi = trychi
                 self.report( verbose, trypar, trychi, more=math.log10( self.lamda ), force=True )
                 self.converged = True
@@ -211,6 +213,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                 return trypar                   # we are done.
 
             self.chi = trychi
+            firststep = False
             if self.lamda > 1e-100 :
                 self.lamda *= 0.1
 
-- 
2.43.0


From b510183eab7ba484f956d5198d668736d29eb48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 065/144] fix: data of a map are in the same order as its
 indices when order is F

---
 BayesicFitting/source/ImageAssistant.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/ImageAssistant.py b/BayesicFitting/source/ImageAssistant.py
index 866dd67..dccc1cd 100644
--- a/BayesicFitting/source/ImageAssistant.py
+++ b/BayesicFitting/source/ImageAssistant.py
@@ -168,7 +168,7 @@ class ImageAssistant( object ):
         ya : array_like
             map to be reshaped
         """
-        return numpy.reshape( ya.copy(), ya.size, order=self.order )
+        return numpy.reshape( ya.copy(), ya.size )
 
     def resizeData( self, res, shape=None ):
         """
@@ -185,7 +185,7 @@ class ImageAssistant( object ):
         if shape is None :
             shape = self.shape
 
-        return numpy.reshape( res, shape, order=self.order )
+        return numpy.reshape( res, shape )
 
 
 
-- 
2.43.0


From 72cbd3c6663fc7f38ccb96c60c0755309558e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 066/144] fix: ImageAssistant obeys the order keyword

---
 BayesicFitting/source/ImageAssistant.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/ImageAssistant.py b/BayesicFitting/source/ImageAssistant.py
index dccc1cd..5cb7e54 100644
--- a/BayesicFitting/source/ImageAssistant.py
+++ b/BayesicFitting/source/ImageAssistant.py
@@ -90,7 +90,7 @@ class ImageAssistant( object ):
         self.order = order
         self.shape = None
 
-    def getIndices( self, ya, order='C' ):
+    def getIndices( self, ya, order=None ):
         """
         Generates indices for data arrays of any dimension.
 
@@ -100,8 +100,9 @@ class ImageAssistant( object ):
         ----------
         ya : map
             array of y ( data ) values for which an indexed array
-        order : 'C' or 'F'
+        order : None or 'C' or 'F'
             set index view according to character
+            None: as set at construction
 
         Returns
         -------
@@ -109,6 +110,8 @@ class ImageAssistant( object ):
 
         """
         self.shape = ya.shape
+        if order is None :
+            order = self.order
 
         size = ya.size
         rank = ya.ndim
@@ -122,14 +125,14 @@ class ImageAssistant( object ):
             kr = rank - 1
             for k in range( rank ) :
                 for i in range( size ) :
-                    kk = kr if self.order == 'C' else k
+                    kk = kr if order == 'C' else k
                     kdata[i,kk] = ( i // dd ) % self.shape[kr]
                 dd *= self.shape[kr]
                 kr -= 1
 
             return kdata
 
-    def getPositions( self, ymap, order='C', center=True, deproject=None ) :
+    def getPositions( self, ymap, order=None, center=True, deproject=None ) :
         """
         Return the (x,y) positions of the pixels in the map.
 
@@ -137,8 +140,9 @@ class ImageAssistant( object ):
         ----------
         ya : map
             array of y ( data ) values for which an indexed array
-        order : 'C' or 'F'
+        order : None or 'C' or 'F'
             set index view according to character
+            None: as set at construction
         center : bool
             if True, return the positions of the center of the pixels.
             otherwise the (left,lower) corner
-- 
2.43.0


From 2b76551c460538bccfb47942b281088fc05aa48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 067/144] fix: PhantomCollection has no box, instead of no
 attribute, before a threshold is set

---
 BayesicFitting/source/PhantomCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/PhantomCollection.py b/BayesicFitting/source/PhantomCollection.py
index c88c940..254ac52 100644
--- a/BayesicFitting/source/PhantomCollection.py
+++ b/BayesicFitting/source/PhantomCollection.py
@@ -90,6 +90,8 @@ class PhantomCollection( object ):
         else :
             self.phantoms = WalkerList( )
             self.lowLhood = -math.inf
+            self.paramMax = None
+            self.paramMin = None
 
     def __str__( self ):
         """ Return the name of this object.  """
-- 
2.43.0


From 2ff8d9af9ecf6524811ebdb8c084c084e5e03976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 068/144] fix: the spread of hyperparameters in a SampleList
 can be asked for, at any time

---
 BayesicFitting/source/SampleList.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 563b888..90bf87d 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -147,9 +147,9 @@ class SampleList( list ):
             return self.stdevs
         elif name == "hypars" :
             return self.getHypars()
-        elif name == "stdevHypar" :
+        elif name == "stdevHypar" or name == "stdevHypars" :
             self.getHypars()
-            return self.stdevHypar
+            return self._stdevHypars
         elif name == "nuisance" :
             return self.getNuisance()
         elif name == "stdevNuis" :
@@ -336,8 +336,7 @@ class SampleList( list ):
         return self.hypars
         """
         ( a, s ) = self.averstd( "hyper" )
-        self.stdevHypars = s
-        self.hypars = a
+        self._stdevHypars = s
         return a
 
     def getNuisance( self ) :
-- 
2.43.0


From ef1fef4e1f762c9a93fca6ba1b54fc209c0e216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 069/144] fix: averages and standard deviations of a SampleList
 follow the samples it has

---
 BayesicFitting/source/SampleList.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 90bf87d..df247e4 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -144,7 +144,7 @@ class SampleList( list ):
             return self.getParameters()
         elif name == "stdevs" or name == "standardDeviations" :
             self.getParameters()
-            return self.stdevs
+            return self._stdevs
         elif name == "hypars" :
             return self.getHypars()
         elif name == "stdevHypar" or name == "stdevHypars" :
@@ -154,7 +154,7 @@ class SampleList( list ):
             return self.getNuisance()
         elif name == "stdevNuis" :
             self.getNuisance()
-            return self.stdevNuis
+            return self._stdevNuis
         elif name == "scale" :
             return self.hypars[0]
         elif name == "stdevScale" :
@@ -299,7 +299,7 @@ class SampleList( list ):
         mdl = self[0].model
         if not ( mdl.hasPriors() and any( [mdl.getPrior( k ).isCircular() for k in range( mdl.npchain )] ) ) :
             ( a, s ) = self.averstd( "parameters" )
-            self.stdevs = s
+            self._stdevs = s
             return a
 
         par, wgt = self.getParAndWgtEvolution()
@@ -311,10 +311,9 @@ class SampleList( list ):
             clh = None if not pr.isCircular() else pr.getLimits()
             param[k], stdev[k] = Tools.average( par[:,k], weights=wgt, circular=clh )
 
-        self.parameters = param
-        self.stdevs = stdev
+        self._stdevs = stdev
 
-        return self.parameters
+        return param
 
     def getHypars( self ) :
         """
@@ -344,7 +343,7 @@ class SampleList( list ):
         Return the average of the nuisance parameters (if present)
         """
         ( a, s ) = self.averstd( "nuisance" )
-        self.stdevNuis = s
+        self._stdevNuis = s
         return a
 
     def averstd( self, name ) :
-- 
2.43.0


From a961d931a6f79d0ca631398e9e1b073dfd731677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 070/144] fix: SampleList.monteCarloError pertains to the input
 it is asked for

---
 BayesicFitting/source/SampleList.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index df247e4..e627420 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -556,7 +556,6 @@ class SampleList( list ):
             standard deviations at each input point
 
         """
-        if Tools.length( xdata ) != len( self.result ):
-            self.average( xdata )
+        self.average( xdata )
         return self.error
 
-- 
2.43.0


From 544b288665e70c070fb4fa6c0e7ed65ae4f497ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 071/144] fix: parameter evolution of dynamic models is
 zero-padded, as documented

---
 BayesicFitting/source/SampleList.py | 15 +++++++--------
 BayesicFitting/source/WalkerList.py | 11 ++++++-----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index e627420..b5642ca 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -409,13 +409,14 @@ class SampleList( list ):
             the parameter to be selected. Default: all
 
         """
-        pe = []
-        for sample in self :
-            pe += [sample.parameters]
+        nap = max( [len( sample.parameters ) for sample in self] )
+        pe = numpy.zeros( ( len( self ), nap ), dtype=float )
+        for k, sample in enumerate( self ) :
+            pe[k,:len( sample.parameters )] = sample.parameters
         if kpar is None :
-            return numpy.asarray( pe )
+            return pe
         else :
-            return numpy.asarray( pe )[:,kpar]
+            return pe[:,kpar]
 
     def getParAndWgtEvolution( self ):
         """
@@ -426,12 +427,10 @@ class SampleList( list ):
         to get the actual number.
 
         """
-        pe = []
         we = []
         for sample in self :
-            pe += [sample.parameters]
             we += [sample.logW]
-        return ( numpy.asarray( pe ), numpy.exp( numpy.asarray( we ) ) )
+        return ( self.getParameterEvolution(), numpy.exp( numpy.asarray( we ) ) )
 
 
     def getNumberOfParametersEvolution( self ):
diff --git a/BayesicFitting/source/WalkerList.py b/BayesicFitting/source/WalkerList.py
index 75e75b2..1b7f66c 100644
--- a/BayesicFitting/source/WalkerList.py
+++ b/BayesicFitting/source/WalkerList.py
@@ -267,13 +267,14 @@ class WalkerList( list ):
             the parameter to be selected. Default: all
 
         """
-        pe = []
-        for walker in self :
-            pe += [walker.parameters]
+        nap = max( [len( walker.parameters ) for walker in self] )
+        pe = numpy.zeros( ( len( self ), nap ), dtype=float )
+        for k, walker in enumerate( self ) :
+            pe[k,:len( walker.parameters )] = walker.parameters
         if kpar is None :
-            return numpy.asarray( pe )
+            return pe
         else :
-            return numpy.asarray( pe )[:,kpar]
+            return pe[:,kpar]
 
     def getScaleEvolution( self ):
         """ Return the evolution of the scale.  """
-- 
2.43.0


From 3fc0a3405a402105bca48ab91b073150a6c4db10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 072/144] fix: hypars of a Walker do not include the nuisance
 parameters

---
 BayesicFitting/source/Walker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Walker.py b/BayesicFitting/source/Walker.py
index 9a597e9..9e123bb 100644
--- a/BayesicFitting/source/Walker.py
+++ b/BayesicFitting/source/Walker.py
@@ -148,7 +148,7 @@ class Walker( object ):
             np = self.problem.model.npars
             return self.allpars[:np]
         elif name == "hypars" :
-            np = self.problem.model.npars
+            np = self.problem.npars
             if len( self.allpars ) > np :
                 return self.allpars[np:]
             else :
-- 
2.43.0


From c7e3a95db932977dd00c802fc14e9aa8df349bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 073/144] fix: samples have parameters of their own

---
 BayesicFitting/source/SampleList.py | 3 ++-
 BayesicFitting/source/Walker.py     | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index b5642ca..0e962f2 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -134,8 +134,9 @@ class SampleList( list ):
                 model = model.copy()
                 if fitIndex is not None :
                     fitIndex = fitIndex.copy()
+            pars = model.parameters if parameters is None else parameters
             sample = Sample( self._count, -1, self.iteration, model,
-                             parameters=parameters, fitIndex=fitIndex )
+                             parameters=numpy.array( pars ), fitIndex=fitIndex )
             self.append( sample )
             self._count += 1
 
diff --git a/BayesicFitting/source/Walker.py b/BayesicFitting/source/Walker.py
index 9e123bb..6539384 100644
--- a/BayesicFitting/source/Walker.py
+++ b/BayesicFitting/source/Walker.py
@@ -126,14 +126,14 @@ class Walker( object ):
         np = self.problem.npars
         nm = self.problem.model.npars if self.problem.model else np
 
-        param = self.allpars[:nm]
+        param = self.allpars[:nm].copy()
         sample = Sample( self.id, self.parent, self.start, self.problem.model,
                          parameters=param, fitIndex=self.fitIndex )
 
         if len( self.allpars ) > np :
-            sample.hyper = self.allpars[np:]
+            sample.hyper = self.allpars[np:].copy()
         if np > nm :
-            sample.nuisance = self.allpars[nm:np]
+            sample.nuisance = self.allpars[nm:np].copy()
 
         sample.logL = self.logL + self.logPrior
         sample.logW = logW
-- 
2.43.0


From 63438b8ca014d17ff80d1ac9247c3f984d027918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 074/144] fix: NestedSampler puts the evidence in the sample
 list

---
 BayesicFitting/source/NestedSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index a8efa2b..296029f 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -470,7 +470,7 @@ class NestedSampler( object ):
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
 
         # Calculate weighted average and stdevs for the parameters;
-        self.samples.LogZ = self.logZ
+        self.samples.logZ = self.logZ
         self.samples.info = self.info
         self.samples.normalize( )
 
-- 
2.43.0


From 4fc6ef71edfc80bb86d864782577129f301ed292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 075/144] fix: the information of nested sampling uses the
 likelihood of each walker

---
 BayesicFitting/source/NestedSampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 296029f..c98917c 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -769,7 +769,8 @@ class NestedSampler( object ):
             logZnew = numpy.logaddexp( self.logZ, logWeight )
 
             # update Information, H
-            self.info = ( math.exp( logWeight - logZnew ) * self.lowLhood +
+            logL = self.walkers[kw].logL + self.walkers[kw].logPrior
+            self.info = ( math.exp( logWeight - logZnew ) * logL +
                     math.exp( self.logZ - logZnew ) * ( self.info + self.logZ ) - logZnew )
 
             if math.isnan( self.info ) :
-- 
2.43.0


From 9754bb7a8ad6d53ba4d0757295511502c110976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:09 +0000
Subject: [PATCH 076/144] fix: NestedSampler keeps parameters when
 hyperparameters are fixed

---
 BayesicFitting/source/NestedSampler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index c98917c..db0a9d4 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -540,12 +540,13 @@ class NestedSampler( object ):
             fitl = []
             kkeys = list( keep.keys() )
             for k in range( np + nh ) :
+                fk = k if k < np else k - np - nh           # index as in fitlist
                 if k in kkeys :
                     allpars[k] = keep[k]                    # save keep.value in allpars
-                elif fitlist[k] in kkeys :
-                    allpars[k] = keep[fitlist[k]]           # save keep.value in allpars
-                else :
-                    fitl += [fitlist[k]]                    # list of pars to be fitted
+                elif fk in kkeys :
+                    allpars[k] = keep[fk]                   # save keep.value in allpars
+                elif fk in fitlist :
+                    fitl += [fk]                            # list of pars to be fitted
             fitlist = fitl
 
         return ( fitlist, allpars )
-- 
2.43.0


From 86f9de789887be0574fbdb27cd4a0a706213d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:09 +0000
Subject: [PATCH 077/144] fix: a second run of NestedSampler.sample() starts
 all over

---
 BayesicFitting/source/NestedSampler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index db0a9d4..3d50054 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -489,12 +489,18 @@ class NestedSampler( object ):
             keep = self.keep
         fitIndex, allpars = self.makeFitlist( keep=keep )
 
+        ## start all over: nothing is left from an earlier run
+        self.iteration = 0
+        self.samples = SampleList( self.problem.model, 0, ndata=self.problem.ndata )
+        self.phantoms = PhantomCollection( dynamic=self.problem.isDynamic() )
+
         if ensemble is None :
             ensemble = self.ensemble
         self.initWalkers( ensemble, allpars, fitIndex )
 
         for eng in self.engines :
             eng.walkers = self.walkers
+            eng.phantoms = self.phantoms
             eng.lastWalkerId = len( self.walkers )
             if self.bestBoost :
                 eng.bestBoost( self.problem, myFitter=self.myFitter )
-- 
2.43.0


From ff1eae5ad8f43e2405af0059f0ed111a4b6b0337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 078/144] fix: PhantomSampler replaces at least one walker

---
 BayesicFitting/source/PhantomSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index 58c6858..258629e 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -225,7 +225,7 @@ class PhantomSampler( NestedSampler ):
 
     def __getattr__( self, name ) :
         if name == "worst" :
-            return int( ( len( self.walkers ) * self.step ) // 100 )
+            return max( 1, int( ( len( self.walkers ) * self.step ) // 100 ) )
         else :
             return super().__getattr__( name )
 
-- 
2.43.0


From 68560e2fa123087e707db9a65a46a14acbab1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 079/144] fix: PhantomSampler does not remove walkers outside a
 small ensemble

---
 BayesicFitting/source/PhantomSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index 258629e..1fa6a56 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -259,7 +259,7 @@ class PhantomSampler( NestedSampler ):
 
 
         while len( self.walkers ) > self.initEnsemble :
-            ks = self.initEnsemble - self.step
+            ks = max( 0, self.initEnsemble - self.step )
             k = ks + self.rng.randint( self.ensemble - ks - 1 )
 #            print( k, self.ensemble, len( self.walkers ), self.walkers[-1].logL )
             del( self.walkers[k] )
-- 
2.43.0


From abe73a6c80aeed91bafc36d26f2c39aab4780ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 080/144] fix: a walker keeps its identity when it is stored in
 an empty collection

---
 BayesicFitting/source/WalkerList.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/WalkerList.py b/BayesicFitting/source/WalkerList.py
index 1b7f66c..36d9c5b 100644
--- a/BayesicFitting/source/WalkerList.py
+++ b/BayesicFitting/source/WalkerList.py
@@ -179,7 +179,8 @@ class WalkerList( list ):
         """
         klow = self.firstIndex( walker.logL )
         if klow is None :
-            self.setWalker( walker, 0 )
+            self.append( walker )                   # keeps the id of the walker
+            self._count += 1
             return self
 
         cnt = self._count
-- 
2.43.0


From 0a3a0caa35c6a2075d22d9bdd75879f4c82a18fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 081/144] fix: NestedSampler boosts with the fitter that is
 asked for

---
 BayesicFitting/source/NestedSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 3d50054..60fd791 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -892,7 +892,7 @@ class NestedSampler( object ):
                 self.copyWalker = self.copyWalkerFromDynamicPhantoms
             else :
                 self.copyWalker = self.copyWalkerFromPhantoms
-        elif name == "bestUpdate" :
+        elif name == "bestBoost" :
 
             self.myFitter = None
             if Tools.subclassof( value, BaseFitter ) :
-- 
2.43.0


From 62f1e0e6b2dbfb61e071d06b6563ea2169c61b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 082/144] fix: boosting a walker keeps to fitted parameters,
 their limits and all hyperparameters

---
 BayesicFitting/source/Engine.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/Engine.py b/BayesicFitting/source/Engine.py
index 11ce21f..1480c92 100644
--- a/BayesicFitting/source/Engine.py
+++ b/BayesicFitting/source/Engine.py
@@ -208,19 +208,26 @@ class Engine( object ):
 
         problem = walker.problem
         nh = self.errdis.nphypar
-        par0 = walker.allpars[:-nh]
+        np = len( walker.allpars ) - nh
+        par0 = walker.allpars[:np]
+        keep = { k : par0[k] for k in range( np ) if k not in walker.fitIndex }
         try :
             self.fitter.model = problem.model
-            pars = self.fitter.fit( problem.ydata, par0=par0 )
+            pars = self.fitter.fit( problem.ydata, par0=par0, keep=keep )
+            scale = self.fitter.getScale()
         except :
             return
 
-        if nh == 0 :
-            ptry = pars
-        elif walker.fitIndex[-1] == -1 :
-            ptry = numpy.append( pars, self.fitter.getScale() )
-        else :
-            ptry = numpy.append( pars, walker.allpars[-1] )
+        ptry = walker.allpars.copy()
+        ptry[:np] = pars
+        if nh == 1 and walker.fitIndex[-1] == -1 :
+            ptry[-1] = scale
+
+        ## only accept what is inside the prior domain
+        for k in walker.fitIndex :
+            prior = problem.model.getPrior( k ) if k >= 0 else self.errdis.hyperpar[k].prior
+            if prior.isOutOfLimits( ptry[k] ) :
+                return
 
         Ltry = self.errdis.logLikelihood( problem, ptry )
 
-- 
2.43.0


From b1b9087db683ea692b11897eecc8209ae8d00f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 083/144] fix: RandomEngine draws each fitted parameter from
 its own box

---
 BayesicFitting/source/RandomEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RandomEngine.py b/BayesicFitting/source/RandomEngine.py
index 9d3fa11..474da18 100644
--- a/BayesicFitting/source/RandomEngine.py
+++ b/BayesicFitting/source/RandomEngine.py
@@ -121,7 +121,7 @@ class RandomEngine( Engine ):
         t = 0
         for tt in range( self.nstep ) :
             ptry = param.copy()
-            uval = self.rng.uniform( um, ux, nap )
+            uval = self.rng.uniform( um[fi], ux[fi], nf )
             ptry[fi] = self.unit2Domain( problem, uval, kpar=fi )
 
             Ltry = self.errdis.logLikelihood( problem, ptry )
-- 
2.43.0


From 2b96ff876c736b4cd74612c35b2ad4a68de1ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 084/144] fix: the check of a walker without moves allows for
 nuisance parameters and order problems

---
 BayesicFitting/source/Explorer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index ab2bf6f..df5cb86 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -254,15 +254,18 @@ class Explorer( object ):
         ValueError at inconsistency.
 
         """
-        walker.check( nhyp=self.errdis.nphypar )
+        model = walker.problem.model
+        npars = walker.problem.npars                # including nuisance parameters, if any
+        if model is not None :
+            walker.check( nhyp=self.errdis.nphypar, nuisance=npars - model.npars )
 
         wlogL = self.errdis.logLikelihood( walker.problem, walker.allpars )
-        if walker.problem.model.npars < len( walker.allpars ) - self.errdis.nphypar :
+        if npars < len( walker.allpars ) - self.errdis.nphypar :
             Tools.printclass( walker )
             print( "Iteration %4d %4d %10.3f  %10.3f" % ( self.iteration, walker.id, walker.logL, wlogL ) )
             print( fmt( walker.allpars, max=None ) )
             raise ValueError( "Inconsistency in length of modelparams (%d) and allpars (%d - %d)" %
-                                ( walker.problem.model.npars, len( walker.allpars ), self.errdis.nphypar ) )
+                                ( npars, len( walker.allpars ), self.errdis.nphypar ) )
 
         if wlogL != walker.logL :
             Tools.printclass( walker )
@@ -275,7 +278,7 @@ class Explorer( object ):
 #            if walker.fitIndex[ki] >= 0 :
             if ki < 0 :
                 self.errdis.hyperpar[ki].prior.checkLimit( walker.allpars[ki] )
-            elif ki < walker.problem.model.npars :
+            elif model is not None and ki < model.npars :
                 walker.problem.model.getPrior( ki ).checkLimit( walker.allpars[ki] )
 
 
-- 
2.43.0


From ec73405d885f256eea1ea7392f7e253a9df56e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 085/144] fix: boosting a walker leaves nuisance parameters
 alone

---
 BayesicFitting/source/Engine.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/Engine.py b/BayesicFitting/source/Engine.py
index 1480c92..d11af2e 100644
--- a/BayesicFitting/source/Engine.py
+++ b/BayesicFitting/source/Engine.py
@@ -208,23 +208,21 @@ class Engine( object ):
 
         problem = walker.problem
         nh = self.errdis.nphypar
-        np = len( walker.allpars ) - nh
+        np = problem.model.npars
         par0 = walker.allpars[:np]
         keep = { k : par0[k] for k in range( np ) if k not in walker.fitIndex }
         try :
             self.fitter.model = problem.model
             pars = self.fitter.fit( problem.ydata, par0=par0, keep=keep )
-            scale = self.fitter.getScale()
+            ptry = walker.allpars.copy()
+            ptry[:np] = pars
+            if nh == 1 and walker.fitIndex[-1] == -1 :
+                ptry[-1] = self.fitter.getScale()
         except :
             return
 
-        ptry = walker.allpars.copy()
-        ptry[:np] = pars
-        if nh == 1 and walker.fitIndex[-1] == -1 :
-            ptry[-1] = scale
-
         ## only accept what is inside the prior domain
-        for k in walker.fitIndex :
+        for k in [kf for kf in walker.fitIndex if kf < np] :
             prior = problem.model.getPrior( k ) if k >= 0 else self.errdis.hyperpar[k].prior
             if prior.isOutOfLimits( ptry[k] ) :
                 return
-- 
2.43.0


From 0f172fa6ba268d1703c47f21511f85330eca5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:37 +0000
Subject: [PATCH 086/144] fix: an empty keep dictionary leaves all parameters
 to be fitted

---
 BayesicFitting/source/BaseFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 11e1143..f6f415d 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -315,7 +315,7 @@ class BaseFitter( object ):
         else :
 #            print( "Keep  ", keep )
             fitIndex = numpy.arange( self.model.npchain )      # start from scratch
-            fitIndex = numpy.setxor1d( fitIndex, list( keep.keys() ) )
+            fitIndex = numpy.setxor1d( fitIndex, numpy.array( list( keep.keys() ), dtype=int ) )
             self.npfit = len( fitIndex )
             self.model.parameters[list(keep.keys())] = list( keep.values() )
             return fitIndex
-- 
2.43.0


From 7dc723cddcfad23ba071f3e52f52fe1db96f4312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:53 +0000
Subject: [PATCH 087/144] fix: the remaining walkers are sorted before they are
 added to the evidence

---
 BayesicFitting/source/NestedSampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 60fd791..39f9be4 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -467,6 +467,7 @@ class NestedSampler( object ):
 
 
         # End of Sampling: Update and store the remaining walkers
+        self.walkers.sort( key=self.walkerLogL )    # the best one is the last sample
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
 
         # Calculate weighted average and stdevs for the parameters;
-- 
2.43.0


From 4f8b83d86e9c251a815b20d5cf354ac6d50034b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:53 +0000
Subject: [PATCH 088/144] fix: order engines update the walker they explore

---
 BayesicFitting/source/LoopEngine.py       | 5 +++--
 BayesicFitting/source/MoveEngine.py       | 5 +++--
 BayesicFitting/source/NearEngine.py       | 5 +++--
 BayesicFitting/source/OrderEngine.py      | 2 +-
 BayesicFitting/source/ReverseEngine.py    | 5 +++--
 BayesicFitting/source/ShuffleEngine.py    | 5 +++--
 BayesicFitting/source/StartOrderEngine.py | 2 +-
 BayesicFitting/source/SwitchEngine.py     | 5 +++--
 8 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index 8eea677..5697b5f 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -91,7 +91,7 @@ class LoopEngine( OrderEngine ):
         return str( "LoopEngine" )
 
     #  *********EXECUTE***************************************************
-    def executeOnce( self, kw, lowLhood, dims=[0,1] ) :
+    def executeOnce( self, kw, lowLhood, dims=[0,1], append=False ) :
         """
         Execute the LoopEngine one time.
 
@@ -163,7 +163,8 @@ class LoopEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( len( self.walkers ) if append else kw, problem, ptry, Ltry,
+                                fitIndex=walker.fitIndex )
 
         else :
             self.reportFailed()
diff --git a/BayesicFitting/source/MoveEngine.py b/BayesicFitting/source/MoveEngine.py
index e91661e..bcb3985 100644
--- a/BayesicFitting/source/MoveEngine.py
+++ b/BayesicFitting/source/MoveEngine.py
@@ -76,7 +76,7 @@ class MoveEngine( OrderEngine ):
         return str( "MoveEngine" )
 
     #  *********EXECUTE***************************************************
-    def executeOnce( self, kw, lowLhood ) :
+    def executeOnce( self, kw, lowLhood, append=False ) :
 
         walker = self.walkers[kw]
         problem = walker.problem
@@ -112,7 +112,8 @@ class MoveEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( len( self.walkers ) if append else kw, problem, ptry, Ltry,
+                                fitIndex=walker.fitIndex )
 
                 ## check if better than Lbest in walkers[-1]
                 ## self.checkBest( problem, ptry, Ltry )
diff --git a/BayesicFitting/source/NearEngine.py b/BayesicFitting/source/NearEngine.py
index 9de6026..41a5359 100644
--- a/BayesicFitting/source/NearEngine.py
+++ b/BayesicFitting/source/NearEngine.py
@@ -82,7 +82,7 @@ class NearEngine( OrderEngine ):
         return str( "NearEngine" )
 
     #  *********EXECUTE***************************************************
-    def executeOnce( self, kw, lowLhood, dims=[0,1] ) :
+    def executeOnce( self, kw, lowLhood, dims=[0,1], append=False ) :
         """
         Execute the NearEngine one time.
 
@@ -155,7 +155,8 @@ class NearEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( len( self.walkers ) if append else kw, problem, ptry, Ltry,
+                                fitIndex=walker.fitIndex )
             t = 1
 
         else :
diff --git a/BayesicFitting/source/OrderEngine.py b/BayesicFitting/source/OrderEngine.py
index e7f2cb9..a67bc75 100644
--- a/BayesicFitting/source/OrderEngine.py
+++ b/BayesicFitting/source/OrderEngine.py
@@ -87,7 +87,7 @@ class OrderEngine( Engine ):
         t = 0
         k = 0
         while t == 0 and k < self.maxtrials :
-            t = self.executeOnce( kw, lowLhood )
+            t = self.executeOnce( kw, lowLhood, append=append )
             k = k + 1
         
         return t
diff --git a/BayesicFitting/source/ReverseEngine.py b/BayesicFitting/source/ReverseEngine.py
index cc009ef..b9a3b52 100644
--- a/BayesicFitting/source/ReverseEngine.py
+++ b/BayesicFitting/source/ReverseEngine.py
@@ -74,7 +74,7 @@ class ReverseEngine( OrderEngine ):
         return str( "ReverseEngine" )
 
     #  *********EXECUTE***************************************************
-    def executeOnce( self, kw, lowLhood ) :
+    def executeOnce( self, kw, lowLhood, append=False ) :
 
         walker = self.walkers[kw]
         problem = walker.problem
@@ -100,7 +100,8 @@ class ReverseEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( len( self.walkers ) if append else kw, problem, ptry, Ltry,
+                                fitIndex=walker.fitIndex )
 
                 return t
 
diff --git a/BayesicFitting/source/ShuffleEngine.py b/BayesicFitting/source/ShuffleEngine.py
index e5ef5cf..4f61da6 100644
--- a/BayesicFitting/source/ShuffleEngine.py
+++ b/BayesicFitting/source/ShuffleEngine.py
@@ -75,7 +75,7 @@ class ShuffleEngine( OrderEngine ):
         return str( "ShuffleEngine" )
 
     #  *********EXECUTE***************************************************
-    def execute( self, kw, lowLhood ):
+    def executeOnce( self, kw, lowLhood, append=False ) :
         """
         Execute the engine by diffusing the parameters.
 
@@ -114,7 +114,8 @@ class ShuffleEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( len( self.walkers ) if append else kw, problem, ptry, Ltry,
+                                fitIndex=walker.fitIndex )
 
                 return t
 
diff --git a/BayesicFitting/source/StartOrderEngine.py b/BayesicFitting/source/StartOrderEngine.py
index 467ce5f..5bad2da 100644
--- a/BayesicFitting/source/StartOrderEngine.py
+++ b/BayesicFitting/source/StartOrderEngine.py
@@ -94,7 +94,7 @@ class StartOrderEngine( OrderEngine ):
 #        print( par )
 
         logL = self.errdis.logLikelihood( problem, par )
-        self.setWalker( walker.id, problem, par, logL )
+        self.setWalker( kw, problem, par, logL, fitIndex=walker.fitIndex )
 
         return len( par )
 
diff --git a/BayesicFitting/source/SwitchEngine.py b/BayesicFitting/source/SwitchEngine.py
index 8aa85e4..707d4a7 100644
--- a/BayesicFitting/source/SwitchEngine.py
+++ b/BayesicFitting/source/SwitchEngine.py
@@ -76,7 +76,7 @@ class SwitchEngine( OrderEngine ):
         return str( "SwitchEngine" )
 
     #  *********EXECUTE***************************************************
-    def executeOnce( self, kw, lowLhood ):
+    def executeOnce( self, kw, lowLhood, append=False ) :
         """
         Execute the engine by diffusing the parameters.
 
@@ -115,7 +115,8 @@ class SwitchEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( len( self.walkers ) if append else kw, problem, ptry, Ltry,
+                                fitIndex=walker.fitIndex )
 #            param = walker.allpars
 
             return 2
-- 
2.43.0


From 99643ca716c320f099216c922ee3836dc17691bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 089/144] fix: order engines report no steps when none was
 accepted

---
 BayesicFitting/source/MoveEngine.py    | 2 +-
 BayesicFitting/source/ReverseEngine.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/MoveEngine.py b/BayesicFitting/source/MoveEngine.py
index bcb3985..1cd2e4e 100644
--- a/BayesicFitting/source/MoveEngine.py
+++ b/BayesicFitting/source/MoveEngine.py
@@ -126,6 +126,6 @@ class MoveEngine( OrderEngine ):
 
         self.reportReject()
 
-        return t                        # nr of reordered parameters
+        return 0                        # nr of reordered parameters
 
 
diff --git a/BayesicFitting/source/ReverseEngine.py b/BayesicFitting/source/ReverseEngine.py
index b9a3b52..922c391 100644
--- a/BayesicFitting/source/ReverseEngine.py
+++ b/BayesicFitting/source/ReverseEngine.py
@@ -111,6 +111,6 @@ class ReverseEngine( OrderEngine ):
 
         self.reportReject()
 
-        return t                        # nr of succesfull steps
+        return 0                        # nr of succesfull steps
 
 
-- 
2.43.0


From c72f59c2cf8850b8a02df130a5d86ac00f5bbfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 090/144] fix: StartOrderEngine uses the generator of the
 sampler

---
 BayesicFitting/source/StartOrderEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StartOrderEngine.py b/BayesicFitting/source/StartOrderEngine.py
index 5bad2da..3448b96 100644
--- a/BayesicFitting/source/StartOrderEngine.py
+++ b/BayesicFitting/source/StartOrderEngine.py
@@ -90,7 +90,7 @@ class StartOrderEngine( OrderEngine ):
 
         problem = walker.problem
 #        print( walker.allpars )
-        par = numpy.random.permutation( walker.allpars )
+        par = self.rng.permutation( walker.allpars )
 #        print( par )
 
         logL = self.errdis.logLikelihood( problem, par )
-- 
2.43.0


From aba38d02986699aef4aa26265ae19a4e94ee8a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 091/144] fix: LoopEngine finds crossings of a vertical path

---
 BayesicFitting/source/LoopEngine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index 5697b5f..7dbd008 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -121,6 +121,7 @@ class LoopEngine( OrderEngine ):
         x2, y2 = tuple( problem.xdata[k2,dims] )
         if x1 == x2 :
             dims = [dims[1], dims[0]]           ## reverse dimensional order
+            x1, y1, x2, y2 = y1, x1, y2, x2
             m1 = 0                              ## slope of point k1 to k2
         else :
             m1 = ( y2 - y1 ) / ( x2 - x1 )
-- 
2.43.0


From 2c9de5f39328058e948abcb92a9f090ea243f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:44 +0000
Subject: [PATCH 092/144] fix: NearEngine measures the distances in all kinds
 of SalesmanProblem

---
 BayesicFitting/source/NearEngine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/NearEngine.py b/BayesicFitting/source/NearEngine.py
index 41a5359..cb516b3 100644
--- a/BayesicFitting/source/NearEngine.py
+++ b/BayesicFitting/source/NearEngine.py
@@ -117,13 +117,13 @@ class NearEngine( OrderEngine ):
         n0 = ptry[0]
         nsel = [n0,ptry[1]]
         if self.nearest[n0] < 0 :                                   # not yet calculated
-            dmin = problem.distance( xd[nsel,:], [0,1] )[0]         # need only one distance
+            dmin = problem.distance( xd, nsel )[0]         # need only one distance
 #            print( 0, fmt( nsel ), fmt( dmin ), fmt( dmin ) )
         
             kmin = 1
             for k in range( 2, np ) :                               # find nearest
                 nsel[1] = ptry[k]
-                d = problem.distance( xd[nsel,:], [0,1] )[0]
+                d = problem.distance( xd, nsel )[0]
 #                print( k, fmt( nsel ), fmt( d ), fmt( dmin ) )
                 if d < dmin :
                     dmin = d
-- 
2.43.0


From 9b482d32b3e832f7cb07d01ae243c6b328fc8755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:44 +0000
Subject: [PATCH 093/144] fix: NestedSolver accepts an error distribution

---
 BayesicFitting/source/NestedSolver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSolver.py b/BayesicFitting/source/NestedSolver.py
index 4deebb1..9f14101 100644
--- a/BayesicFitting/source/NestedSolver.py
+++ b/BayesicFitting/source/NestedSolver.py
@@ -224,7 +224,7 @@ class NestedSolver( NestedSampler ):
         return str( "NestedSolver" )
 
     #  *********DISTRIBUTIONS***************************************************
-    def setErrorDistribution( self, name=None, scale=1.0, power=2.0 ):
+    def setErrorDistribution( self, name=None, limits=None, scale=1.0, power=2.0 ):
         """
         Set the error distribution for calculating the likelihood.
 
@@ -232,6 +232,8 @@ class NestedSolver( NestedSampler ):
         ----------
         name : string
             name of distribution
+        limits : None
+            not used
         scale : float
             fixed scale of distribution
         power : float
-- 
2.43.0


From ffd112773d1fd758c796d724d4f92d66838d1098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 094/144] fix: LoopEngine calculates the crossing point of two
 paths

---
 BayesicFitting/source/LoopEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index 7dbd008..c6117b8 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -141,7 +141,7 @@ class LoopEngine( OrderEngine ):
 
             else :
                 m3 = ( y4 - y3 ) / ( x4 - x3 )
-                xc = ( y3 - y1 + m3 * x3 - m1 * x1 ) / ( m3 - m1 )
+                xc = ( y1 - y3 + m3 * x3 - m1 * x1 ) / ( m3 - m1 )
                 if Tools.isBetween( x1, xc, x2 ) and Tools.isBetween( x3, xc, x4 ) :
                     break
 
-- 
2.43.0


From a59aa20c59a83a747974a327fbe61417608b6a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:33 +0000
Subject: [PATCH 095/144] fix: a copy of a ChordEngine has the same number of
 trials

---
 BayesicFitting/source/ChordEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ChordEngine.py b/BayesicFitting/source/ChordEngine.py
index d52dcb0..c54dbb9 100644
--- a/BayesicFitting/source/ChordEngine.py
+++ b/BayesicFitting/source/ChordEngine.py
@@ -90,7 +90,7 @@ class ChordEngine( Engine ):
         """
         super( ).__init__( walkers, errdis, copy=copy, **kwargs )
 
-        self.maxtrials = 25
+        self.maxtrials = 25 if copy is None else copy.maxtrials
         self.plotter = DummyPlotter()
         self.debug = False
 
-- 
2.43.0


From 3d7ae82b03937f8cac61f08f83d8b89dce692b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:48 +0000
Subject: [PATCH 096/144] fix: RepeatingModel can repeat a compound model

---
 BayesicFitting/source/RepeatingModel.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 7129812..f9d0cd2 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -201,11 +201,11 @@ class RepeatingModel( Model, Dynamic ):
         """
         self.same = same
         if same is None :
-            self.index = numpy.arange( self.model.npbase, dtype=int )
+            self.index = numpy.arange( self.model.npchain, dtype=int )
             return
 
         index = []
-        for k in range( self.model.npbase ) :
+        for k in range( self.model.npchain ) :
             if k not in self.same :
                 index += [k]
         self.index = numpy.asarray( index, dtype=int )
@@ -234,7 +234,7 @@ class RepeatingModel( Model, Dynamic ):
 
         location = self.npbase
 
-        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npbase
+        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npchain
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -274,7 +274,7 @@ class RepeatingModel( Model, Dynamic ):
             return False
 
         location = self.npbase
-        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npbase )
+        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npchain )
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -306,7 +306,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp <= 1 :
             return param
 
-        off = self.model.npbase + offset
+        off = self.model.npchain + offset
         src = numpy.arange( self.ncomp ) * self.deltaNpar + off
         per = rng.permutation( self.ncomp )
         for i in self.index :
@@ -355,7 +355,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return result
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
 
@@ -391,9 +391,9 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return partial
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
-        full = numpy.arange( self.model.npbase, dtype=int )
+        full = numpy.arange( self.model.npchain, dtype=int )
         k = 1
         while True :
             partial[:,full] += self.model.partial( xdata, pars )
@@ -427,7 +427,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return dfdx
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
         while True :
-- 
2.43.0


From b8de9ddbb1403e963e1dc547be948b18746fbaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:49 +0000
Subject: [PATCH 097/144] fix: StartEngine keeps the values of parameters that
 are not fitted in dynamic models

---
 BayesicFitting/source/StartEngine.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index d059b18..11ef56e 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -88,13 +88,9 @@ class StartEngine( Engine ):
         """
         walker = self.walkers[kw]
         problem = walker.problem
-        model = problem.model
         fitIndex = walker.fitIndex
         allp = walker.allpars.copy()
 
-        npar = len( allp )
-        onp = problem.npars
-
         maxtrials = self.maxtrials
         if hasattr( self.errdis, "constrain" ) and callable( self.errdis.constrain ) :
             maxtrials *= 100
@@ -102,7 +98,8 @@ class StartEngine( Engine ):
         ktry = 0
         while True :
 
-            if model.isDynamic() :
+            if problem.model.isDynamic() :
+                model = problem.model
                 np0 = model.npars
                 off = 0
 
@@ -120,11 +117,10 @@ class StartEngine( Engine ):
                     np1 = model.npars
                     dnp = np1 - np0
                     fitIndex = model.alterFitindex( fitIndex, npbase, dnp, off )
+                    allp = model.alterParameters( allp, npbase, dnp, off, value=0 )
                     npbase = model.npbase
                     np0 = np1
 
-                allp = numpy.zeros( npar + np0 - onp, dtype=float )
-
             uval = self.rng.rand( len( fitIndex ) )
 
 #            print( "SE FI  ", fitIndex )
-- 
2.43.0


From 47acb1fd37d6232630989bb4769c12f581fedea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:21 +0000
Subject: [PATCH 098/144] fix: a RepeatingModel without components has no
 parameters

---
 BayesicFitting/source/RepeatingModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index f9d0cd2..f92496f 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -150,7 +150,7 @@ class RepeatingModel( Model, Dynamic ):
         if ncomp < minComp or ( maxComp is not None and ncomp > maxComp ) :
             raise ValueError( "ncomp outside range of [min..max] range" )
 
-        np = ncomp * model.npchain - ( ncomp - 1 ) * Tools.length( same )
+        np = ncomp * model.npchain - max( ncomp - 1, 0 ) * Tools.length( same )
         self.isDyna = dynamic and ( maxComp is None or minComp < maxComp )
 
         super( RepeatingModel, self ).__init__( np, copy=copy, **kwargs )
-- 
2.43.0


From 787e21816ee72471d9e07b2ef579b8fa9ff4734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 099/144] fix: the result of a RepeatingModel without
 components has the length of xdata

---
 BayesicFitting/source/RepeatingModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index f92496f..35933aa 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -353,7 +353,7 @@ class RepeatingModel( Model, Dynamic ):
 #        result = numpy.zeros( Tools.length( xdata ), dtype=float )
         result = 0.0
         if self.ncomp == 0 :
-            return result
+            return numpy.zeros( Tools.length( xdata ), dtype=float )
 
         ke = self.model.npchain
         pars = params[:ke].copy()
-- 
2.43.0


From 8cb83218cabcaa9bb4204d621ce76928fbb04737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 100/144] fix: priors can be set on models that follow a
 RepeatingModel

---
 BayesicFitting/source/RepeatingModel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 35933aa..31296dd 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -465,7 +465,9 @@ class RepeatingModel( Model, Dynamic ):
             When more Priors are set than fit inside the repeated model
 
         """
-        if kpar < self.model.npars :
+        if self._next is not None and kpar >= self.npbase :
+            self._next.setPrior( kpar - self.npbase, prior=prior, **kwargs )
+        elif kpar < self.model.npars :
             self.model.setPrior( kpar, prior=prior, **kwargs )
         else :
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
-- 
2.43.0


From 257f4ba4bd41cf44782faeb523698975a949cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 101/144] fix: StructureEngine finds the modifiable model in a
 chain

---
 BayesicFitting/source/StructureEngine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StructureEngine.py b/BayesicFitting/source/StructureEngine.py
index 787b0e1..636a495 100644
--- a/BayesicFitting/source/StructureEngine.py
+++ b/BayesicFitting/source/StructureEngine.py
@@ -100,7 +100,10 @@ class StructureEngine( Engine ):
         self.reportCall()
 
         t = 0
-        perm = self.rng.permutation( self.walkers[kw].problem.model.ncomp - 2 )     ## TBC
+        model = self.walkers[kw].problem.model
+        while model is not None and not isinstance( model, Modifiable ) :
+            model = model._next
+        perm = self.rng.permutation( model.ncomp - 2 )     ## TBC
         for p in perm :
             update = len( self.walkers ) if append else kw
             dt = self.executeOnce( kw, lowLhood, update, location=p+1 )
-- 
2.43.0


From 61761162e30fc1a9858277fb44e67c6542f496e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 102/144] fix: a chain with a modifiable model is modifiable

---
 BayesicFitting/source/Model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index dbed8a7..4b79f3f 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1027,6 +1027,17 @@ class Model( FixedModel ):
 
         return False
 
+    def isModifiable( self ) :
+        """
+        Return whether the model can change its structure.
+        """
+        if super( Model, self ).isModifiable() :
+            return True
+        elif self._next is not None :
+            return self._next.isModifiable()
+
+        return False
+
     #  *****PRIOR***************************************************************
     def hasPriors( self, isBound=True ) :
         """
-- 
2.43.0


From 0be60f1c94fbd1a0e04a1407bbd1fe2fe20ad087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:56 +0000
Subject: [PATCH 103/144] fix: DecisionTreeModel of a single leaf returns a
 result for every input

---
 BayesicFitting/source/DecisionTreeModel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 0016c91..99ac21a 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -323,7 +323,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         kpar = 0
         if self.isLeaf() :
-            return params[0]
+            res[:] = params[0]
+            return res
 
         res, kpar = self.recursiveResult( xdata, params, kpar, plist, res )
 
-- 
2.43.0


From 5e87dba60a317085c45572c0b2ee3c08a99df7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:56 +0000
Subject: [PATCH 104/144] fix: DecisionTreeModel.partial selects parameters,
 not data points, with parlist

---
 BayesicFitting/source/DecisionTreeModel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 99ac21a..f0c4cff 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -364,17 +364,18 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         """
         ndata = Tools.length( xdata )
-        plist = numpy.arange( ndata, dtype=int ) if parlist is None else parlist
+        plist = numpy.arange( ndata, dtype=int )
 
         kpar = 0
         if self.isLeaf() :
-            return numpy.ones( (ndata,1), dtype=float )
+            part = numpy.ones( (ndata,1), dtype=float )
+            return part if parlist is None else part[:,parlist]
 
         part = numpy.zeros( (ndata, self.npbase), dtype=float )
 
         part, kpar = self.recursivePartial( xdata, kpar, plist, part )
 
-        return part
+        return part if parlist is None else part[:,parlist]
 
     def recursivePartial( self, xdata, kpar, plist, part ) :
         """ For internal use only """
-- 
2.43.0


From 50a1b1623dda86cf98fc4cf5ea833276d0731a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:56 +0000
Subject: [PATCH 105/144] fix: DecisionTreeModel puts only the unknown values
 in the smallest fraction, not all values

---
 BayesicFitting/source/DecisionTreeModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index f0c4cff..f00210f 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -287,8 +287,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         xd = Tools.getColumnData( xdata, self.dimension )[plist]        ## working data
 
         if self.split is not None :
-            mn = numpy.min( xd )
-            mx = numpy.max( xd )
+            mn = numpy.nanmin( xd )
+            mx = numpy.nanmax( xd )
 
             split = mn + ( mx - mn ) * self.split
             ### add NAN values to the smallest fraction
-- 
2.43.0


From 648af8c69b9052b17ea2fbfc794d6876768d842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:56 +0000
Subject: [PATCH 106/144] fix: DecisionTreeModel leaves the list of splits of
 the caller alone

---
 BayesicFitting/source/DecisionTreeModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index f00210f..e507b80 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -154,7 +154,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             itype = Tools.getItem( itypes, self.dimension )
 
             klen = Tools.length( kdim )
-            if not isinstance( split, list ) : split = [split]
+            split = list( split ) if isinstance( split, list ) else [split]
             for k in range(  Tools.length( split ), klen ) :
                 split += [Tools.getItem( split, k )]
 
-- 
2.43.0


From 957357ca92e59c94008fc594232d438317ad2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:56 +0000
Subject: [PATCH 107/144] fix: DecisionTreeModel constructed from a code has a
 parameter for every leaf

---
 BayesicFitting/source/DecisionTreeModel.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index e507b80..1419873 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -142,7 +142,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         Dynamic.__init__( self, dynamic=dynamic )
 
         if depth == 0 or code is not None :
-            nparams = 1
+            nparams = 1 if code is None else self.countCode( code )
             setatt( self, "left", None )
             setatt( self, "rite", None )
             setatt( self, "split", None )
@@ -187,7 +187,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 growPrior = ExponentialPrior( scale=2 )
             setatt( self, "growPrior", growPrior )
             setatt( self, "itypes", itypes )
-            setatt( self, "ncomp", ( 0x1 << depth ) - 1 )
+            setatt( self, "ncomp", nparams - 1 )
 #            setatt( self, "nsplit", 3 )
 #            self.setLimits( 0, 1 )
             setatt( self, "nsplit", self.NSPLITPRIOR )
@@ -555,6 +555,19 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         return ( [c1,c2], [self.dimension] + d1 + d2, [sm] + s1 + s2 )
 
+    def countCode( self, code ) :
+        """
+        Return the number of leafs in the code, generated by encode().
+
+        Parameters
+        ----------
+        code : list
+            of (list or 1 or 2), encoding the structure of DTM
+        """
+        if isinstance( code, list ) :
+            return sum( self.countCode( c ) for c in code )
+        return code
+
     def decode( self, code, kdim, splim, kbr ) :
         """
         Resurrect the DTM from the code generated by encode().
-- 
2.43.0


From 2cfbcbcb1baec422ce4102159fc38749669521b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:56 +0000
Subject: [PATCH 108/144] fix: a DecisionTreeModel that is not dynamic does not
 shrink; copies keep that and the limits on the components

---
 BayesicFitting/source/DecisionTreeModel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 1419873..1f90f69 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -216,7 +216,10 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
     def copy( self ):
         """ Copy method.  """
 
-        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable )
+        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable, dynamic=self.dynamic )
+
+        if self.minComp is not None : setatt( dtm, "minComp", self.minComp )
+        if self.maxComp is not None : setatt( dtm, "maxComp", self.maxComp )
 
         if self.dimension is not None :
             setatt( dtm, "dimension", self.dimension )
@@ -827,6 +830,9 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         bool : succes
 
         """
+        if not self.isDynamic() :
+            return False
+
         if self.ncomp < 1 or ( self.minComp is not None and self.ncomp <= self.minComp ):
             return False
 
-- 
2.43.0


From 880769b425ef37fd064f1dedba3d3a69a6d97f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:56 +0000
Subject: [PATCH 109/144] fix: DecisionTreeModel grows and shrinks its own
 parameters, also in a chain; shrink removes those of the leafs that disappear

---
 BayesicFitting/source/DecisionTreeModel.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 1f90f69..c7f30bc 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -791,7 +791,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         ## count leafs (parameters) and branches (components)
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
+        dnp = cleaf - self.npbase
 
         ## duplicate the parameter
         value = self._head.parameters[offset+location]
@@ -847,15 +847,23 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             return False
 
 
+        if self.minComp is not None and self.ncomp - parent.countBranch() < self.minComp :
+            return False
+
+        ## location of the first leaf in the branch
+        if leaf is parent.rite :
+            location -= parent.left.countLeaf()
+
         ## Erase the branch by putting the leafs to None
         setatt( parent, "left", None )
         setatt( parent, "rite", None )
         setatt( parent, "split", None )
+        setatt( parent, "mask", None )
         setatt( parent, "dimension", None )
 
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
-        location = min( location - dnp, self.npars )
+        dnp = cleaf - self.npbase
+        location = location - dnp
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
-- 
2.43.0


From 1fe3ce839b6234a4e1eb12546638742a1805c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:56 +0000
Subject: [PATCH 110/144] fix: DecisionTreeModel.vary to a dimension of another
 type replaces the split or mask

---
 BayesicFitting/source/DecisionTreeModel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index c7f30bc..7a80ba8 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -904,12 +904,17 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         if rng is not None :
             location = rng.randint( self.ncomp )
             parent = self.findBranch( location )
+            ptype = Tools.getItem( self.itypes, parent.dimension )
             if rng.rand() < 0.5 :
                 kdim = rng.randint( self.ndim )
             else :
                 kdim = parent.dimension
 
             itype = Tools.getItem( self.itypes, kdim )
+            if itype != ptype :                         ## no use for the old split/mask
+                setatt( parent, "split", None )
+                setatt( parent, "mask", None )
+
             if itype == 0 :
                 if parent.split is None :               ## make new split
                     split = numpy.mean( rng.rand( self.nsplit ) )
@@ -928,11 +933,14 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 else :                                  ## change 1 bit
                     kr = rng.randint( itype )
                     mask = parent.mask ^ ( 0x1 << kr )
+                    if mask == 0 : mask = parent.mask   ## keep the last bit
                 setatt( parent, "mask", mask )
 
         else :
             parent = self.findBranch( location )
             itype = Tools.getItem( self.itypes, kdim )
+            setatt( parent, "split", None )
+            setatt( parent, "mask", None )
             parent.setSplitOrMask( itype, split )
 
         setatt( parent, "dimension", kdim )
-- 
2.43.0


From 7e5c817189d254e645dcd8c53d622efc7e423024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:46 +0000
Subject: [PATCH 111/144] fix: AnnealingAmoeba finds a simplex degenerate when
 all points have the same value in one dimension, not when one point has the
 same value in all dimensions

---
 BayesicFitting/source/AnnealingAmoeba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 29d9ee9..a1e24a3 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -326,10 +326,10 @@ class AnnealingAmoeba( object ):
         for i in range( dim[1] ) :
             same = True
             pre = simplex[0,i]
-            same = all( sim == pre for sim in simplex[i,:] )
+            same = all( sim == pre for sim in simplex[:,i] )
 
             if same:
-                print( simplex[i,:] )
+                print( simplex[:,i] )
                 raise ValueError( "Simplex is degenerate at index %d"%i )
 
     def setValues( self ):
-- 
2.43.0


From 3f40e54d8a9c8c53e201b21d4e1fcea8a13190f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:46 +0000
Subject: [PATCH 112/144] fix: AnnealingAmoeba accepts lists of one limit

---
 BayesicFitting/source/AnnealingAmoeba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index a1e24a3..dc0b882 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -197,8 +197,8 @@ class AnnealingAmoeba( object ):
             self.lolimits = None
             self.hilimits = None
         else :
-            self.lolimits = limits[0] if Tools.length( limits[0] ) > 1 else [limits[0]]*nfit
-            self.hilimits = limits[1] if Tools.length( limits[1] ) > 1 else [limits[1]]*nfit
+            self.lolimits = limits[0] if numpy.ndim( limits[0] ) > 0 else [limits[0]]*nfit
+            self.hilimits = limits[1] if numpy.ndim( limits[1] ) > 0 else [limits[1]]*nfit
         self.maxiter = maxiter
         if abstol is None and reltol is None :
             raise ValueError( "Both reltol and abstol are None." )
-- 
2.43.0


From f09ccc88f436b43149b1e2e929abaf51e76a7839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:46 +0000
Subject: [PATCH 113/144] fix: AnnealingAmoeba does not change the start and
 sizes of the caller

---
 BayesicFitting/source/AnnealingAmoeba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index dc0b882..2307d50 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -235,6 +235,8 @@ class AnnealingAmoeba( object ):
 
         """
         nfit = len( xini )
+        xini = numpy.array( xini, dtype=float )         ## work on copies
+        step = list( step )
 
         i = 0
         for ir in xini :
-- 
2.43.0


From ffb12ebf857b43fdf611a2fb2fa08b27a75ce019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:46 +0000
Subject: [PATCH 114/144] fix: AnnealingAmoeba keeps points and values in step
 when the best is put in front

---
 BayesicFitting/source/AnnealingAmoeba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 2307d50..ee8f13c 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -453,7 +453,7 @@ class AnnealingAmoeba( object ):
                     self.values[0] = self.values[ilo]
                     self.values[ilo] = swap
 
-                    swap = self.simplex[0,:]
+                    swap = self.simplex[0,:].copy()
                     self.simplex[0,:] = self.simplex[ilo,:]
                     self.simplex[ilo,:] = swap
 
-- 
2.43.0


From cf93f60a04b4f1116fb5bd21ae2661536f26b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:46 +0000
Subject: [PATCH 115/144] fix: AnnealingAmoeba stays inside the limits when it
 inflates the simplex or moves a corner

---
 BayesicFitting/source/AnnealingAmoeba.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index ee8f13c..f57455b 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -343,7 +343,9 @@ class AnnealingAmoeba( object ):
             corner = self.simplex[i,:]
             cost = self.func( corner )
             if not numpy.isfinite( cost ) :
+                old = corner.copy()
                 corner += 0.01 * numpy.sum( self.simplex, 0 )
+                self.stayInLimits( old, corner )
                 cost = self.func( corner )
 
             self.values[i] = cost
@@ -554,7 +556,7 @@ class AnnealingAmoeba( object ):
         (ndim,nfit) = self.simplex.shape
         milo = [k for k in range( ilo )] + [k for k in range( ilo+1, ndim )]
         for i in milo :
-            inpar = self.simplex[i,:]
+            inpar = self.simplex[i,:].copy()
             self.simplex[i,:] = factor * inpar + emf * self.simplex[ilo,:]
 
             self.simplex[i,:] = self.stayInLimits( inpar, self.simplex[i,:] )
-- 
2.43.0


From 2b73231ff87841d721b2d42a6d112bcc6a11f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:46 +0000
Subject: [PATCH 116/144] fix: the best point of AnnealingAmoeba does not move
 along with the simplex

---
 BayesicFitting/source/AnnealingAmoeba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index f57455b..d599ea4 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -569,7 +569,7 @@ class AnnealingAmoeba( object ):
                 ylo = self.values[i]
                 if self.values[i] < self.fopt:
                     self.fopt = ylo
-                    self.xopt = p
+                    self.xopt = p.copy()
 
         self.sum = numpy.sum( self.simplex, axis=0 )
 
-- 
2.43.0


From bd4aa03ecd6209b354a9bbc0343b6dfb161f8d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:19 +0000
Subject: [PATCH 117/144] fix: AnnealingAmoeba does not start at infinity when
 there is only a high limit

---
 BayesicFitting/source/AnnealingAmoeba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index d599ea4..5964233 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -280,7 +280,7 @@ class AnnealingAmoeba( object ):
         """
         Return True if it has low limits > -inf.
         """
-        return self.lolimits is not None and self.hilimits[k] > -math.inf
+        return self.lolimits is not None and self.lolimits[k] > -math.inf
 
     def hasHighLimits( self, k ) :
         """
-- 
2.43.0


From b5903c93427e7592b6bd5ea4799072a434ed02a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:02 +0000
Subject: [PATCH 118/144] fix: RobustShell measures the residuals in units of
 the accuracy, as the scale is

---
 BayesicFitting/source/RobustShell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/RobustShell.py b/BayesicFitting/source/RobustShell.py
index 9410403..9511312 100644
--- a/BayesicFitting/source/RobustShell.py
+++ b/BayesicFitting/source/RobustShell.py
@@ -236,6 +236,8 @@ class RobustShell( IterativeFitter ):
 
             residuals = data - self.model.result( self.xdata, param )
             scale = self.fitter.scale
+            if self.fitter.accuracy is not None :
+                residuals = residuals / self.fitter.accuracy
             residuals /= ( scale * domain )
             robwgt = kernelfunc( residuals )
             robwgt = self.getOneSidedWeights( robwgt, residuals, onesided )
-- 
2.43.0


From c0274ff6b29443f981053fcad56308858222732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:02 +0000
Subject: [PATCH 119/144] fix: the hessian of RobustShell concerns the fitted
 parameters only

---
 BayesicFitting/source/RobustShell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RobustShell.py b/BayesicFitting/source/RobustShell.py
index 9511312..9604b48 100644
--- a/BayesicFitting/source/RobustShell.py
+++ b/BayesicFitting/source/RobustShell.py
@@ -258,7 +258,7 @@ class RobustShell( IterativeFitter ):
             chi = trychi
             self.iter += 1
 
-        self.hessian = self.fitter.getHessian()
+        self.hessian = self.fitter.getHessian( index=self.fitter.fitIndex )
         self.chisq = trychi
 
         return param
-- 
2.43.0


From 97f3b196ae040b3a41ba3f4a4c3538c535fbb7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:02 +0000
Subject: [PATCH 120/144] fix: RobustShell returns the plain fit when maxIter
 is 0

---
 BayesicFitting/source/RobustShell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RobustShell.py b/BayesicFitting/source/RobustShell.py
index 9604b48..a7fd3ea 100644
--- a/BayesicFitting/source/RobustShell.py
+++ b/BayesicFitting/source/RobustShell.py
@@ -259,7 +259,7 @@ class RobustShell( IterativeFitter ):
             self.iter += 1
 
         self.hessian = self.fitter.getHessian( index=self.fitter.fitIndex )
-        self.chisq = trychi
+        self.chisq = self.fitter.chisq
 
         return param
 
-- 
2.43.0


From 917b04dd09a0adf834c17abb5c529576b282945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:02 +0000
Subject: [PATCH 121/144] fix: RobustShell calculates the domain of the kernel
 that is passed to fit()

---
 BayesicFitting/source/RobustShell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RobustShell.py b/BayesicFitting/source/RobustShell.py
index a7fd3ea..11b70ac 100644
--- a/BayesicFitting/source/RobustShell.py
+++ b/BayesicFitting/source/RobustShell.py
@@ -147,6 +147,7 @@ class RobustShell( IterativeFitter ):
         super( RobustShell, self ).__init__( fitter.xdata, fitter.model, **kwargs )
         self.fitter = fitter
         self.kernelfunc = self.setKernel( kernel )
+        self.autodomain = domain is None
         if domain is None :
             domain = 6.0 / self.kernel.fwhm
         self.domain = domain
@@ -224,7 +225,10 @@ class RobustShell( IterativeFitter ):
 
         kernelfunc = self.kernelfunc if kernel is None else self.setKernel( kernel )
         onesided = self.onesided if onesided is None else self.setOneSided( onesided )
-        domain = self.domain if domain is None else domain
+        if domain is None :
+            domain = self.domain
+            if kernel is not None and self.autodomain and self.kernel is not None :
+                domain = 6.0 / self.kernel.fwhm
 
         self.iter = 0
 
-- 
2.43.0


From aa713695d4871d544e1bc6348fe36fbe2b1c63bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:15 +0000
Subject: [PATCH 122/144] fix: RadialVelocityModel takes amplitude, period and
 eccentricity from their places in the parameter list

---
 BayesicFitting/source/RadialVelocityModel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/RadialVelocityModel.py b/BayesicFitting/source/RadialVelocityModel.py
index a715168..a501c0d 100644
--- a/BayesicFitting/source/RadialVelocityModel.py
+++ b/BayesicFitting/source/RadialVelocityModel.py
@@ -102,7 +102,7 @@ class RadialVelocityModel( NonLinearModel ) :
         """
         if name == "semimajoraxis" :
             p = self.parameters
-            return p[0] * p[1] * math.sqrt ( 1 - p[2] * p[2] ) / self.TWOPI
+            return p[1] * p[2] * math.sqrt ( 1 - p[0] * p[0] ) / self.TWOPI
         else :
             return super( RadialVelocityModel, self ).__getattr__( name )
 
@@ -116,8 +116,8 @@ class RadialVelocityModel( NonLinearModel ) :
             mass of the host star in solar masses.
         """
         p = self.parameters
-        return ( 4.91e-3 * math.pow( stellarmass, 2.0 / 3.0 ) * p[0] *
-                 math.pow( p[1], 1.0 / 3.0 ) * math.sqrt( 1 - p[2] * p[2] ) )
+        return ( 4.91e-3 * math.pow( stellarmass, 2.0 / 3.0 ) * p[1] *
+                 math.pow( p[2], 1.0 / 3.0 ) * math.sqrt( 1 - p[0] * p[0] ) )
 
     def baseResult( self, xdata, params ):
         """
-- 
2.43.0


From 2750097675e058ee74e93c7731e9fc5caff47b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:49 +0000
Subject: [PATCH 123/144] fix: derivative of a SplinesModel of order 0 on 2
 knots raised an IndexError

---
 BayesicFitting/source/SplinesModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index e89be58..643024f 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -238,6 +238,9 @@ class SplinesModel( LinearModel ):
             parameters to the model
 
         """
+        if self.order == 0 :                    # piecewise constant
+            return numpy.zeros_like( xdata, dtype=float )
+
         ff = numpy.append( numpy.arange( self.order + 1, dtype=float ),
                            numpy.full( self.npmax - self.order - 1, self.order, dtype=float ) )
         pars = params * ff
-- 
2.43.0


From e5d2ce35a308638047b70e3b74642cf66c8c05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:49 +0000
Subject: [PATCH 124/144] fix: BSplinesModel of order 0 on 2 knots returned its
 partials transposed

---
 BayesicFitting/source/BSplinesModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/BSplinesModel.py b/BayesicFitting/source/BSplinesModel.py
index b297ffa..e4b7132 100644
--- a/BayesicFitting/source/BSplinesModel.py
+++ b/BayesicFitting/source/BSplinesModel.py
@@ -226,7 +226,7 @@ class BSplinesModel( LinearModel ):
                    "  knots : ", self.knots[0], self.knots[-1] )
             raise ValueError( "Input data need to fall strictly in the domain spanned by knots" )
 
-        partial = Tools.toArray( self._bspline.collmat( xdata ), ndim=2 )
+        partial = self._bspline.collmat( xdata ).reshape( -1, self.npbase )
 
         return partial
 
@@ -244,7 +244,7 @@ class BSplinesModel( LinearModel ):
         """
         xd = numpy.where( xdata == self.knots[-1], ( 1.0 - self.eps ) * self.knots[-1], xdata )
 
-        partial = Tools.toArray( self._bspline.collmat( xd, deriv_order=1 ), ndim=2 )
+        partial = self._bspline.collmat( xd, deriv_order=1 ).reshape( -1, self.npbase )
 
         return numpy.inner( params, partial )
 
-- 
2.43.0


From 98135854d987bfed74122ab1f882c4d69c4f08fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 125/144] fix: ScipyFitter.fit starts at the initial parameters
 given as par0 (they were ignored)

---
 BayesicFitting/source/ScipyFitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 967f174..5d04dd7 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -225,7 +225,9 @@ class ScipyFitter( MaxLikelihoodFitter ):
         fitIndex, data, weights = self.fitprolog( data, weights=weights, 
                         accuracy=accuracy, keep=keep )
 
-        inipar = self.model.parameters[fitIndex]
+        inipar = numpy.asarray( self.model.parameters if par0 is None else par0 )
+        if len( inipar ) == self.model.npchain :
+            inipar = inipar[fitIndex]
 
         # Check for limits in the prior
         if limits is not None and self.model.priors :
-- 
2.43.0


From 4a4421b43da8847b191756dcefab10a18ef52e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 126/144] fix: ScipyFitter passes limits to scipy as one
 (low,high) pair for each fitted parameter

---
 BayesicFitting/source/ScipyFitter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 5d04dd7..60f8626 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -229,12 +229,10 @@ class ScipyFitter( MaxLikelihoodFitter ):
         if len( inipar ) == self.model.npchain :
             inipar = inipar[fitIndex]
 
-        # Check for limits in the prior
-        if limits is not None and self.model.priors :
-            try :
-                limits = ( self.model.lowLimits[fitIndex], self.model.highLimits[fitIndex] )
-            except :
-                limits = ( self.model.lowLimits, self.model.highLimits )
+        # scipy needs a pair of (low,high) for each of the fitted parameters
+        if limits is not None :
+            limits = [( numpy.zeros( self.model.npchain ) + lim )[fitIndex] for lim in limits]
+            limits = list( zip( *limits ) )
 
         if self.method is None:
             # Select automatically
-- 
2.43.0


From 33339dd30857989d128e7f153fecf8928867c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 127/144] fix: ScipyFitter without method selects one
 automatically, as documented

---
 BayesicFitting/source/ScipyFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 60f8626..af9b5c2 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -165,7 +165,7 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         self.userGradient = gradient
         self.userHessp = hessp
-        self.method = str.upper( method )
+        self.method = None if method is None else str.upper( method )
         self.norm = numpy.inf
         self.debug = False
         self.ngrad = 0
-- 
2.43.0


From ea165b082cbc1f7de59419365b74784bb7a5ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 128/144] fix: ScipyFitter.fit obeys its keywords maxiter and
 tolerance

---
 BayesicFitting/source/ScipyFitter.py | 45 +++++++++++++++-------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index af9b5c2..4d81481 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -243,6 +243,9 @@ class ScipyFitter( MaxLikelihoodFitter ):
             else:
                 self.method = 'BFGS'
 
+        if maxiter is None : maxiter = self.maxIter
+        if tolerance is None : tolerance = self.tolerance
+
         (func,gradient,hess) = self.makeFuncs( data, weights=weights, index=fitIndex )
 
         print( self.method )
@@ -281,57 +284,57 @@ class ScipyFitter( MaxLikelihoodFitter ):
             options = {}
 
         if self.method == 'NELDER-MEAD':
-            options.setdefault( 'xatol', self.tolerance )
-            options.setdefault( 'fatol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'xatol', tolerance )
+            options.setdefault( 'fatol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, method="Nelder-Mead",
                     callback=callback, options=options )
         elif self.method == 'POWELL':
-            options.setdefault( 'ftol', self.tolerance )
-            options.setdefault( 'xtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'xtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, method="Powell",
                     callback=callback, options=options )
         elif self.method == 'CG':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="CG",
                     callback=callback, options=options )
         elif self.method == 'BFGS':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="BFGS",
                     callback=callback, options=options )
         elif self.method == 'NEWTON-CG':
-            options.setdefault( 'xtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'xtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="Newton-CG",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
         elif self.method == 'L-BFGS-B':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'ftol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'ftol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="L-BFGS-B",
                     bounds=limits, callback=callback, options=options )
         elif self.method == 'TNC':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'ftol', self.tolerance )
-            options.setdefault( 'xtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'xtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="TNC",
                     bounds=limits, callback=callback, options=options )
         elif self.method == 'COBYLA':
-            options.setdefault( 'tol', self.tolerance )
+            options.setdefault( 'tol', tolerance )
             res = minimize( func, inipar, method="COBYLA",
                     constraints=constraints, callback=callback, options=options )
         elif self.method == 'SLSQP':
-            options.setdefault( 'ftol', self.tolerance )
+            options.setdefault( 'ftol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="SLSQP",
                     bounds=limits, constraints=constraints, callback=callback, options=options )
         elif self.method == 'DOGLEG':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="dogleg",
                     hess=hess, callback=callback, options=options )
         elif self.method == 'TRUST-NCG':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="trust-ncg",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
         else:
-- 
2.43.0


From 91556ea7d3b20fc7275da57bafeffb0c55156fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 129/144] fix: hessian of the chisq landscape is in line with
 its gradient, also when parameters are kept

---
 BayesicFitting/source/MaxLikelihoodFitter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index ce577b0..f21ddbb 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -271,7 +271,12 @@ class _Chisq( object ):
         """
         Return the Hessian matrix.
         """
-        return self._outer.getHessian( params=par, weights=self._weights, index=self._index )
+        param = self._outer.insertParameters( par, index=self._index )
+        hessian = 2 * self._outer.getHessian( params=param, weights=self._weights, index=self._index )
+
+        # the hessian attribute of the fitter pertains to the optimal parameters
+        self._outer.__dict__.pop( "hessian", None )
+        return hessian
 
 class _LogL( _Chisq ) :
     """
-- 
2.43.0


From 067f0daf8602402b3e3a6c283d68fc0d35bc9963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 130/144] fix: hessianLogL of GaussErrorDistribution has the
 sign of a second derivative and applies weights once

---
 BayesicFitting/source/GaussErrorDistribution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/GaussErrorDistribution.py b/BayesicFitting/source/GaussErrorDistribution.py
index 0d7a6ba..1cf3c80 100644
--- a/BayesicFitting/source/GaussErrorDistribution.py
+++ b/BayesicFitting/source/GaussErrorDistribution.py
@@ -277,20 +277,20 @@ class GaussErrorDistribution( ScaledErrorDistribution ):
         scale = allpars[np]
         s2 = scale * scale
 
-        fi = fitIndex if fitIndex[-1] != np else fitIndex[-1:]
+        fi = fitIndex if fitIndex[-1] != np else fitIndex[:-1]
 
         nf = len( fi )
         design = problem.partial( param )[:,fi]
         design = design.transpose()
         deswgt = design
         if problem.hasWeights() :
-            deswgt *= problem.weights
+            deswgt = design * problem.weights
 
         hessian = numpy.zeros( ( nh, nh ), dtype=float )
-        hessian[:nf,:nf] = numpy.inner( design, deswgt ) / s2
+        hessian[:nf,:nf] = - numpy.inner( design, deswgt ) / s2
 
         if fitIndex[-1] == np :
-            hessian[nf,nf] = 2 * ( problem.ndata - nf ) / s2
+            hessian[nf,nf] = - 2 * ( problem.ndata - nf ) / s2
 
         return hessian
 
-- 
2.43.0


From d7aad4170113ec433faf9a40d8450729cbf423ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 131/144] fix: AmoebaFitter accepts a list as initial
 parameters when some of them are kept

---
 BayesicFitting/source/AmoebaFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AmoebaFitter.py b/BayesicFitting/source/AmoebaFitter.py
index 7cada9a..b6d038a 100644
--- a/BayesicFitting/source/AmoebaFitter.py
+++ b/BayesicFitting/source/AmoebaFitter.py
@@ -169,7 +169,7 @@ class AmoebaFitter( MaxLikelihoodFitter ):
         if par0 is None :
             par0 = self.model.parameters
         if fitIndex is not None and len( fitIndex ) < len( par0 ) :
-            par0 = par0[fitIndex]
+            par0 = numpy.asarray( par0 )[fitIndex]
 
         kwargs = {}
         if size is not None :
-- 
2.43.0


From 6c7e9ea56dc75823ff09b735b5e5bd908475af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 132/144] fix: CurveFitter accepts a list of initial
 parameters, and limits when parameters are kept

---
 BayesicFitting/source/CurveFitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/CurveFitter.py b/BayesicFitting/source/CurveFitter.py
index 71896f4..3aa4a58 100644
--- a/BayesicFitting/source/CurveFitter.py
+++ b/BayesicFitting/source/CurveFitter.py
@@ -138,7 +138,9 @@ class CurveFitter( IterativeFitter ):
         # Make initial parameters
         p0 = self.model.parameters if inipar is None else inipar
         if fitIndex is not None :
-            p0 = p0[fitIndex]
+            p0 = numpy.asarray( p0 )[fitIndex]
+            bounds = tuple( numpy.asarray( b )[fitIndex]
+                if Tools.length( b ) == self.model.npchain > 1 else b for b in bounds )
 
         ydat = ydata
         # Normalize the data when needed.
-- 
2.43.0


From 484f4e19c65d957e77bd3caacb02c1b30d0130ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 133/144] fix: AmoebaFitter applies the limits to the right
 parameters when some of them are kept

---
 BayesicFitting/source/AmoebaFitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AmoebaFitter.py b/BayesicFitting/source/AmoebaFitter.py
index b6d038a..02eecd2 100644
--- a/BayesicFitting/source/AmoebaFitter.py
+++ b/BayesicFitting/source/AmoebaFitter.py
@@ -179,7 +179,8 @@ class AmoebaFitter( MaxLikelihoodFitter ):
         if temp is not None :
             kwargs["temp"] = temp
         if limits is not None :
-            kwargs["limits"] = limits
+            kwargs["limits"] = [numpy.asarray( lim )[fitIndex]
+                if Tools.length( lim ) == self.model.npchain > 1 else lim for lim in limits]
         if maxiter is not None :
             kwargs["maxiter"] = maxiter
         if tolerance is not None :
-- 
2.43.0


From c574ed780efe65bcc6750441437b79dacb232467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:01 +0000
Subject: [PATCH 134/144] fix: UserModel.basePartial selects parameters, not
 data points, when parameters are fixed

---
 BayesicFitting/source/UserModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/UserModel.py b/BayesicFitting/source/UserModel.py
index 0680a63..4486a32 100644
--- a/BayesicFitting/source/UserModel.py
+++ b/BayesicFitting/source/UserModel.py
@@ -175,7 +175,7 @@ class UserModel( Model ):
         if parlist is None :
             return self.userPartial( xdata, params )
         else :
-            return self.userPartial( xdata, params )[parlist]
+            return self.userPartial( xdata, params )[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
-- 
2.43.0


From eee09298c85033e7258f8868dd188e5a0c7bf4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:01 +0000
Subject: [PATCH 135/144] fix: numeric derivatives of a UserModel take fixed
 parameters into account

---
 BayesicFitting/source/UserModel.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/UserModel.py b/BayesicFitting/source/UserModel.py
index 4486a32..704bad1 100644
--- a/BayesicFitting/source/UserModel.py
+++ b/BayesicFitting/source/UserModel.py
@@ -127,8 +127,8 @@ class UserModel( Model ):
             setatt( self, "userDerivative", copy.userDerivative )
             setatt( self, "userName", copy.userName, type=str )
         else :
-            self.setMethod( "userPartial", userPartial, numeric=self.numPartial )
-            self.setMethod( "userDerivative", userDeriv, numeric=self.numDerivative )
+            self.setMethod( "userPartial", userPartial, numeric=self.numericPartial )
+            self.setMethod( "userDerivative", userDeriv, numeric=self.numericDerivative )
             setatt( self, "userName", userName, type=str )
 
     def copy( self ):
@@ -144,6 +144,27 @@ class UserModel( Model ):
         else :
             raise ValueError( "%s %s is not callable" % ( name, str( userMethod ) ) )
 
+    def numericPartial( self, xdata, params ) :
+        """
+        Return numeric partials of userResult to all (also fixed) params.
+        """
+        dp = self.deltaP[0]
+        columns = []
+        for k in range( len( params ) ) :
+            p1, p2 = params.copy(), params.copy()
+            p1[k] += 0.5 * dp
+            p2[k] -= 0.5 * dp
+            columns += [( self.userResult( xdata, p1 ) - self.userResult( xdata, p2 ) ) / dp]
+        return numpy.array( columns ).transpose()
+
+    def numericDerivative( self, xdata, params ) :
+        """
+        Return numeric derivative of userResult to xdata.
+        """
+        if self.fixed is not None :
+            params = params[self.parlist]
+        return super( Model, self ).numDerivative( xdata, params )
+
     def baseResult( self, xdata, params ):
         """
         Returns the result of the model function.
-- 
2.43.0


From 2abef8e94915ee77a0178a783480a5105c15f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:01 +0000
Subject: [PATCH 136/144] fix: AstropyModel.baseDerivative returns the
 derivative

---
 BayesicFitting/source/AstropyModel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AstropyModel.py b/BayesicFitting/source/AstropyModel.py
index 30afacf..6c9987f 100644
--- a/BayesicFitting/source/AstropyModel.py
+++ b/BayesicFitting/source/AstropyModel.py
@@ -170,7 +170,9 @@ class AstropyModel( Model ):
             values for the parameters.
 
         """
-        self.numDerivative( xdata, params )
+        if self.fixed is not None :
+            params = params[self.parlist]
+        return super( Model, self ).numDerivative( xdata, params )
 
     def baseName( self ):
         """
-- 
2.43.0


From 169967c1e3417068e2f2eb4886f3ddf1935435f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:01 +0000
Subject: [PATCH 137/144] fix: AstropyModel.basePartial has one column for each
 selected parameter

---
 BayesicFitting/source/AstropyModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AstropyModel.py b/BayesicFitting/source/AstropyModel.py
index 6c9987f..adbae44 100644
--- a/BayesicFitting/source/AstropyModel.py
+++ b/BayesicFitting/source/AstropyModel.py
@@ -152,7 +152,7 @@ class AstropyModel( Model ):
         if parlist is None :
             return ap
 
-        partial = numpy.ndarray( ( Tools.length( xdata ), self.npbase ) )
+        partial = numpy.ndarray( ( Tools.length( xdata ), len( parlist ) ) )
         for k,kp in enumerate( parlist ) :
             partial[:,k] = ap[:,kp]
 
-- 
2.43.0


From abcfb0656f5f7105f6bd9c3f61085a5af2405b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:01 +0000
Subject: [PATCH 138/144] fix: models without a baseDerivative use the numeric
 derivative, as documented

---
 BayesicFitting/source/FixedModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index e7c37fa..b091085 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -391,7 +391,7 @@ class FixedModel( BaseModel ):
             values for the parameters. (default: self.parameters)
 
         """
-        if len( self.mlist ) == 0 :
+        if len( self.mlist ) == 0 and hasattr( self, "baseDerivative" ) :
             params = self.expand( xdata, param )
             return self.baseDerivative( xdata, params )
         else :
-- 
2.43.0


From 2d14dcae4e506b6867a54aa788aeae65b4cd4708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:01 +0000
Subject: [PATCH 139/144] fix: numeric derivatives of models with more outputs

---
 BayesicFitting/source/FixedModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index b091085..bf26dd7 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -328,7 +328,7 @@ class FixedModel( BaseModel ):
 
         """
         nxdata = Tools.length( xdata )
-        partial = numpy.zeros( ( nxdata, self.npbase ), dtype=float  )
+        partial = [numpy.zeros( ( nxdata, self.npbase ), dtype=float ) for o in range( self.ndout )]
         dpg = Tools.makeNext( self.deltaP, 0 )
 
         par = params.copy()
@@ -341,13 +341,15 @@ class FixedModel( BaseModel ):
             r1 = FixedModel.result( self, xdata, par )
             par[k] -= dp
             r2 = FixedModel.result( self, xdata, par )
-            partial[:,i] = ( r1 - r2 ) / dp
+            dfdp = ( ( r1 - r2 ) / dp ).reshape( nxdata, self.ndout )
+            for o in range( self.ndout ) :
+                partial[o][:,i] = dfdp[:,o]
             par[k] = params[k]
         try :
             dpg.close()
         except :
             pass
-        return partial
+        return partial if self.ndout > 1 else partial[0]
 
     def basePartial( self, xdata, param, parlist=None ) :
         """
@@ -446,7 +448,7 @@ class FixedModel( BaseModel ):
                 r1 = FixedModel.result( self, x, param )
                 x[:,i] -= 2 * dx
                 r2 = FixedModel.result( self, x, param )
-                df[:,i] = ( r1 - r2 ) / ( 2 * dx )
+                df[:,i] = ( r1[:,k] - r2[:,k] ) / ( 2 * dx )
             dfdx += [df]
         return dfdx
 
-- 
2.43.0


From d705854b53eb04a379f0ef2aaa6eb79bdb41cee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:08 +0000
Subject: [PATCH 140/144] fix: ScipyFitter selects the method automatically in
 every fit, not only in the first one

---
 BayesicFitting/source/ScipyFitter.py | 65 ++++++++++++++--------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 4d81481..71dc728 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -234,111 +234,112 @@ class ScipyFitter( MaxLikelihoodFitter ):
             limits = [( numpy.zeros( self.model.npchain ) + lim )[fitIndex] for lim in limits]
             limits = list( zip( *limits ) )
 
-        if self.method is None:
+        method = self.method
+        if method is None:
             # Select automatically
             if constraints:
-                self.method = 'SLSQP'
+                method = 'SLSQP'
             elif limits is not None:
-                self.method = 'L-BFGS-B'
+                method = 'L-BFGS-B'
             else:
-                self.method = 'BFGS'
+                method = 'BFGS'
 
         if maxiter is None : maxiter = self.maxIter
         if tolerance is None : tolerance = self.tolerance
 
         (func,gradient,hess) = self.makeFuncs( data, weights=weights, index=fitIndex )
 
-        print( self.method )
+        print( method )
 
         # - hessp
-        useHessian = self.method in ('NEWTON-CG', 'DOGLEG', 'TRUST-NCG')
+        useHessian = method in ('NEWTON-CG', 'DOGLEG', 'TRUST-NCG')
         if ( not useHessian and hasattr( self, "userHessp" ) and self.userHessp is not None ) :
             warnings.warn('Method %s does not use Hessian-vector product '
-                    'information (hessp).' % self.method, RuntimeWarning)
+                    'information (hessp).' % method, RuntimeWarning)
 
         # - constraints or limits
-        if (self.method in ['NELDER-MEAD', 'POWELL', 'CG', 'BFGS', 'NEWTON-CG', 'DOGLEG',
+        if (method in ['NELDER-MEAD', 'POWELL', 'CG', 'BFGS', 'NEWTON-CG', 'DOGLEG',
                  'TRUST-NCG'] and ( limits is not None or numpy.any( constraints ) ) ):
-            warnings.warn('Method %s cannot handle constraints nor limits.' % self.method,
+            warnings.warn('Method %s cannot handle constraints nor limits.' % method,
                  RuntimeWarning)
-        if self.method in ['L-BFGS-B', 'TNC'] and numpy.any( constraints ):
-            warnings.warn('Method %s cannot handle constraints.' % self.method, RuntimeWarning)
-        if self.method == 'COBYLA' and limits is not None:
-            warnings.warn('Method %s cannot handle limits.' % self.method, RuntimeWarning)
+        if method in ['L-BFGS-B', 'TNC'] and numpy.any( constraints ):
+            warnings.warn('Method %s cannot handle constraints.' % method, RuntimeWarning)
+        if method == 'COBYLA' and limits is not None:
+            warnings.warn('Method %s cannot handle limits.' % method, RuntimeWarning)
 
         # - callback
-        if (self.method in ['COBYLA'] and callback is not None):
-            warnings.warn('Method %s does not support callback.' % self.method, RuntimeWarning)
+        if (method in ['COBYLA'] and callback is not None):
+            warnings.warn('Method %s does not support callback.' % method, RuntimeWarning)
         elif self.debug :
             self.vectors = numpy.asarray( [inipar] )
             print( self.vectors )
             callback = self.collectVectors
 
         # - return_all
-        if (self.method in ['L-BFGS-B', 'TNC', 'COBYLA', 'SLSQP'] and
+        if (method in ['L-BFGS-B', 'TNC', 'COBYLA', 'SLSQP'] and
                 options.get('return_all', False)):
-            warnings.warn('Method %s does not support the return_all option.' % self.method,
+            warnings.warn('Method %s does not support the return_all option.' % method,
                  RuntimeWarning)
 
         if options is None:
             options = {}
 
-        if self.method == 'NELDER-MEAD':
+        if method == 'NELDER-MEAD':
             options.setdefault( 'xatol', tolerance )
             options.setdefault( 'fatol', tolerance )
             options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, method="Nelder-Mead",
                     callback=callback, options=options )
-        elif self.method == 'POWELL':
+        elif method == 'POWELL':
             options.setdefault( 'ftol', tolerance )
             options.setdefault( 'xtol', tolerance )
             options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, method="Powell",
                     callback=callback, options=options )
-        elif self.method == 'CG':
+        elif method == 'CG':
             options.setdefault( 'gtol', tolerance )
             options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="CG",
                     callback=callback, options=options )
-        elif self.method == 'BFGS':
+        elif method == 'BFGS':
             options.setdefault( 'gtol', tolerance )
             options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="BFGS",
                     callback=callback, options=options )
-        elif self.method == 'NEWTON-CG':
+        elif method == 'NEWTON-CG':
             options.setdefault( 'xtol', tolerance )
             options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="Newton-CG",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
-        elif self.method == 'L-BFGS-B':
+        elif method == 'L-BFGS-B':
             options.setdefault( 'gtol', tolerance )
             options.setdefault( 'ftol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="L-BFGS-B",
                     bounds=limits, callback=callback, options=options )
-        elif self.method == 'TNC':
+        elif method == 'TNC':
             options.setdefault( 'gtol', tolerance )
             options.setdefault( 'ftol', tolerance )
             options.setdefault( 'xtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="TNC",
                     bounds=limits, callback=callback, options=options )
-        elif self.method == 'COBYLA':
+        elif method == 'COBYLA':
             options.setdefault( 'tol', tolerance )
             res = minimize( func, inipar, method="COBYLA",
                     constraints=constraints, callback=callback, options=options )
-        elif self.method == 'SLSQP':
+        elif method == 'SLSQP':
             options.setdefault( 'ftol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="SLSQP",
                     bounds=limits, constraints=constraints, callback=callback, options=options )
-        elif self.method == 'DOGLEG':
+        elif method == 'DOGLEG':
             options.setdefault( 'gtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="dogleg",
                     hess=hess, callback=callback, options=options )
-        elif self.method == 'TRUST-NCG':
+        elif method == 'TRUST-NCG':
             options.setdefault( 'gtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="trust-ncg",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
         else:
-            raise ValueError('Unknown solver %s' % self.method)
+            raise ValueError('Unknown solver %s' % method)
 
         print( res )
 
@@ -353,11 +354,11 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
 #        self.chisq = res["fun"]
         self.ntrans = res["nfev"]
-#        print( self.method, self.method != "COBYLA" )
-        if self.method != "COBYLA" :
+#        print( method, method != "COBYLA" )
+        if method != "COBYLA" :
             self.iter = res["nit"]
         # - gradient
-        if self.method in ('CG', 'BFGS', 'NEWTON-CG', 'DOGLEG', 'TRUST-NCG') :
+        if method in ('CG', 'BFGS', 'NEWTON-CG', 'DOGLEG', 'TRUST-NCG') :
             self.ngrad = res["njev"]
 
         self.fulloutput = res
-- 
2.43.0


From 65a9189aa075a02e299ca155b5cf7f2904aa9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:08 +0000
Subject: [PATCH 141/144] fix: ScipyFitter accepts constraint functions, as
 documented

---
 BayesicFitting/source/ScipyFitter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 71dc728..86e4a97 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -244,6 +244,12 @@ class ScipyFitter( MaxLikelihoodFitter ):
             else:
                 method = 'BFGS'
 
+        # scipy needs a dictionary for each constraint function; they are functions of all parameters
+        if isinstance( constraints, (list,tuple) ) :
+            constraints = [{'type': 'ineq', 'fun': ( lambda p, cf=cf :
+                    cf( self.insertParameters( p, index=fitIndex ) ) )} if callable( cf ) else cf
+                    for cf in constraints]
+
         if maxiter is None : maxiter = self.maxIter
         if tolerance is None : tolerance = self.tolerance
 
-- 
2.43.0


From 91e0b7ba9928a9d3244b06889474da0ad00df6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:34 +0000
Subject: [PATCH 142/144] fix: copies of error distributions are independent
 and leave the original as it was

---
 BayesicFitting/source/ErrorDistribution.py            | 6 +++---
 BayesicFitting/source/ExponentialErrorDistribution.py | 2 --
 BayesicFitting/source/MixedErrorDistribution.py       | 4 +++-
 BayesicFitting/source/ModelDistribution.py            | 2 +-
 BayesicFitting/source/ScaledErrorDistribution.py      | 7 ++-----
 5 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index a66a4d9..6ad8dd1 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -98,10 +98,10 @@ class ErrorDistribution( object ):
             self.deltaP = 0.000001
             self.fixed = self.keepFixed( fixed )
             self.constrain = constrain
-        else :                          ### TBC do we need copies here ????
-            self.hyperpar = copy.hyperpar
+        else :
+            self.hyperpar = [hp.copy() for hp in copy.hyperpar]
             self.deltaP = copy.deltaP
-            self.fixed = self.keepFixed( copy.fixed )
+            self.fixed = None if copy.fixed is None else copy.fixed.copy()
             self.constrain = copy.constrain
 
     def copy( self ):
diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 531e8e7..b828005 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -115,8 +115,6 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         if copy is None :
             self.hyperpar = [NoiseScale( scale=scale, limits=slim ),
                              HyperParameter( hypar=power, limits=plim )]
-        else :
-            self.hyperpar = copy.hyperpar
 
     def copy( self ):
         """ Return copy of this.  """
diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 4e9be88..b31c34c 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -98,10 +98,12 @@ class MixedErrorDistribution( ErrorDistribution ):
             fprior = UniformPrior( )
             fraction = HyperParameter( hypar=fraction, prior=fprior, limits=limits )
             self.hyperpar += [fraction]
+        else :
+            self.hyperpar = errdis1.hyperpar + errdis2.hyperpar + self.hyperpar[-1:]
 
     def copy( self ):
         """ Return copy of this.  """
-        return MixedErrorDistribution( self.errdis1, self.errdis2, copy=self )
+        return MixedErrorDistribution( self.errdis1.copy(), self.errdis2.copy(), copy=self )
 
     def __setattr__( self, name, value ):
         """
diff --git a/BayesicFitting/source/ModelDistribution.py b/BayesicFitting/source/ModelDistribution.py
index 6ef8682..9a353a8 100644
--- a/BayesicFitting/source/ModelDistribution.py
+++ b/BayesicFitting/source/ModelDistribution.py
@@ -99,7 +99,7 @@ class ModelDistribution( ScaledErrorDistribution ):
 
     def copy( self ):
         """ Return copy of this.  """
-        return ModelDistribution( copy=self, arbiter=self.arbiter )
+        return ModelDistribution( copy=self, arbiter=self.arbiter, **self.kwarbs )
 
     def acceptWeight( self ):
         """
diff --git a/BayesicFitting/source/ScaledErrorDistribution.py b/BayesicFitting/source/ScaledErrorDistribution.py
index cce4db6..61c1812 100644
--- a/BayesicFitting/source/ScaledErrorDistribution.py
+++ b/BayesicFitting/source/ScaledErrorDistribution.py
@@ -76,11 +76,8 @@ class ScaledErrorDistribution( ErrorDistribution ):
 
         if copy is None :
             self.hyperpar = NoiseScale( scale=scale, limits=limits )
-        else :
-            self.hyperpar = copy.hyperpar                   ## TBC copy ???
-
-        if limits is None :
-            self.fixed = self.keepFixed( {0: scale} )
+            if limits is None :
+                self.fixed = self.keepFixed( {0: scale} )
 
     def copy( self ):
         """ Return copy of this.  """
-- 
2.43.0


From 9dc409a9226ac716d7e0807813e9da2006ae6b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:47 +0000
Subject: [PATCH 143/144] fix: a mixture of error distributions accepts a
 second one without hyperparameters

---
 BayesicFitting/source/MixedErrorDistribution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index b31c34c..3b8ff50 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -148,8 +148,7 @@ class MixedErrorDistribution( ErrorDistribution ):
         n1 = self.errdis1.nphypar
         n2 = self.errdis2.nphypar
         p1 = allpars[:-n2-1]
-        p2 = allpars[:-n1-1].copy()
-        p2[-n2:] = allpars[-n2-1:-1]
+        p2 = numpy.append( allpars[:-n1-n2-1], allpars[-n2-1:-1] )
 
         if f <= 0 :
             return self.errdis2.logLdata( problem, p2, mockdata=mockdata )
@@ -185,8 +184,7 @@ class MixedErrorDistribution( ErrorDistribution ):
         n1 = self.errdis1.nphypar
         n2 = self.errdis2.nphypar
         p1 = allpars[:-n2-1]
-        p2 = allpars[:-n1-1].copy()
-        p2[-n2:] = allpars[-n2-1:-1]
+        p2 = numpy.append( allpars[:-n1-n2-1], allpars[-n2-1:-1] )
 
 
         # make fitIndex (f1,f2) for errdis1&2
-- 
2.43.0


From a6df7ff2e2e3d2b1d9729f4dbf4f18c3a39d53c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:30 +0000
Subject: [PATCH 144/144] fix: ModelDistribution passes the weights of the
 problem on to the fitter

---
 BayesicFitting/source/ModelDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ModelDistribution.py b/BayesicFitting/source/ModelDistribution.py
index 9a353a8..6095844 100644
--- a/BayesicFitting/source/ModelDistribution.py
+++ b/BayesicFitting/source/ModelDistribution.py
@@ -202,7 +202,7 @@ class ModelDistribution( ScaledErrorDistribution ):
 #        print( "MD Fitr    ", ftr ) 
 
         try :
-            pars = ftr.fit( problem.ydata )
+            pars = ftr.fit( problem.ydata, weights=problem.weights )
             evidence = ftr.getLogZ( limits=mdl.getLimits(), noiseLimits=noiselim )
 
             allpars[:mdl.npars] = pars
-- 
2.43.0

