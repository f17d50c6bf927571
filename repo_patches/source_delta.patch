From ea69b1aded76bc3197c3cbf8e60a702bf4d101b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 001/130] fix: Kernel.resultsq evaluates the kernel at the
 square root of its argument

---
 BayesicFitting/source/kernels/Kernel.py | 4 +++-
 BayesicFitting/source/kernels/Tophat.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/kernels/Kernel.py b/BayesicFitting/source/kernels/Kernel.py
index b633d70..6ae7d49 100644
--- a/BayesicFitting/source/kernels/Kernel.py
+++ b/BayesicFitting/source/kernels/Kernel.py
@@ -28,6 +28,8 @@ __status__ = "Development"
 #  *    2016 - 2017 Do Kester
 
 
+import numpy as numpy
+
 class Kernel( object ):
     """
     A kernel is an even real-valued integrable function.
@@ -128,7 +130,7 @@ class Kernel( object ):
         Parameters: x the square of the input value
 
         """
-        pass
+        return self.result( numpy.sqrt( xsq ) )
 
     def partial( self, x ):
         """
diff --git a/BayesicFitting/source/kernels/Tophat.py b/BayesicFitting/source/kernels/Tophat.py
index 0c18024..0dc2515 100644
--- a/BayesicFitting/source/kernels/Tophat.py
+++ b/BayesicFitting/source/kernels/Tophat.py
@@ -83,7 +83,7 @@ class Tophat( Kernel ):
         return self.conv.result( x )
 
     def resultsq( self, xsq ):
-        return self.result( xsq )                   #  the same
+        return self.result( numpy.sqrt( xsq ) )
 
     def partial( self, x ):
         return self.conv.partial( x )
-- 
2.43.0


From 54d0f7f44565060fc6ff096e4afc10bf2463d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 002/130] fix: partials of PseudoVoigtModel with fixed
 parameters

---
 BayesicFitting/source/PseudoVoigtModel.py | 28 ++++++++---------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/BayesicFitting/source/PseudoVoigtModel.py b/BayesicFitting/source/PseudoVoigtModel.py
index e98b035..821c4ee 100644
--- a/BayesicFitting/source/PseudoVoigtModel.py
+++ b/BayesicFitting/source/PseudoVoigtModel.py
@@ -158,25 +158,17 @@ class PseudoVoigtModel( NonLinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        pl = parlist
-        if parlist is not None and 3 in pl :
-            pl = parlist.copy()
-            pl.remove( 3 )
-
         pars = params[:3]
-        partial = ( params[3] * self.lorentz.basePartial( xdata, pars, parlist=pl ) +
-                 ( 1 - params[3] ) * self.gauss.basePartial( xdata, pars, parlist=pl ) )
-
-        if parlist is None or 3 in parlist :
-            part3 = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
-            (n0,n1) = partial.shape
-            shp = ( n0, n1+1 )
-            pp = numpy.zeros( shp, dtype=float )
-            pp[:,:n1] = partial
-            pp[:,n1] = part3
-            partial = pp
-
-        return partial
+        part = ( params[3] * self.lorentz.basePartial( xdata, pars ).T +
+                 ( 1 - params[3] ) * self.gauss.basePartial( xdata, pars ).T ).T
+        part3 = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
+
+        (n0,n1) = part.shape
+        partial = numpy.zeros( ( n0, n1+1 ), dtype=float )
+        partial[:,:n1] = part
+        partial[:,n1] = part3
+
+        return partial if parlist is None else partial[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
-- 
2.43.0


From e074be8137a108b9775344e405876081c1d4d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 003/130] fix: partials and derivatives of compound models
 beyond a pipe or a model with fixed models

---
 BayesicFitting/source/Model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index e839d66..a90de4b 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -598,7 +598,7 @@ class Model( FixedModel ):
 
         if self._next is None :
             return df
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
         result = self.operate( result, par, nextres )
 
@@ -679,10 +679,10 @@ class Model( FixedModel ):
         model = self._next
         if model is None:
             return partial
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
 
-        result = self.operate( result, param[at:], nextres )
+        result = self.operate( result, par, nextres )
         #  append the partials of the _next model
         at += np
         return model._recursivePartial( xdata, param, at, result, partial,
-- 
2.43.0


From 550f15ed77e9fc70b1f089b65fea36c3ae0460b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 004/130] fix: UserModel copies and numeric partials when
 parameters are fixed or the model is in a compound

---
 BayesicFitting/source/UserModel.py | 68 +++++++++++++++++++++++++++---
 1 file changed, 62 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/UserModel.py b/BayesicFitting/source/UserModel.py
index 0680a63..8eb394a 100644
--- a/BayesicFitting/source/UserModel.py
+++ b/BayesicFitting/source/UserModel.py
@@ -123,17 +123,20 @@ class UserModel( Model ):
         super( ).__init__( npars, ndim=ndim, copy=copy, **kwargs )
 
         if copy is not None :
-            setatt( self, "userPartial", copy.userPartial )
-            setatt( self, "userDerivative", copy.userDerivative )
+            for name in ["userPartial", "userDerivative"] :
+                method = getattr( copy, name )
+                if getattr( method, "__self__", None ) is copy :
+                    method = getattr( self, method.__name__ )
+                setatt( self, name, method )
             setatt( self, "userName", copy.userName, type=str )
         else :
-            self.setMethod( "userPartial", userPartial, numeric=self.numPartial )
-            self.setMethod( "userDerivative", userDeriv, numeric=self.numDerivative )
+            self.setMethod( "userPartial", userPartial, numeric=self.numUserPartial )
+            self.setMethod( "userDerivative", userDeriv, numeric=self.numUserDerivative )
             setatt( self, "userName", userName, type=str )
 
     def copy( self ):
         """ Copy method.  """
-        return UserModel( self.npars, self.baseResult, ndim=self.ndim, copy=self )
+        return UserModel( self.npmax, self.userResult, ndim=self.ndim, copy=self )
 
     def setMethod( self, name, userMethod, numeric=None ) :
         if callable( userMethod ) :
@@ -175,7 +178,7 @@ class UserModel( Model ):
         if parlist is None :
             return self.userPartial( xdata, params )
         else :
-            return self.userPartial( xdata, params )[parlist]
+            return self.userPartial( xdata, params )[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
@@ -191,6 +194,59 @@ class UserModel( Model ):
         """
         return self.userDerivative( xdata, params )
 
+    def numUserPartial( self, xdata, params ):
+        """
+        Returns numerically calculated partials of userResult to all parameters.
+
+        Parameters
+        ----------
+        xdata : array_like
+            values at which to calculate the partials
+        params : array_like
+            values for all parameters, including the fixed ones.
+
+        """
+        partial = numpy.zeros( ( Tools.length( xdata ), self.npmax ), dtype=float )
+        dpg = Tools.makeNext( self.deltaP, 0 )
+
+        par = numpy.array( params ) * 1.0
+        for k in range( self.npmax ) :
+            dp = next( dpg )
+            pk = par[k]
+            par[k] = pk + 0.5 * dp
+            r1 = self.userResult( xdata, par )
+            par[k] = pk - 0.5 * dp
+            r2 = self.userResult( xdata, par )
+            par[k] = pk
+            partial[:,k] = ( r1 - r2 ) / dp
+
+        return partial
+
+    def numUserDerivative( self, xdata, params ):
+        """
+        Returns the numerically calculated derivative of userResult to xdata.
+
+        Parameters
+        ----------
+        xdata : array_like
+            values at which to calculate the derivative
+        params : array_like
+            values for all parameters, including the fixed ones.
+
+        """
+        dx = self.deltaP[0]
+        if self.ndim == 1 :
+            return ( self.userResult( xdata + dx, params ) -
+                     self.userResult( xdata - dx, params ) ) / ( 2 * dx )
+
+        df = numpy.zeros_like( xdata, dtype=float )
+        for i in range( self.ndim ) :
+            step = numpy.zeros( self.ndim, dtype=float )
+            step[i] = dx
+            df[:,i] = ( self.userResult( xdata + step, params ) -
+                        self.userResult( xdata - step, params ) ) / ( 2 * dx )
+        return df
+
     def baseName( self ):
         """
         Returns a string representation of the model.
-- 
2.43.0


From 4647625729055a5797e5bdd3fb658acfed67f6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 005/130] fix: derivatives of a model piped into a compound
 model

---
 BayesicFitting/source/Model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index a90de4b..745082a 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -420,11 +420,13 @@ class Model( FixedModel ):
             if self.lastndout != model.ndim :
                 raise ValueError( "Trying to pipe incompatible models:  %d | %d"%
                                 (self.lastndout, model.ndim) )
-            model.selectPipe( self.ndim, model.ndim, model.ndout )
 
         if model._next is not None :
             model = Brackets( model )     # provide brackets if model is a chain
 
+        if operation == self.PIP :
+            model.selectPipe( self.ndim, model.ndim, model.ndout )
+
         last = self
         while last._next != None:
             last = last._next
@@ -1731,6 +1733,7 @@ class Brackets( Model ):
                                 copy=copy, **kwargs )
         setatt( self, "model", model, type=Model )
         setatt( self, "parameters", model.parameters )
+        setatt( self, "ndout", model.lastndout )
 
         next = model
         deep = 1
-- 
2.43.0


From 8cea639f589f9e38088c7c9f7fa358de96f936d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 006/130] fix: derivative of EtalonDriftModel

---
 BayesicFitting/source/EtalonDriftModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/EtalonDriftModel.py b/BayesicFitting/source/EtalonDriftModel.py
index 89c78c1..fed8516 100644
--- a/BayesicFitting/source/EtalonDriftModel.py
+++ b/BayesicFitting/source/EtalonDriftModel.py
@@ -131,9 +131,9 @@ class EtalonDriftModel( NonLinearModel ):
         dd = 1 + p1 * sx * sx
 
         dd *= dd
-        df = - 2 * math.pi * params[0] * p1 * params[2] * sx * numpy.cos( x ) / dd
+        df = - 2 * math.pi * params[0] * p1 * sx * numpy.cos( x ) / dd
 
-        return [df * params[2], df * params[4]].T
+        return numpy.asarray( [df * params[2], df * params[4]] ).T
 
     def basePartial( self, xdata, params, parlist=None ):
         """
-- 
2.43.0


From 8b738c38af8b5b97cbb27eda8f7fc0e72e192fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 007/130] fix: derivative of SplinesModel when the order is not
 3 or when parameters are fixed

---
 BayesicFitting/source/SplinesModel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 84eda44..24f3c24 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -238,8 +238,10 @@ class SplinesModel( LinearModel ):
             parameters to the model
 
         """
-        ff = numpy.append( numpy.arange( self.order + 1, dtype=float ),
-                           numpy.full( self.npbase - self.order - 1, 3, dtype=float ) )
+        if self.order == 0 :
+            return numpy.zeros_like( xdata, dtype=float )
+
+        ff = numpy.minimum( numpy.arange( len( params ), dtype=float ), self.order )
         pars = params * ff
         pars = pars[1:]
         return SplinesModel( knots=self.knots, order=self.order-1 ).result( xdata, pars )
-- 
2.43.0


From a0c407e280b9c3bb94072dbf2cc6c786c087cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 008/130] fix: derivative of SineSplineModel

---
 BayesicFitting/source/SineSplineModel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/SineSplineModel.py b/BayesicFitting/source/SineSplineModel.py
index 178c1be..b685745 100644
--- a/BayesicFitting/source/SineSplineModel.py
+++ b/BayesicFitting/source/SineSplineModel.py
@@ -181,9 +181,10 @@ class SineSplineModel( LinearModel ):
         cx = numpy.cos( tx )
         sx = numpy.sin( tx )
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return tpf * ( cadx * cx - amps[0] * sx + sadx * sx + amps[1] * cx )
+        nh = self.npbase // 2
+        cadx = self.cm.baseDerivative( xdata, params[:nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nh:] )
+        return cadx * cx + sadx * sx + tpf * ( amps[1] * cx - amps[0] * sx )
 
     def getAmplitudes( self, xdata, params ) :
         """
-- 
2.43.0


From 0ab4b341f5982542fc8b6293d5ee0acabe2bd0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 009/130] fix: derivative of SineSplineDriftModel

---
 BayesicFitting/source/SineSplineDriftModel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/SineSplineDriftModel.py b/BayesicFitting/source/SineSplineDriftModel.py
index cbf3c44..0c8fa21 100644
--- a/BayesicFitting/source/SineSplineDriftModel.py
+++ b/BayesicFitting/source/SineSplineDriftModel.py
@@ -197,16 +197,16 @@ class SineSplineDriftModel( NonLinearModel ):
 
         """
         nd = self.degree + 1
-        drift = 2 * math.pi * xdata * self.pm.result( xdata, params[:nd] )
+        nh = ( self.npbase - nd ) // 2
+        pm = self.pm.result( xdata, params[:nd] )
+        drift = 2 * math.pi * xdata * pm
         cx = numpy.cos( drift )
         sx = numpy.sin( drift )
-        pdx = self.pm.baseDerivative( xdata, params )
-        cdx = cx * pdx
-        sdx = sx * pdx
+        pdx = 2 * math.pi * ( pm + xdata * self.pm.baseDerivative( xdata, params[:nd] ) )
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return 2 * math.pi * ( cadx * cx - amps[0] * sdx + sadx * sx + amps[1] * cdx )
+        cadx = self.cm.baseDerivative( xdata, params[nd:nd+nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nd+nh:] )
+        return cadx * cx + sadx * sx + pdx * ( amps[1] * cx - amps[0] * sx )
 
     def getAmplitudes( self, xdata, params ) :
         """
-- 
2.43.0


From 7d9606a4a0aec1f6ad31ba4286dd588d666c17ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 010/130] fix: derivative of AstropyModel

---
 BayesicFitting/source/AstropyModel.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/BayesicFitting/source/AstropyModel.py b/BayesicFitting/source/AstropyModel.py
index 30afacf..749b9be 100644
--- a/BayesicFitting/source/AstropyModel.py
+++ b/BayesicFitting/source/AstropyModel.py
@@ -152,25 +152,7 @@ class AstropyModel( Model ):
         if parlist is None :
             return ap
 
-        partial = numpy.ndarray( ( Tools.length( xdata ), self.npbase ) )
-        for k,kp in enumerate( parlist ) :
-            partial[:,k] = ap[:,kp]
-
-        return partial
-
-    def baseDerivative( self, xdata, params ) :
-        """
-        Return the derivative df/dx at each xdata (=x).
-
-        Parameters
-        ----------
-        xdata : array_like
-            values at which to calculate the result
-        params : array_like
-            values for the parameters.
-
-        """
-        self.numDerivative( xdata, params )
+        return ap[:,parlist]
 
     def baseName( self ):
         """
-- 
2.43.0


From d53d4c2287ee5693e1afda544527bab09876bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 011/130] fix: numeric derivative when a model has no
 baseDerivative, and for models with several inputs and outputs

---
 BayesicFitting/source/FixedModel.py | 73 +++++++++++++++++------------
 1 file changed, 44 insertions(+), 29 deletions(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index e7c37fa..579bd59 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -412,43 +412,58 @@ class FixedModel( BaseModel ):
         ------
         ValueError when the number of xdata dimensions > 1.
 
+        """
+        return self.numDifference( FixedModel.result, xdata, param )
+
+    def baseDerivative( self, xdata, params ) :
+        """
+        Replacement for models that dont define a derivative.
+
+        Parameters
+        ----------
+        xdata : array_like
+            values at which to calculate the derivative
+        params : array_like
+            values for the parameters.
+
+        """
+        return self.numDifference( BaseModel.result, xdata, params )
+
+    def numDifference( self, result, xdata, param ) :
+        """
+        Returns the numeric derivative to xdata of the method result
+
+        Parameters
+        ----------
+        result : callable
+            method of the form result( self, xdata, param )
+        xdata : array_like
+            values at which to calculate the derivative
+        param : array_like
+            values for the parameters.
+
         """
         dx = self.deltaP[0]
 
         ## One dimensional input; one or more dimensional outputs
         if self.ndim == 1 :
-            xd = xdata + dx
-            r1 = FixedModel.result( self, xd, param )
-            xd = xdata - dx
-            r2 = FixedModel.result( self, xd, param )
+            r1 = result( self, xdata + dx, param )
+            r2 = result( self, xdata - dx, param )
 
             return ( r1 - r2 ) / ( 2 * dx )
 
-        ## More dimensional input; one output
-        if self.ndout == 1 :
-            df = numpy.zeros_like( xdata )
-            for i in range( self.ndim ) :
-                x = xdata.copy()
-                x[:,i] += dx
-                r1 = FixedModel.result( self, x, param )
-                x[:,i] -= 2 * dx
-                r2 = FixedModel.result( self, x, param )
-                df[:,i] = ( r1 - r2 ) / ( 2 * dx )
-            return df
-
-        ## more dimensional input and output
-        dfdx = []
-        for k in range( self.ndout ) :
-            df = numpy.zeros_like( xdata )
-            for i in range( self.ndim ) :
-                x = xdata.copy()
-                x[:,i] += dx
-                r1 = FixedModel.result( self, x, param )
-                x[:,i] -= 2 * dx
-                r2 = FixedModel.result( self, x, param )
-                df[:,i] = ( r1 - r2 ) / ( 2 * dx )
-            dfdx += [df]
-        return dfdx
+        ## More dimensional input; one or more outputs
+        dfdx = [numpy.zeros_like( xdata, dtype=float ) for k in range( self.ndout )]
+        for i in range( self.ndim ) :
+            step = numpy.zeros( self.ndim, dtype=float )
+            step[i] = dx
+            r1 = result( self, xdata + step, param )
+            r2 = result( self, xdata - step, param )
+            dr = ( r1 - r2 ) / ( 2 * dx )
+            for k in range( self.ndout ) :
+                dfdx[k][:,i] = dr if self.ndout == 1 else dr[:,k]
+
+        return dfdx[0] if self.ndout == 1 else dfdx
 
 
     #  *****TOSTRING***********************************************************
-- 
2.43.0


From caf609b722bd8836ea74ad82c5460530d68046c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 012/130] fix: derivative of Kernel2dModel at the centre of the
 kernel

---
 BayesicFitting/source/Kernel2dModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Kernel2dModel.py b/BayesicFitting/source/Kernel2dModel.py
index 3b05ada..976d8f2 100644
--- a/BayesicFitting/source/Kernel2dModel.py
+++ b/BayesicFitting/source/Kernel2dModel.py
@@ -266,8 +266,9 @@ class BaseShape2d( object ):
         x = ( xdata[:,0] - params[1] ) / params[3]
         y = ( xdata[:,1] - params[2] ) / params[kp]
         r = numpy.sqrt( x * x + y * y )
-        drdx = x / r
-        drdy = y / r
+        rr = numpy.where( r == 0, 1.0, r )
+        drdx = x / rr
+        drdy = y / rr
         df = [params[0] * self.kernel.partial( r ) * drdx / params[3],
               params[0] * self.kernel.partial( r ) * drdy / params[kp]]
         return df
-- 
2.43.0


From 7e0431c5c8210ff940dd64bd74c5869ec19bf0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 013/130] fix: derivative of products, quotients and
 differences of models with more than one input

---
 BayesicFitting/source/Model.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 745082a..3a07034 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -582,15 +582,16 @@ class Model( FixedModel ):
                  [ d + n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.SUB :
-            df = df - nextdf
+            df = ( df - nextdf if isnotlist else
+                 [ d - n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.MUL :
             nextres = super( Model, self ).result( xdata, par )
-            df = df * nextres + nextdf * result
+            df = self.combineDerivative( df, nextres, nextdf, result )
 
         elif self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            df = ( df * nextres - nextdf * result ) / ( nextres * nextres )
+            df = self.combineDerivative( df, 1 / nextres, nextdf, -result / ( nextres * nextres ) )
 
         elif self._operation == self.PIP :
 #            nextres = 'dummy'           ## not needed, but needs something
@@ -609,6 +610,22 @@ class Model( FixedModel ):
         return model._recursiveDerivative( xdata, param[np:], result, df,
                     useNum=useNum )
 
+    def combineDerivative( self, df, f, dg, g ) :
+        """
+        Return df * f + dg * g, for derivatives of all dimensions.
+
+        Parameters
+        ----------
+        df, dg : array_like or list of array_like
+            derivatives to x
+        f, g : array_like
+            factors (at the inputs x)
+
+        """
+        if isinstance( df, list ) :
+            return [ ( d.T * f[:,k] + n.T * g[:,k] ).T for k,( d, n ) in enumerate( zip( df, dg ) )]
+        return ( df.T * f.T + dg.T * g.T ).T
+
     #  *****PARTIAL*************************************************************
     def partial( self, xdata, param, useNum=False ):
         """
-- 
2.43.0


From 9c97c1f7d72930fdfe09d055b684d7518645f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 014/130] fix: short name of compound models with brackets

---
 BayesicFitting/source/Model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 3a07034..0777bdc 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1857,6 +1857,17 @@ class Brackets( Model ):
         return ( brktstr + opname[self._next._operation] +
                  indent + self._next._toString( indent=indent, npars=npars+np ) )
 
+    def shortName( self ) :
+        """
+        Return a short version the string representation: upto first non-letter.
+        """
+        opname = [" null\n", " + ", " - ", " * ", " / ", " | " ]
+        name = "{ " + self.model.shortName() + " }"
+        if self._next is None :
+            return name
+
+        return name + opname[self._next._operation] + self._next.shortName()
+
     #  ******Brackets BASENAME*******************************************************************
 #    def baseName( self ):
 #        """ Returns a string representation of the model.  """
-- 
2.43.0


From bb365460db1acb78ed13774e5bed0bd3714db6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 015/130] fix: partials when a model without parameters
 replaces a parameter

---
 BayesicFitting/source/GaussModel.py    | 3 ++-
 BayesicFitting/source/KernelModel.py   | 3 ++-
 BayesicFitting/source/LogisticModel.py | 3 ++-
 BayesicFitting/source/LorentzModel.py  | 3 ++-
 BayesicFitting/source/PowerLawModel.py | 3 ++-
 BayesicFitting/source/VoigtModel.py    | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/GaussModel.py b/BayesicFitting/source/GaussModel.py
index 2317d52..1e75606 100644
--- a/BayesicFitting/source/GaussModel.py
+++ b/BayesicFitting/source/GaussModel.py
@@ -140,7 +140,8 @@ class GaussModel( NonLinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        partial = numpy.ndarray( ( Tools.length( xdata ), self.npbase ) )
+        np = self.npbase if parlist is None else len( parlist )
+        partial = numpy.ndarray( ( Tools.length( xdata ), np ) )
         a = params[0]
         s = 1 / params[2]
         x = ( xdata - params[1] ) * s
diff --git a/BayesicFitting/source/KernelModel.py b/BayesicFitting/source/KernelModel.py
index 188905c..ce3f45f 100644
--- a/BayesicFitting/source/KernelModel.py
+++ b/BayesicFitting/source/KernelModel.py
@@ -156,7 +156,8 @@ class KernelModel( NonLinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        partial = numpy.ndarray( ( Tools.length( xdata ), self.npbase ) )
+        np = self.npbase if parlist is None else len( parlist )
+        partial = numpy.ndarray( ( Tools.length( xdata ), np ) )
         x = ( xdata - params[1] ) / params[2]
         dfdx = self.kernel.partial( x )
 
diff --git a/BayesicFitting/source/LogisticModel.py b/BayesicFitting/source/LogisticModel.py
index 1e6314e..3132c60 100644
--- a/BayesicFitting/source/LogisticModel.py
+++ b/BayesicFitting/source/LogisticModel.py
@@ -127,7 +127,8 @@ class LogisticModel( NonLinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        partial = numpy.ndarray( ( Tools.length( xdata ), self.npbase ) )
+        np = self.npbase if parlist is None else len( parlist )
+        partial = numpy.ndarray( ( Tools.length( xdata ), np ) )
         a = params[0]
         s = params[2]
         x = ( params[1] - xdata )
diff --git a/BayesicFitting/source/LorentzModel.py b/BayesicFitting/source/LorentzModel.py
index 9977ede..7133cfd 100644
--- a/BayesicFitting/source/LorentzModel.py
+++ b/BayesicFitting/source/LorentzModel.py
@@ -156,7 +156,8 @@ class LorentzModel( NonLinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        partial = numpy.ndarray( (Tools.length( xdata ), self.npbase ) )
+        np = self.npbase if parlist is None else len( parlist )
+        partial = numpy.ndarray( (Tools.length( xdata ), np ) )
 
         a = params[0]
         s = abs( params[2] )
diff --git a/BayesicFitting/source/PowerLawModel.py b/BayesicFitting/source/PowerLawModel.py
index bac3012..277b6ce 100644
--- a/BayesicFitting/source/PowerLawModel.py
+++ b/BayesicFitting/source/PowerLawModel.py
@@ -128,7 +128,8 @@ class PowerLawModel( NonLinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        partial = numpy.ndarray( ( Tools.length( xdata ), self.npbase ) )
+        np = self.npbase if parlist is None else len( parlist )
+        partial = numpy.ndarray( ( Tools.length( xdata ), np ) )
         p0 = params[0]
         xs = xdata - params[1]
         p2 = params[2]
diff --git a/BayesicFitting/source/VoigtModel.py b/BayesicFitting/source/VoigtModel.py
index d765396..c781004 100644
--- a/BayesicFitting/source/VoigtModel.py
+++ b/BayesicFitting/source/VoigtModel.py
@@ -158,7 +158,8 @@ class VoigtModel( NonLinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        partial = numpy.ndarray( ( Tools.length( xdata ), self.npbase ) )
+        np = self.npbase if parlist is None else len( parlist )
+        partial = numpy.ndarray( ( Tools.length( xdata ), np ) )
 
         sigma = params[2] * math.sqrt( 2.0 )
         gamma = params[3]
-- 
2.43.0


From 7a542613ebc658ed179f01fb6f8cb9864ac56fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 016/130] fix: check on zero parameters when the parameter is
 replaced by a model

---
 BayesicFitting/source/BaseModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index a3c5818..cc681f1 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -253,11 +253,12 @@ class BaseModel( object ):
 
         """
         for k in self.nonZero :
-            if param[k] == 0 :
+            if numpy.any( param[k] == 0 ) :
                 msg = ( ( self.shortName() + ": " + self.baseParameterName( k ) +
                             " ( =parameter[%d] ) equals zero."%k ) )
                 warnings.warn( msg )
-                param[k] = self.tiny
+                param[k] = ( self.tiny if numpy.ndim( param[k] ) == 0 else
+                             numpy.where( param[k] == 0, self.tiny, param[k] ) )
 
     def isDynamic( self ) :
         """
-- 
2.43.0


From 4d0b332e2da1324b7603e9965856abd2f480a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 017/130] fix: order of the partials of SplinesModel with a
 parameter replaced by a model

---
 BayesicFitting/source/SplinesModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 24f3c24..6a3f6cc 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -220,7 +220,7 @@ class SplinesModel( LinearModel ):
             i += 1
         partial[ki,i] = x[ki]
 
-        if parlist is None or len( parlist ) == np :
+        if parlist is None :
             return partial
 
         return partial[:,parlist]
-- 
2.43.0


From 22454b3c902e31e3705d195beb9750977fe8fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 018/130] fix: partial of PowerModel with its parameter fixed

---
 BayesicFitting/source/PowerModel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/PowerModel.py b/BayesicFitting/source/PowerModel.py
index 2387ac2..2d3a7d8 100644
--- a/BayesicFitting/source/PowerModel.py
+++ b/BayesicFitting/source/PowerModel.py
@@ -124,11 +124,12 @@ class PowerModel( LinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        if parlist is None or parlist[0] == 0 :
-            inp = numpy.asarray( [xdata] ).transpose()
-            return numpy.power( inp, self.exponent )
+        inp = numpy.asarray( [xdata] ).transpose()
+        partial = numpy.power( inp, self.exponent )
+        if parlist is None :
+            return partial
         else :
-            return numpy.asarray( [] )
+            return partial[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
-- 
2.43.0


From c7e52194331c9d1cdeae145c24ee7562d951ae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 019/130] fix: BasicSplinesModel with parameters replaced by
 models

---
 BayesicFitting/source/BasicSplinesModel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BasicSplinesModel.py b/BayesicFitting/source/BasicSplinesModel.py
index a2c3bcd..077a372 100644
--- a/BayesicFitting/source/BasicSplinesModel.py
+++ b/BayesicFitting/source/BasicSplinesModel.py
@@ -460,6 +460,9 @@ class BasicSplinesModel( SplinesModel ):
             parameters to the model (ignored in LinearModels)
 
         """
+        if len( self.mlist ) > 0 :          # some parameters vary with xdata
+            return super( SplinesModel, self ).baseResult( xdata, params )
+
         np = self.npmax
         na = self.order + 1
 
@@ -491,7 +494,7 @@ class BasicSplinesModel( SplinesModel ):
             list of indices active parameters (or None for all)
 
         """
-        np = self.npbase
+        np = self.npmax if parlist is None else len( parlist )
         ni = Tools.length( xdata )
         partial = numpy.zeros( ( ni, np), dtype=float )
 
-- 
2.43.0


From 510d1a6910190a60720f3c7fc89e9ae4fce8cd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 020/130] fix: numeric partials of models without basePartial
 when parameters are replaced by models

---
 BayesicFitting/source/FixedModel.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index 579bd59..2c54944 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -367,11 +367,23 @@ class FixedModel( BaseModel ):
                     "using numeric partials." )
 
         if parlist is None :
-            return FixedModel.numPartial( self, xdata, param, parlist=parlist )
+            parlist = range( self.npmax )
 
-        par = param[parlist]
-        pl = numpy.arange( len( par ), dtype=int )
-        return FixedModel.numPartial( self, xdata, par, parlist=pl )
+        partial = numpy.zeros( ( Tools.length( xdata ), len( parlist ) ), dtype=float )
+        dpg = Tools.makeNext( self.deltaP, 0 )
+
+        par = numpy.array( param ) * 1.0
+        for i, k in enumerate( parlist ) :
+            dp = next( dpg )
+            pk = par[k]
+            par[k] = pk + 0.5 * dp
+            r1 = BaseModel.result( self, xdata, par )
+            par[k] = pk - 0.5 * dp
+            r2 = BaseModel.result( self, xdata, par )
+            partial[:,i] = ( r1 - r2 ) / dp
+            par[k] = pk
+
+        return partial
 
     def derivative( self, xdata, param ) :
         """
-- 
2.43.0


From 791bf26cf83b286adf4f2e9ff3029d7c960effe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 021/130] fix: copy of BasicSplinesModel when the order is not
 3

---
 BayesicFitting/source/BasicSplinesModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BasicSplinesModel.py b/BayesicFitting/source/BasicSplinesModel.py
index 077a372..ab6caaa 100644
--- a/BayesicFitting/source/BasicSplinesModel.py
+++ b/BayesicFitting/source/BasicSplinesModel.py
@@ -180,7 +180,7 @@ class BasicSplinesModel( SplinesModel ):
 
 
     def copy( self ):
-        return BasicSplinesModel( knots=self.knots, border=self.border, copy=self )
+        return BasicSplinesModel( knots=self.knots, order=self.order, border=self.border, copy=self )
 
     def __setattr__( self, name, value ):
         """
-- 
2.43.0


From b9c60c19e52532942a4d73328768b4142de5267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 022/130] fix: models in which all parameters are replaced by
 models

---
 BayesicFitting/source/FixedModel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index 2c54944..9ac731b 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -272,7 +272,10 @@ class FixedModel( BaseModel ):
         ## par is now a heterogeneous list of floats and [floats]
         ## It can only be cast into an array of object
 
-        return numpy.asarray( par, dtype=object )
+        exppar = numpy.empty( len( par ), dtype=object )
+        for k,p in enumerate( par ) :
+            exppar[k] = p
+        return exppar
 
     #  *****PARTIAL*************************************************************
     def partial( self, xdata, param ):
-- 
2.43.0


From 5e22ff46dfc456d59dc7dc8327e893a2cedd35a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 023/130] fix: models and kernels evaluated at integer input

---
 BayesicFitting/source/BasicSplinesModel.py    |  6 ++---
 .../source/ChebyshevPolynomialModel.py        |  4 ++--
 BayesicFitting/source/ConstantModel.py        |  2 +-
 BayesicFitting/source/HarmonicModel.py        |  2 +-
 BayesicFitting/source/Model.py                |  4 ++--
 BayesicFitting/source/PadeModel.py            | 24 +++++++++----------
 BayesicFitting/source/PolySurfaceModel.py     |  2 +-
 BayesicFitting/source/PolynomialModel.py      |  2 +-
 BayesicFitting/source/kernels/Tophat.py       | 22 ++++++++---------
 BayesicFitting/source/kernels/Uniform.py      |  2 +-
 10 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/BayesicFitting/source/BasicSplinesModel.py b/BayesicFitting/source/BasicSplinesModel.py
index ab6caaa..5b8f68e 100644
--- a/BayesicFitting/source/BasicSplinesModel.py
+++ b/BayesicFitting/source/BasicSplinesModel.py
@@ -469,7 +469,7 @@ class BasicSplinesModel( SplinesModel ):
         x2k = self.makeKnotIndices( xdata )
 
         pa = numpy.inner( self.basis, params )
-        res = numpy.zeros_like( xdata )
+        res = numpy.zeros_like( xdata, dtype=float )
         for k, kn in enumerate( self.knots[:-1] ) :
             q = numpy.where( x2k == k )
             xc = xdata[q] - kn
@@ -547,7 +547,7 @@ class BasicSplinesModel( SplinesModel ):
         poly : PolynomialModel
             model to calculate the splines
         """
-        blob = numpy.zeros_like( xdata )
+        blob = numpy.zeros_like( xdata, dtype=float )
 
         kn = self.knots[:-1]
         for k, kn in enumerate( self.knots[:-1] ) :
@@ -570,7 +570,7 @@ class BasicSplinesModel( SplinesModel ):
             parameters to the model
 
         """
-        dfdx = numpy.zeros_like( xdata )
+        dfdx = numpy.zeros_like( xdata, dtype=float )
         if self.order == 0 :
             return dfdx
 
diff --git a/BayesicFitting/source/ChebyshevPolynomialModel.py b/BayesicFitting/source/ChebyshevPolynomialModel.py
index b11a50a..1fada0a 100644
--- a/BayesicFitting/source/ChebyshevPolynomialModel.py
+++ b/BayesicFitting/source/ChebyshevPolynomialModel.py
@@ -167,11 +167,11 @@ class ChebyshevPolynomialModel( LinearModel ):
 
         """
         if self.npmax <= 1 :
-            return numpy.zeros_like( xdata )
+            return numpy.zeros_like( xdata, dtype=float )
 
         np = self.npmax - 1
 
-        um = numpy.ones_like( xdata )
+        um = numpy.ones_like( xdata, dtype=float )
         der = um * params[1]
         if np >= 2:
             uu = 2 * xdata
diff --git a/BayesicFitting/source/ConstantModel.py b/BayesicFitting/source/ConstantModel.py
index ab6d7a5..31a0354 100644
--- a/BayesicFitting/source/ConstantModel.py
+++ b/BayesicFitting/source/ConstantModel.py
@@ -197,7 +197,7 @@ class ConstantModel( Model ):
 
         """
         if self.fixedModel is None :
-            return numpy.zeros_like( xdata )
+            return numpy.zeros_like( xdata, dtype=float )
 
         return self.fixedModel.derivative( xdata, self.fixedModel.parameters )
 
diff --git a/BayesicFitting/source/HarmonicModel.py b/BayesicFitting/source/HarmonicModel.py
index 535f2e4..f667a09 100644
--- a/BayesicFitting/source/HarmonicModel.py
+++ b/BayesicFitting/source/HarmonicModel.py
@@ -166,7 +166,7 @@ class HarmonicModel( LinearModel ):
             parameters of the model.
 
         """
-        df = numpy.zeros_like( xdata )
+        df = numpy.zeros_like( xdata, dtype=float )
         tp = 2 * math.pi / self.period
         x = tp * xdata
         j = 0
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 0777bdc..02fadbf 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1715,10 +1715,10 @@ class Model( FixedModel ):
 
         ## More dimensions in xdata
         if self.lastndout == 1 :
-            df = numpy.zeros_like( xdata )
+            df = numpy.zeros_like( xdata, dtype=float )
             assignDF = self.assignDF1
         else :
-            df = [ numpy.zeros_like( xdata ) for k in range( self.lastndout ) ]
+            df = [ numpy.zeros_like( xdata, dtype=float ) for k in range( self.lastndout ) ]
             assignDF = self.assignDF2
 
         for i in range( self.ndim ) :
diff --git a/BayesicFitting/source/PadeModel.py b/BayesicFitting/source/PadeModel.py
index e7b7cfc..ad8bfff 100644
--- a/BayesicFitting/source/PadeModel.py
+++ b/BayesicFitting/source/PadeModel.py
@@ -156,16 +156,16 @@ class PadeModel( NonLinearModel ):
             parameters for the model.
 
         """
-        nm = numpy.zeros_like( xdata )
-        xx = numpy.ones_like( xdata )
+        nm = numpy.zeros_like( xdata, dtype=float )
+        xx = numpy.ones_like( xdata, dtype=float )
         k = 0
         while k <= self.num :
             nm += params[k] * xx
             xx *= xdata
             k += 1
 
-        dn = numpy.zeros_like( xdata )
-        xx = numpy.ones_like( xdata )
+        dn = numpy.zeros_like( xdata, dtype=float )
+        xx = numpy.ones_like( xdata, dtype=float )
         while k < self.npmax :
             dn += params[k] * xx
             xx *= xdata
@@ -191,7 +191,7 @@ class PadeModel( NonLinearModel ):
         partial = numpy.zeros( ( nxdata, self.npmax ), dtype=float )
 
         xx = numpy.ones( nxdata )
-        nm = numpy.zeros_like( xdata )
+        nm = numpy.zeros_like( xdata, dtype=float )
         k = 0
         while k <= self.num:
             partial[:,k] = xx
@@ -200,7 +200,7 @@ class PadeModel( NonLinearModel ):
             k += 1
 
         xx = numpy.ones( nxdata )
-        dn = numpy.zeros_like( xdata )
+        dn = numpy.zeros_like( xdata, dtype=float )
         while k < self.npmax :
             partial[:,k] = -xx * nm
             dn += params[k] * xx
@@ -232,12 +232,12 @@ class PadeModel( NonLinearModel ):
             parameters for the model.
 
         """
-        nm = numpy.zeros_like( xdata )
-        dn = numpy.zeros_like( xdata )
-        dnm = numpy.zeros_like( xdata )
-        ddn = numpy.zeros_like( xdata )
+        nm = numpy.zeros_like( xdata, dtype=float )
+        dn = numpy.zeros_like( xdata, dtype=float )
+        dnm = numpy.zeros_like( xdata, dtype=float )
+        ddn = numpy.zeros_like( xdata, dtype=float )
 
-        xx = numpy.ones_like( xdata )
+        xx = numpy.ones_like( xdata, dtype=float )
         nm += params[0] * xx
         k = 1
         while k <= self.num:
@@ -246,7 +246,7 @@ class PadeModel( NonLinearModel ):
             nm += params[k] * xx
             k += 1
 
-        xx = numpy.ones_like( xdata )
+        xx = numpy.ones_like( xdata, dtype=float )
         dn += params[k] * xx
         k += 1
         while k < self.npmax :
diff --git a/BayesicFitting/source/PolySurfaceModel.py b/BayesicFitting/source/PolySurfaceModel.py
index 730a41a..c4ea41a 100644
--- a/BayesicFitting/source/PolySurfaceModel.py
+++ b/BayesicFitting/source/PolySurfaceModel.py
@@ -184,7 +184,7 @@ class PolySurfaceModel( LinearModel ):
 
         """
         if self.npmax <= 1 :
-            return numpy.zeros_like( xdata )
+            return numpy.zeros_like( xdata, dtype=float )
 
         np = self.npmax
 
diff --git a/BayesicFitting/source/PolynomialModel.py b/BayesicFitting/source/PolynomialModel.py
index 0776b81..096812d 100644
--- a/BayesicFitting/source/PolynomialModel.py
+++ b/BayesicFitting/source/PolynomialModel.py
@@ -146,7 +146,7 @@ class PolynomialModel( LinearModel ):
 
         """
         if self.npmax <= 1 :
-            return numpy.zeros_like( xdata )
+            return numpy.zeros_like( xdata, dtype=float )
 
         np = self.npmax
         p = params * numpy.arange( np )
diff --git a/BayesicFitting/source/kernels/Tophat.py b/BayesicFitting/source/kernels/Tophat.py
index 0dc2515..8004bb5 100644
--- a/BayesicFitting/source/kernels/Tophat.py
+++ b/BayesicFitting/source/kernels/Tophat.py
@@ -100,7 +100,7 @@ class Conv0( object ) :
         return numpy.where( ax < 0.5, 1.0, numpy.where( ax == 0.5, 0.5, 0.0 ) )
 
     def partial( self, x ):
-        return numpy.zeros_like( x )
+        return numpy.zeros_like( x, dtype=float )
 
 class Conv1( object ) :
     def result( self, x ) :
@@ -117,7 +117,7 @@ class Conv2( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 1.5 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -135,7 +135,7 @@ class Conv2( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 1.5 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -154,7 +154,7 @@ class Conv3( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 2.0 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -173,7 +173,7 @@ class Conv3( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 2.0 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -193,7 +193,7 @@ class Conv4( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 2.5 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -214,7 +214,7 @@ class Conv4( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 2.5 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -236,7 +236,7 @@ class Conv5( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 3.0 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -258,7 +258,7 @@ class Conv5( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 3.0 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -281,7 +281,7 @@ class Conv6( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 3.5 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -310,7 +310,7 @@ class Conv6( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 3.5 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
diff --git a/BayesicFitting/source/kernels/Uniform.py b/BayesicFitting/source/kernels/Uniform.py
index c018628..81576a3 100644
--- a/BayesicFitting/source/kernels/Uniform.py
+++ b/BayesicFitting/source/kernels/Uniform.py
@@ -56,7 +56,7 @@ class Uniform( Kernel ):
         return self.result( xsq )                   #  the same
 
     def partial( self, x ):
-        return numpy.zeros_like( x )
+        return numpy.zeros_like( x, dtype=float )
 
     def isBound( self ):
         return True
-- 
2.43.0


From df2986cf659663dcef94ac006800f42a0e29f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 024/130] fix: priors of a model are not shared with its copies

---
 BayesicFitting/source/BaseModel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index cc681f1..725aed8 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -123,7 +123,8 @@ class BaseModel( object ):
         else :
             setatt( self, "npbase", copy.npbase )
             setatt( self, "ndim", copy.ndim )
-            setatt( self, "priors", None if copy.priors is None else copy.priors.copy() )
+            setatt( self, "priors", None if copy.priors is None else
+                    [p.copy() for p in copy.priors] )
             setatt( self, "posIndex", copy.posIndex )
             setatt( self, "nonZero", copy.nonZero )
             setatt( self, "deltaP", copy.deltaP )
-- 
2.43.0


From 6a3357d9bad74c28b8b6425b9f314a04f03209a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 025/130] fix: zero parameter in a model with fixed parameters
 raised an IndexError

---
 BayesicFitting/source/BaseModel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index 725aed8..560eb86 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -255,7 +255,11 @@ class BaseModel( object ):
         """
         for k in self.nonZero :
             if numpy.any( param[k] == 0 ) :
-                msg = ( ( self.shortName() + ": " + self.baseParameterName( k ) +
+                try :
+                    name = self.baseParameterName( k )
+                except IndexError :         # less names when parameters are fixed
+                    name = "parameter"
+                msg = ( ( self.shortName() + ": " + name +
                             " ( =parameter[%d] ) equals zero."%k ) )
                 warnings.warn( msg )
                 param[k] = ( self.tiny if numpy.ndim( param[k] ) == 0 else
-- 
2.43.0


From 63b8c6212fa51cd4819f2afe63fc449aa77c9e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 026/130] fix: priors after a change of limits or attributes,
 and their copies

---
 BayesicFitting/source/ExponentialPrior.py |  4 +-
 BayesicFitting/source/Prior.py            | 69 +++++++++++++----------
 2 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/BayesicFitting/source/ExponentialPrior.py b/BayesicFitting/source/ExponentialPrior.py
index af0ed5e..11489d6 100644
--- a/BayesicFitting/source/ExponentialPrior.py
+++ b/BayesicFitting/source/ExponentialPrior.py
@@ -84,8 +84,10 @@ class ExponentialPrior( LaplacePrior ):
 
     def copy( self ):
         """ Copy the prior """
-        return ExponentialPrior( scale=self.scale, hilimit=self.limits[1], 
+        pr = ExponentialPrior( scale=self.scale, hilimit=self.limits[1],
             prior=self )
+        pr.setLimits( self.limits )         ## the low limit might not be 0
+        return pr
 
     def shortName( self ) :
         return "ExponentialPrior"
diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index c910226..45f5fbd 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -173,44 +173,55 @@ class Prior( object ):
         ValueError when low limit is larger than high limit or out of Domain
 
         """
-#        print( "Prior 1 ", limits )
         if limits is None :
-            self.lowLimit  = self._lowDomain
-            self.highLimit = self._highDomain
-            reset = False
-        else :
-            self.lowLimit  = limits[0] if limits[0] is not None else self._lowDomain
-            self.highLimit = limits[1] if limits[1] is not None else self._highDomain
-            reset = ( limits[0] is not None ) or ( limits[1] is not None )
+            limits = [None,None]
+
+        low  = limits[0] if limits[0] is not None else self._lowDomain
+        high = limits[1] if limits[1] is not None else self._highDomain
 
-#        print( "Prior 2 ", self.lowLimit, self.highLimit )
-        if not ( self._lowDomain <= self.lowLimit < self.highLimit <= self._highDomain ) :
-            print( self._lowDomain, self.lowLimit, self.highLimit, self._highDomain )
+        if not ( self._lowDomain <= low < high <= self._highDomain ) :
+            print( self._lowDomain, low, high, self._highDomain )
             raise ValueError( "Limits out of order or out of domain" )
 
+        self.lowLimit  = low
+        self.highLimit = high
+        self.setRange()
+
+    def setRange( self ) :
+        """
+        Set range in unit space, pertaining to the limits, using the mapping without limits.
+        Use the limited (or circular) version of the mapping, if there are limits.
+
+        """
+        for name in ["unit2Domain", "domain2Unit", "baseUnit2Domain", "baseDomain2Unit"] :
+            self.__dict__.pop( name, None )
+
+        self._umin = 0.0
         try :
-            self._umin = 0.0            ## only for re-setting the limits
-            self._urng = 1.0
             umax = self.domain2Unit( self.highLimit )
             self._umin = self.domain2Unit( self.lowLimit )
             self._urng = umax - self._umin
         except Exception :
             self._urng = math.inf
 
-#        print( "Prior 3 ", self._umin, self._urng )
+        if hasattr( self, "limint" ) :
+            self.limint = self._urng
 
-        if math.isinf( self._urng ) :
-#            warnings.warn( "%s needs limits" % self.__str__() )
+        if math.isinf( self._urng ) or math.isnan( self._urng ) :
             return
 
-        if hasattr( self, "baseUnit2Domain" ) : return			# aleady reset
+        if self._umin == 0 and self._urng == 1 and not self.isCircular() :
+            return                      ## no limits
 
         # reset the functions
-        if reset :
-            setatt( self, "baseUnit2Domain", self.unit2Domain )
-            setatt( self, "unit2Domain", self.limitedUnit2Domain )
-            setatt( self, "baseDomain2Unit", self.domain2Unit )
-            setatt( self, "domain2Unit", self.limitedDomain2Unit )
+        setatt( self, "baseUnit2Domain", self.unit2Domain )
+        setatt( self, "unit2Domain", self.limitedUnit2Domain )
+        setatt( self, "baseDomain2Unit", self.domain2Unit )
+        setatt( self, "domain2Unit", self.limitedDomain2Unit )
+
+        if self.isCircular() :
+            setatt( self, "unit2Domain", self.circularUnit2Domain )
+            setatt( self, "domain2Unit", self.circularDomain2Unit )
 
     def setPriorAttributes( self, limits, circular ) :
         """
@@ -227,10 +238,10 @@ class Prior( object ):
         """
         if isinstance( circular, bool ) :
             self.setLimits( limits )
-            if circular and limits is not None :
-                period = limits[1] - limits[0]
-            else :
+            if not circular or limits is None :
                 return
+        elif limits is not None :
+            self.setLimits( limits )
         else :
             period = circular
 
@@ -242,8 +253,7 @@ class Prior( object ):
         self.circular = circular
 
         # reset the functions to circular variant
-        setatt( self, "unit2Domain", self.circularUnit2Domain )
-        setatt( self, "domain2Unit", self.circularDomain2Unit )
+        self.setRange()
 
 
     def isCircular( self ) :
@@ -316,8 +326,8 @@ class Prior( object ):
 
     def unsetLimits( self ):
         """ Remove all limits.  """
-        self.lowLimit = self._lowDomain
-        self.highLimit = self._highDomain
+        self.circular = False
+        self.setLimits()
 
     def setAttributes( self, limits=None, scale=None ) :
         """
@@ -334,6 +344,7 @@ class Prior( object ):
             self.setLimits( limits=limits )
         if scale is not None :
             self.scale = scale
+            self.setRange()
 
     def isOutOfLimits( self, par ):
         """
-- 
2.43.0


From 5b8387c4a1057389ed4cc36d5124db1c71ad8646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 027/130] fix: limits of a prior are lost when it is given to a
 hyperparameter without limits

---
 BayesicFitting/source/HyperParameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/HyperParameter.py b/BayesicFitting/source/HyperParameter.py
index 728d61b..f695c49 100644
--- a/BayesicFitting/source/HyperParameter.py
+++ b/BayesicFitting/source/HyperParameter.py
@@ -84,7 +84,8 @@ class HyperParameter( object ):
         self.stdev = None
         self.prior = prior
         if prior is not None :
-            self.prior.setLimits( limits )
+            if limits is not None :
+                self.prior.setLimits( limits )
             self.isFixed = False
         elif limits is not None :
             self.prior = JeffreysPrior( limits=limits ) 
-- 
2.43.0


From fb59cf20dca49165e5cc1adde5be619652c2274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 028/130] fix: copy of NoiseScale loses its prior

---
 BayesicFitting/source/NoiseScale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NoiseScale.py b/BayesicFitting/source/NoiseScale.py
index 1a4c4b4..0aa0494 100644
--- a/BayesicFitting/source/NoiseScale.py
+++ b/BayesicFitting/source/NoiseScale.py
@@ -92,7 +92,7 @@ class NoiseScale( HyperParameter ):
         if limits is not None and prior is None :
             prior = JeffreysPrior()
         super( NoiseScale, self ).__init__( hypar=scale, isFixed=isFixed,
-                        prior=prior, limits=limits )
+                        prior=prior, limits=limits, copy=copy )
         self.minimum = False
 
         if copy is not None :
-- 
2.43.0


From 2c366f0d60fd80965ec237213f58a3bb27f59ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 029/130] fix: copy of an error distribution resets and shares
 its hyperparameters

---
 BayesicFitting/source/ErrorDistribution.py            | 9 ++++++---
 BayesicFitting/source/ExponentialErrorDistribution.py | 2 --
 BayesicFitting/source/MixedErrorDistribution.py       | 5 +++++
 BayesicFitting/source/ModelDistribution.py            | 2 +-
 BayesicFitting/source/ScaledErrorDistribution.py      | 7 ++-----
 5 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 0840573..3036747 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -98,10 +98,13 @@ class ErrorDistribution( object ):
             self.deltaP = 0.000001
             self.fixed = self.keepFixed( fixed )
             self.constrain = constrain
-        else :                          ### TBC do we need copies here ????
-            self.hyperpar = copy.hyperpar
+        else :
+            self.hyperpar = [h.copy() for h in copy.hyperpar]
             self.deltaP = copy.deltaP
-            self.fixed = self.keepFixed( copy.fixed )
+            self.fixed = copy.fixed
+            for h, c in zip( self.hyperpar, copy.hyperpar ) :
+                if hasattr( c, "fixed" ) :
+                    h.fixed = c.fixed
             self.constrain = copy.constrain
 
     def copy( self ):
diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 557c552..7576fd2 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -115,8 +115,6 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         if copy is None :
             self.hyperpar = [NoiseScale( scale=scale, limits=slim ),
                              HyperParameter( hypar=power, limits=plim )]
-        else :
-            self.hyperpar = copy.hyperpar
 
     def copy( self ):
         """ Return copy of this.  """
diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 89f013a..5249e0c 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -98,6 +98,11 @@ class MixedErrorDistribution( ErrorDistribution ):
             fprior = UniformPrior( )
             fraction = HyperParameter( hypar=fraction, prior=fprior, limits=limits )
             self.hyperpar += [fraction]
+        else :
+            self.errdis1 = errdis1.copy()
+            self.errdis2 = errdis2.copy()
+            self.hyperpar = ( self.errdis1.hyperpar + self.errdis2.hyperpar +
+                              [self.hyperpar[-1]] )
 
     def copy( self ):
         """ Return copy of this.  """
diff --git a/BayesicFitting/source/ModelDistribution.py b/BayesicFitting/source/ModelDistribution.py
index 6ef8682..9a353a8 100644
--- a/BayesicFitting/source/ModelDistribution.py
+++ b/BayesicFitting/source/ModelDistribution.py
@@ -99,7 +99,7 @@ class ModelDistribution( ScaledErrorDistribution ):
 
     def copy( self ):
         """ Return copy of this.  """
-        return ModelDistribution( copy=self, arbiter=self.arbiter )
+        return ModelDistribution( copy=self, arbiter=self.arbiter, **self.kwarbs )
 
     def acceptWeight( self ):
         """
diff --git a/BayesicFitting/source/ScaledErrorDistribution.py b/BayesicFitting/source/ScaledErrorDistribution.py
index cce4db6..61c1812 100644
--- a/BayesicFitting/source/ScaledErrorDistribution.py
+++ b/BayesicFitting/source/ScaledErrorDistribution.py
@@ -76,11 +76,8 @@ class ScaledErrorDistribution( ErrorDistribution ):
 
         if copy is None :
             self.hyperpar = NoiseScale( scale=scale, limits=limits )
-        else :
-            self.hyperpar = copy.hyperpar                   ## TBC copy ???
-
-        if limits is None :
-            self.fixed = self.keepFixed( {0: scale} )
+            if limits is None :
+                self.fixed = self.keepFixed( {0: scale} )
 
     def copy( self ):
         """ Return copy of this.  """
-- 
2.43.0


From 4076d13f3237df6e35e7ad161a5dbea7b1052f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 030/130] fix: ErrorDistribution.setPriors raised an
 AttributeError

---
 BayesicFitting/source/ErrorDistribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 3036747..3d9eec7 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -293,7 +293,8 @@ class ErrorDistribution( object ):
             prior distribution for the hyperparameters
         """
         for spp,pr in zip( self.hyperpar, priors ) :
-            spp.setPrior( pr )
+            spp.prior = pr
+            spp.isFixed = False
 
     def setLimits( self, limits ) :
         """
-- 
2.43.0


From dbd52f10c8d7c3c8cc9e2a7445a28ec03196ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 031/130] fix: copies of RepeatingModel, repetition of compound
 models and of zero components

---
 BayesicFitting/source/RepeatingModel.py | 34 ++++++++++++++-----------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index d26922f..6851e42 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -150,7 +150,9 @@ class RepeatingModel( Model, Dynamic ):
         if ncomp < minComp or ( maxComp is not None and ncomp > maxComp ) :
             raise ValueError( "ncomp outside range of [min..max] range" )
 
-        np = ncomp * model.npchain - ( ncomp - 1 ) * Tools.length( same )
+        np = ncomp * model.npchain
+        if ncomp > 1 :
+            np -= ( ncomp - 1 ) * Tools.length( same )
         self.isDyna = dynamic and ( maxComp is None or minComp < maxComp )
 
         super( RepeatingModel, self ).__init__( np, copy=copy, **kwargs )
@@ -161,13 +163,15 @@ class RepeatingModel( Model, Dynamic ):
         if copy is None :
             self.minComp = minComp
             self.maxComp = maxComp
-            self.priors = model.priors          ## point to the same
         else :
             self.minComp = copy.minComp
             self.maxComp = copy.maxComp
-            growPrior = copy.growPrior.copy()
+            if copy.isDynamic() :
+                growPrior = copy.growPrior.copy()
             same = copy.same
 
+        self.priors = model.priors              ## point to the same
+
         self.setSame( same )
         self.deltaNpar = len( self.index )
 
@@ -183,7 +187,7 @@ class RepeatingModel( Model, Dynamic ):
 
     def copy( self ):
         """ Copy method.  """
-        return RepeatingModel( self.ncomp, self.model, isDynamic=self.isDyna, copy=self )
+        return RepeatingModel( self.ncomp, self.model.copy(), dynamic=self.isDyna, copy=self )
 
     def changeNComp( self, dn ) :
         setatt( self, "ncomp", self.ncomp + dn )
@@ -199,11 +203,11 @@ class RepeatingModel( Model, Dynamic ):
         """
         self.same = same
         if same is None :
-            self.index = numpy.arange( self.model.npbase, dtype=int )
+            self.index = numpy.arange( self.model.npchain, dtype=int )
             return
 
         index = []
-        for k in range( self.model.npbase ) :
+        for k in range( self.model.npchain ) :
             if k not in self.same :
                 index += [k]
         self.index = numpy.asarray( index, dtype=int )
@@ -232,7 +236,7 @@ class RepeatingModel( Model, Dynamic ):
 
         location = self.npbase
 
-        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npbase
+        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npchain
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -272,7 +276,7 @@ class RepeatingModel( Model, Dynamic ):
             return False
 
         location = self.npbase
-        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npbase )
+        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npchain )
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -304,7 +308,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp <= 1 :
             return param
 
-        off = self.model.npbase + offset
+        off = self.model.npchain + offset
         src = numpy.arange( self.ncomp ) * self.deltaNpar + off
         per = rng.permutation( self.ncomp )
         for i in self.index :
@@ -351,9 +355,9 @@ class RepeatingModel( Model, Dynamic ):
 #        result = numpy.zeros( Tools.length( xdata ), dtype=float )
         result = 0.0
         if self.ncomp == 0 :
-            return result
+            return numpy.zeros( Tools.length( xdata ), dtype=float )
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
 
@@ -389,9 +393,9 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return partial
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
-        full = numpy.arange( self.model.npbase, dtype=int )
+        full = numpy.arange( self.model.npchain, dtype=int )
         k = 1
         while True :
             partial[:,full] += self.model.partial( xdata, pars )
@@ -425,7 +429,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return dfdx
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
         while True :
@@ -500,7 +504,7 @@ class RepeatingModel( Model, Dynamic ):
         """
         i,k = self.par2model( k )
         return ( self.model.getParameterName( i ) + 
-                    ( "_%d" % k if i not in self.same else "" ) )
+                    ( "_%d" % k if i in self.index else "" ) )
 
     def baseParameterUnit( self, k ):
         """
-- 
2.43.0


From b17091ae0b2b48f0fa05619ea71dcaf7fdbdd905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 032/130] fix: isolated models share parameters with the
 compound; copy of a compound that starts with a BracketModel

---
 BayesicFitting/source/Model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 02fadbf..ace4d47 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -304,10 +304,10 @@ class Model( FixedModel ):
 
                 n2 = np + last.npbase
                 # hard overwrite of the base parameters (over the chain parameters)
-                setatt( mdl, "parameters", self._head.parameters[np:n2] )
+                setatt( mdl, "parameters", self._head.parameters[np:n2].copy() )
 
                 if self.stdevs is not None :
-                    setatt( mdl, "stdevs", self._head.stdevs[np:n2] )
+                    setatt( mdl, "stdevs", self._head.stdevs[np:n2].copy() )
                 else :
                     setatt( mdl, "stdevs", None )
                 setatt( mdl, "_npchain", mdl.npbase )      # only extract one model
@@ -1749,7 +1749,8 @@ class Brackets( Model ):
         super( Brackets, self ).__init__( model.npchain, ndim=model.ndim,
                                 copy=copy, **kwargs )
         setatt( self, "model", model, type=Model )
-        setatt( self, "parameters", model.parameters )
+        if copy is None :
+            setatt( self, "parameters", model.parameters.copy() )
         setatt( self, "ndout", model.lastndout )
 
         next = model
-- 
2.43.0


From 70a0e6d9d98d29f7acfe9983dada705821e4c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 033/130] fix: copy of CombiModel loses parameters, priors,
 chain and compound or multiplied parts

---
 BayesicFitting/source/CombiModel.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 3ca1902..abc10a3 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -155,6 +155,20 @@ class CombiModel( BracketModel ):
                     values  multiplied to each of the key-th parameters
 
         """
+        if copy is not None :
+            # model is the already repeated one; the rest is in copy
+            super( CombiModel, self ).__init__( model, copy=copy, **kwargs )
+            setatt( self, "nmp", copy.nmp )
+            setatt( self, "nrepeat", copy.nrepeat )
+            setatt( self, "npcmax", copy.npcmax )
+            setatt( self, "addindex", copy.addindex.copy() )
+            setatt( self, "addvalue", copy.addvalue.copy() )
+            setatt( self, "mulindex", copy.mulindex.copy() )
+            setatt( self, "mulvalue", copy.mulvalue.copy() )
+            setatt( self, "select", copy.select.copy() )
+            setatt( self, "expandindex", copy.expandindex.copy() )
+            return
+
         mdl = model.copy()
         for k in range( 1, nrepeat ) :
             if oper == 'add' :
@@ -172,14 +186,6 @@ class CombiModel( BracketModel ):
 
         self.combine( addCombi=addCombi, mulCombi=mulCombi )
 
-        if copy is not None :
-            setatt( self, "addindex", copy.addindex.copy() )
-            setatt( self, "addvalue", copy.addvalue.copy() )
-            setatt( self, "mulindex", copy.mulindex.copy() )
-            setatt( self, "mulvalue", copy.mulvalue.copy() )
-            setatt( self, "select", copy.select.copy() )
-            setatt( self, "expandindex", copy.expandindex.copy() )
-
         setatt( self, "_npchain", len( self.select ) )
         setatt( self, "npbase", self._npchain )
         setatt( self, "npmax", self.npbase )
@@ -187,12 +193,7 @@ class CombiModel( BracketModel ):
 
     def copy( self ):
         """ Copy method.  """
-        oper = "add"
-        if self.model._next and self.model._next._operation == 3 :
-            oper = "mul"
-
-        return CombiModel( self.model.isolateModel( 0 ), nrepeat=self.nrepeat,
-                    oper=oper, copy=self )
+        return CombiModel( self.model.copy(), nrepeat=self.nrepeat, copy=self )
 
     def combine( self, addCombi=None, mulCombi=None ) :
         """
-- 
2.43.0


From c8376cd07c29866ed72803ef17cbbf01bf52b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 034/130] fix: priors and limits of compound, bracketed,
 repeated and combined models belong to their parameters

---
 BayesicFitting/source/CombiModel.py     | 77 ++++++++++++++++++++++---
 BayesicFitting/source/FootballModel.py  |  6 +-
 BayesicFitting/source/Model.py          | 45 +++++----------
 BayesicFitting/source/RepeatingModel.py | 13 +++--
 4 files changed, 96 insertions(+), 45 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index abc10a3..c991b05 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -5,6 +5,7 @@ import re
 from . import Tools
 from .Tools import setAttribute as setatt
 
+from .Model import Model
 from .BracketModel import BracketModel
 from .Formatter import formatter as fmt
 
@@ -378,24 +379,82 @@ class CombiModel( BracketModel ):
         """
         return self.model.getParameterUnit( self.select[k] % self.nmp )
 
+    def setPrior( self, kpar, prior=None, **kwargs ) :
+        """
+        Set the prior for parameter kpar.
+
+        The priors of the combined models are superseded.
+
+        Parameters
+        ----------
+        kpar : int
+            index of the parameter, possibly further in the chain.
+        prior : Prior
+            prior for the parameter
+        kwargs : keyword arguments
+            attributes to be passed to the prior
+
+        """
+        if kpar < self.npbase and self.priors is None :
+            # start with the priors the models already have, up to the first one without
+            priors = []
+            try :
+                for k in range( self.npbase ) :
+                    priors += [ self.basePrior( k ) ]
+            except IndexError :
+                pass
+            if len( priors ) > 0 :
+                self.priors = priors
+
+        Model.setPrior( self, kpar, prior=prior, **kwargs )
+
     def getPrior( self, kpar ) :
+        """
+        Return the prior for parameter kpar, possibly further in the chain.
+
+        Parameters
+        ----------
+        kpar : int
+            index of the parameter to be selected.
+        """
+        return Model.getPrior( self, kpar )
+
+    def basePrior( self, kpar ) :
         """
         Return the prior for parameter kpar.
 
-        First try at the kpar location, possibly further in the chain;
+        First try at the kpar location,
         Upon failure try at the equivalent position in the head model
-    
+
         Parameters
         ----------
         kpar : int
             index of the parameter to be selected.
         """
-#        print( kpar, self.parameters[kpar] )
-        try :
-            return self.model.getPrior( kpar )
-        except IndexError :
-            k = self.select[kpar] % self.nmp
-#            print( k, self.expandindex[kpar], self.nmp, self.select[kpar] )
-            return self.model.getPrior( k )
+        full = self.select[kpar]
+        equi = full % self.nmp
+        if self.priors is None :
+            try :
+                return self.model.getPrior( full )
+            except IndexError :
+                return self.model.getPrior( equi )
+
+        np = len( self.priors )
+        if kpar >= np :
+            kpar = min( self.expandindex[equi], np - 1 )
+        return self.priors[kpar]
+
+    def hasPriors( self, isBound=True ) :
+        """
+        Return True when the model has priors for all its parameters.
+
+        Parameters
+        ----------
+        isBound : bool
+            Also check if the prior is bound.
+        """
+        if self.priors is None :
+            return super( CombiModel, self ).hasPriors( isBound=isBound )
 
+        return Model.hasPriors( self, isBound=isBound )
 
diff --git a/BayesicFitting/source/FootballModel.py b/BayesicFitting/source/FootballModel.py
index ad80153..42c0ea4 100644
--- a/BayesicFitting/source/FootballModel.py
+++ b/BayesicFitting/source/FootballModel.py
@@ -129,7 +129,7 @@ class FootballModel( NonLinearModel ):
         """ Copy method.  """
         return FootballModel( self.nteams, complexity=self.complexity, copy=self )
 
-    def getPrior( self, k ) :
+    def basePrior( self, k ) :
         """
         Return the prior of the parameter, indicated by k modulo the complexity
 
@@ -138,8 +138,8 @@ class FootballModel( NonLinearModel ):
         k : int
             parameter number.
         """
-        return self.basePrior( k % self.complexity )
-        
+        return super( FootballModel, self ).basePrior( k % self.complexity )
+
 
     def __setattr__( self, name, value ):
         """
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index ace4d47..92c12b4 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1032,11 +1032,9 @@ class Model( FixedModel ):
         isBound : bool
             Also check if the prior is bound.
         """
-        hasp = True
-        mdl = self
-        while mdl is not None and hasp :
-            hasp = hasp and super( Model, self ).hasPriors( isBound=isBound )
-            mdl = mdl._next
+        hasp = self.npbase == 0 or super( Model, self ).hasPriors( isBound=isBound )
+        if hasp and self._next is not None :
+            hasp = self._next.hasPriors( isBound=isBound )
         return hasp
 
     def getPrior( self, kpar ):
@@ -1166,7 +1164,7 @@ class Model( FixedModel ):
             upper limits on the parameters
 
         """
-        ml = 0
+        ml = nl = nh = 0
         if lowLimits is not None :
             lowLimits = Tools.toArray( lowLimits )
             nl = len( lowLimits )
@@ -1225,17 +1223,13 @@ class Model( FixedModel ):
         fitindex    list of indices to be fitted.
 
         """
-        haslim = True
-        mdl = self
-        while mdl is not None :
-            haslim = haslim and super( Model, mdl ).hasLimits( fitindex=fitindex )
-            if not haslim :
-                return haslim
-            if fitindex is not None :
-                q = numpy.where( fitindex >= mdl.npbase )
-                fitindex = fitindex[q] - mdl.npbase
-            mdl = mdl._next
-        return haslim
+        if fitindex is None :
+            fitindex = range( self.npchain )
+        try :
+            return all( self.getPrior( k ).hasLimits() for k in fitindex
+                        if 0 <= k < self.npchain )
+        except IndexError :         # some parameters do not have a prior
+            return False
 
 
     #  ****** UNIT <--> DOMAIN ********************************************
@@ -1306,17 +1300,10 @@ class Model( FixedModel ):
         return part
 
     def nextPrior( self ) :
-        mdl = self
         k = 0
         while True :
-            try :
-                yield mdl.priors[k]
-            except :
-                yield mdl.priors[-1]
+            yield self.getPrior( k )
             k += 1
-            if k >= mdl.npbase :
-                mdl = mdl._next
-                k = 0
 
 
     #  *****SOME DUMMY METHODS TO ALLOW LINEAR MODELS IN NONLIN FITTERS********
@@ -1843,9 +1830,6 @@ class Brackets( Model ):
         return self.model.getPrior( kpar )
     """
 
-    def nextPrior( self ) :
-        yield self.model.nextPrior()
-
     def _toString( self, indent="", npars=0 ) :
         opname = [" null\n", " +\n", " -\n", " *\n", " /\n", " |\n" ]
         np = self.npbase
@@ -1895,7 +1879,10 @@ class Brackets( Model ):
         isBound : bool
             Also check if the prior is bound.
         """
-        return self.model.hasPriors( isBound=isBound )
+        hasp = self.model.hasPriors( isBound=isBound )
+        if hasp and self._next is not None :
+            hasp = self._next.hasPriors( isBound=isBound )
+        return hasp
 
 
     #  ******Brackets Parameter NAME*******************************************************************
diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 6851e42..7794c51 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -467,14 +467,19 @@ class RepeatingModel( Model, Dynamic ):
             When more Priors are set than fit inside the repeated model
 
         """
-        if kpar < self.model.npars :
+        if self._next is not None and kpar >= self.npbase :
+            self._next.setPrior( kpar - self.npbase, prior=prior, **kwargs )
+        elif kpar < self.model.npars :
             self.model.setPrior( kpar, prior=prior, **kwargs )
         else :
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
-                               self.model.shortname() )
+                               self.model.shortName() )
 
-    def hasPriors( self ) :
-        return self.model.hasPriors()
+    def hasPriors( self, isBound=True ) :
+        hasp = self.model.hasPriors( isBound=isBound )
+        if hasp and self._next is not None :
+            hasp = self._next.hasPriors( isBound=isBound )
+        return hasp
 
     def basePrior( self, kpar ):
         """
-- 
2.43.0


From e7b4d3b68f7f35506c8876b669b6dc3904e71117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 035/130] fix: MultipleOutputProblem with a scalar accuracy

---
 BayesicFitting/source/MultipleOutputProblem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/MultipleOutputProblem.py b/BayesicFitting/source/MultipleOutputProblem.py
index eda8994..9977c9e 100644
--- a/BayesicFitting/source/MultipleOutputProblem.py
+++ b/BayesicFitting/source/MultipleOutputProblem.py
@@ -92,7 +92,10 @@ class MultipleOutputProblem( Problem ):
         Expand and flatten the arrays.
 
         """
-        if weights is not None :
+        if numpy.ndim( weights ) == 0 :         # None or one value for all
+            return weights
+        else :
+            weights = numpy.asarray( weights )
             if len( weights.shape ) == 1 :
                 wgts = numpy.zeros( ( len( weights ), ndout ), dtype=float )
                 for k in range( ndout ) :
-- 
2.43.0


From 843e08a84f4165471cac87013c657a29a46fb71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 036/130] fix: LogFactorial of an array with one element raised
 TypeError (Poisson with one data point)

---
 BayesicFitting/source/LogFactorial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/LogFactorial.py b/BayesicFitting/source/LogFactorial.py
index 63f1176..2d33fdf 100644
--- a/BayesicFitting/source/LogFactorial.py
+++ b/BayesicFitting/source/LogFactorial.py
@@ -97,7 +97,8 @@ def logFactorial( k ):
              359.1342053695754544]
 
 
-    if Tools.length( k ) == 1 :
+    if numpy.ndim( k ) == 0 :
+        k = int( k )
         return ( logfact[k] if k < 100 else
             0.9189385332046727 + ( k + 0.5 ) * math.log( k ) - k + 1.0 / ( 12.0 * k ) )
 
-- 
2.43.0


From af2611b55133b28ca6cb9c5d541f435ed1246d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 037/130] fix: ErrorDistribution.getResiduals without
 hyperparameters used no parameters

---
 BayesicFitting/source/ErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 3d9eec7..c2f465e 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -192,7 +192,7 @@ class ErrorDistribution( object ):
             param = problem.model.parameters
         else :
             nh = self.nphypar
-            param = allpars[:-nh]
+            param = allpars[:-nh] if nh > 0 else allpars
 
         return problem.residuals( param )
 
-- 
2.43.0


From 650501947b5711bd5b442a09959917952cdd5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 038/130] fix: LaplaceErrorDistribution alternate gradient of
 the scale; no scale dependence with accuracy

---
 BayesicFitting/source/LaplaceErrorDistribution.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/LaplaceErrorDistribution.py b/BayesicFitting/source/LaplaceErrorDistribution.py
index 91bf692..7f0f5a7 100644
--- a/BayesicFitting/source/LaplaceErrorDistribution.py
+++ b/BayesicFitting/source/LaplaceErrorDistribution.py
@@ -165,7 +165,7 @@ class LaplaceErrorDistribution( ScaledErrorDistribution ):
 
         scale = allpars[-1] if not problem.hasAccuracy else problem.accuracy
         sumres = self.getSumRes( problem, allpars, scale=scale )
-        if isinstance( scale, float ) :
+        if numpy.ndim( scale ) == 0 :
             norm = problem.sumweight * ( self.LOG2 + math.log( scale ) ) 
         elif problem.hasWeights() :
             norm = numpy.sum( problem.weights * ( self.LOG2 + numpy.log( scale ) ) )
@@ -204,7 +204,7 @@ class LaplaceErrorDistribution( ScaledErrorDistribution ):
         """
         Return the partial derivative of log( likelihood ) to the parameters.
 
-        dL/ds is not implemented for problems with accuracy
+        dL/ds = 0 for problems with accuracy; it replaces the scale
         
         Parameters
         ----------
@@ -231,7 +231,10 @@ class LaplaceErrorDistribution( ScaledErrorDistribution ):
                 dL[i] = numpy.sum( wgt * dM[:,k] )
                 i += 1
             else :
-                dL[-1] = self.getSumRes( problem, allpars=allpars, scale=scale ) - problem.sumweight
+                if not problem.hasAccuracy :
+                    dL[i] = ( self.getSumRes( problem, allpars=allpars, scale=scale ) -
+                              problem.sumweight ) / scale
+                i += 1
         return dL
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
@@ -239,7 +242,7 @@ class LaplaceErrorDistribution( ScaledErrorDistribution ):
         Return the partial derivative of elements of the log( likelihood )
         to the parameters.
 
-        dL/ds is not implemented for problems with accuracy
+        dL/ds = 0 for problems with accuracy; it replaces the scale
         
         Parameters
         ----------
@@ -270,7 +273,8 @@ class LaplaceErrorDistribution( ScaledErrorDistribution ):
             if k >= 0 :
                 yield ( swgt * dM[:,k] ) / scale
             else :
-                yield ( res - wgt ) / scale
+                yield ( ( res - wgt ) / scale if not problem.hasAccuracy
+                        else numpy.zeros_like( res ) )      ## no dependence on scale
         return
 
     def __str__( self ) :
-- 
2.43.0


From 6ec18e06f7fa3f4d97e1100e43f912e4208412c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 039/130] fix: CauchyErrorDistribution getScale constant,
 multiple output and scale gradient with accuracy

---
 .../source/CauchyErrorDistribution.py         | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/CauchyErrorDistribution.py b/BayesicFitting/source/CauchyErrorDistribution.py
index 71cbc1b..9f05847 100644
--- a/BayesicFitting/source/CauchyErrorDistribution.py
+++ b/BayesicFitting/source/CauchyErrorDistribution.py
@@ -124,7 +124,7 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
         Internal use, only.
         """
         return ( numpy.sum( numpy.log( self.res2 + scale * scale ) ) -
-                self.sumweight * ( 2 * math.log( scale ) + math.sqrt( 2.0 ) ) )
+                self.sumweight * 2 * ( math.log( scale ) + math.log( 2.0 ) ) )
 
     #  *********LIKELIHOODS***************************************************
     def logLikelihood_alt( self, problem, allpars ):
@@ -150,11 +150,11 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
         s2 = numpy.square( scale )
         res = problem.residuals( allpars[:-1] )
         res2 = numpy.square( res )
-        if isinstance( scale, float ) :
-            logL = ( problem.ndata * ( math.log( scale ) - self.LOGPI ) -
+        if numpy.ndim( scale ) == 0 :
+            logL = ( res.size * ( math.log( scale ) - self.LOGPI ) -
                      numpy.sum( numpy.log( res2 + s2 ) ) )
         else :
-            logL = ( -problem.ndata * self.LOGPI + 
+            logL = ( -res.size * self.LOGPI + 
                     numpy.sum( numpy.log( scale / ( res2 + s2 ) ) ) )
 
         return logL
@@ -193,7 +193,7 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
 
         Alternate calculation
 
-        dL/ds is not implemented for problems with accuracy
+        dL/ds = 0 for problems with accuracy; it replaces the scale
         
         Parameters
         ----------
@@ -219,7 +219,9 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
                 dL[i] = 2 * numpy.sum( res * dM[:,k] / r2s )
                 i += 1
             else :
-                dL[-1] = problem.ndata / scale - numpy.sum( 2 * scale / r2s )
+                if not problem.hasAccuracy :
+                    dL[i] = res.size / scale - numpy.sum( 2 * scale / r2s )
+                i += 1
 
         return dL
 
@@ -228,7 +230,7 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
         Return the partial derivative of log( likelihood ) to the parameters
         in fitIndex.
 
-        dL/ds is not implemented for problems with accuracy
+        dL/ds = 0 for problems with accuracy; it replaces the scale
         
         Parameters
         ----------
@@ -254,7 +256,8 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
             if k >= 0 :
                 yield 2 * res * dM[:,k] / r2s
             else :
-                yield 1.0 / scale - 2 * scale / r2s
+                yield ( 1.0 / scale - 2 * scale / r2s if not problem.hasAccuracy
+                        else numpy.zeros_like( res ) )      ## no dependence on scale
 
         return
 
-- 
2.43.0


From 2e8addaf187d7309a27b832853ef873fb74871c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 040/130] fix: GaussErrorDistribution alternate logLikelihood
 with a numpy scale

---
 BayesicFitting/source/GaussErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/GaussErrorDistribution.py b/BayesicFitting/source/GaussErrorDistribution.py
index 0d7a6ba..3df0f02 100644
--- a/BayesicFitting/source/GaussErrorDistribution.py
+++ b/BayesicFitting/source/GaussErrorDistribution.py
@@ -128,7 +128,7 @@ class GaussErrorDistribution( ScaledErrorDistribution ):
         s2 = allpars[-1] * allpars[-1] + problem.varyy
         chisq = numpy.sum( problem.weightedResSq( allpars ) / s2 )
 
-        if isinstance( s2, float ) :
+        if numpy.ndim( s2 ) == 0 :
             norm = problem.sumweight * ( self.LOG2PI + numpy.log( s2 ) )
         elif problem.hasWeights() :
             norm = numpy.sum( problem.weights * ( self.LOG2PI + numpy.log( s2 ) ) )
-- 
2.43.0


From bc498b9db980fad82bca8d7ce9696bb7f3b4b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 041/130] fix: UniformErrorDistribution per-point likelihood
 ignores cyclic residuals, zero weights give nan

---
 .../source/UniformErrorDistribution.py        | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/BayesicFitting/source/UniformErrorDistribution.py b/BayesicFitting/source/UniformErrorDistribution.py
index 6b42734..f727ff2 100644
--- a/BayesicFitting/source/UniformErrorDistribution.py
+++ b/BayesicFitting/source/UniformErrorDistribution.py
@@ -146,8 +146,11 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
 
         ares = numpy.abs( problem.residuals( allpars[:-1] ) )
 
-        if all( ares < scale ) :
-            if isinstance( scale, float ) :
+        inrange = ares < scale
+        if problem.hasWeights() :
+            inrange |= ( problem.weights == 0 )
+        if all( inrange ) :
+            if numpy.ndim( scale ) == 0 :
                 return - numpy.log( 2 * scale ) * problem.sumweight
             elif problem.hasWeights() :
                 return - numpy.sum( numpy.log( 2 * scale ) * problem.weights )
@@ -172,23 +175,23 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
             as calculated by the model
 
         """
-        if mockdata is None :
-            mockdata = problem.result( allpars[:-1] )
         scale = allpars[-1] if not problem.hasAccuracy else problem.accuracy
 
-        ares = numpy.abs( problem.ydata - mockdata )
+        ares = numpy.abs( problem.residuals( allpars[:-1], mockdata=mockdata ) )
 
-        lld = numpy.where( ares < scale, -numpy.log( 2 * scale ), -math.inf )
+        lld = -numpy.log( 2 * scale )
+        wgt = 1.0
         if problem.weights is not None :
-            lld *= problem.weights
-        return lld
+            wgt = problem.weights
+            lld = lld * wgt
+        return numpy.where( ( ares < scale ) | ( wgt == 0 ), lld, -math.inf )
 
 
     def partialLogL_alt( self, problem, allpars, fitIndex ) :
         """
         Return the partial derivative of log( likelihood ) to the parameters.
 
-        dL/ds is not implemented for problems with accuracy
+        dL/ds = 0 for problems with accuracy; it replaces the scale
 
         Parameters
         ----------
@@ -201,8 +204,8 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
 
         """
         dL = numpy.zeros( len( fitIndex ), dtype=float )
-        if fitIndex[-1] == -1 :
-            dL[-1] = -problem.sumweight / allpars[-1]
+        if not problem.hasAccuracy :
+            dL[numpy.asarray( fitIndex ) < 0] = -problem.sumweight / allpars[-1]
         return dL
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
@@ -210,7 +213,7 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
         Return the partial derivative of elements of the log( likelihood )
         to the parameters.
 
-        dL/ds is not implemented for problems with accuracy
+        dL/ds = 0 for problems with accuracy; it replaces the scale
 
         Parameters
         ----------
@@ -225,14 +228,14 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
 
         """
         scale = allpars[-1]
-        pll = numpy.zeros_like( problem.ydata )
+        pll = numpy.zeros( problem.ydata.size, dtype=float )
         if problem.weights is not None :
             wgt = problem.weights
         else :
-            wgt = numpy.ones_like( problem.ydata )
+            wgt = numpy.ones_like( pll )
 
         for k in fitIndex :
-            if k >= 0 :
+            if k >= 0 or problem.hasAccuracy :      ## no dependence on scale
                 yield pll
             else :
                 yield ( - wgt / scale )
-- 
2.43.0


From bf237338edc58d04da617f9f028455b08a7bcac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 042/130] fix: ExponentialErrorDistribution getScale misses a
 factor power; gradient nan at zero residual

---
 .../source/ExponentialErrorDistribution.py    | 43 ++++++++++++++-----
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 7576fd2..3680843 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -158,7 +158,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
 
         chipow = self.getChipow( problem, allpars, scale )
 
-        if isinstance( scale, float ) :
+        if numpy.ndim( scale ) == 0 :
             norm = problem.sumweight * math.log( 0.5 * power / scale )
         elif problem.hasWeights() :
             norm = numpy.sum( problem.weights * numpy.log( 0.5 * power / scale ) )
@@ -235,14 +235,31 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         """
         power = allpars[-1]
         chi = self.getChipow( problem, allpars=allpars )
-        return math.pow( chi / problem.sumweight, 1.0 / power )
+        return math.pow( power * chi / problem.sumweight, 1.0 / power )
 
 
+    def getdLdm( self, res, rsp, power ) :
+        """
+        Return the derivative of logL to the model: power * rsp / res.
+
+        It is 0 when res is 0 (a cusp when power <= 1).
+
+        Parameters
+        ----------
+        res : array_like
+            residuals
+        rsp : array_like
+            (weighted) power of the scaled residuals
+        power : float
+            power in the distribution
+        """
+        return power * rsp / numpy.where( res == 0, math.inf, res )
+
     def partialLogL_alt( self, problem, allpars, fitIndex ) :
         """
         Return the partial derivative of log( likelihood ) to the parameters.
 
-        dL/ds is not implemented for problems with accuracy
+        dL/ds = 0 for problems with accuracy; it replaces the scale
         
         Parameters
         ----------
@@ -265,7 +282,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         if problem.weights is not None :
             rsp = rsp * problem.weights
 
-        dLdm = power * rsp / res
+        dLdm = self.getdLdm( res, rsp, power )
         dM = problem.partial( allpars[:-2] )
 
         dL = numpy.zeros( len( fitIndex ), dtype=float )
@@ -275,13 +292,16 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
                 dL[i] = numpy.sum( dLdm * dM[:,k] )
                 i += 1
             elif k == -2 :
-                dL[-2] = - problem.sumweight / scale + power * numpy.sum( rsp ) / scale
+                if not problem.hasAccuracy :
+                    dL[i] = - problem.sumweight / scale + power * numpy.sum( rsp ) / scale
+                i += 1
             else :
                 # special.psi( x ) is the same as special.polygamma( 1, x )
                 dldp = problem.sumweight * ( power + special.psi( 1.0 / power ) )
                 dldp /= ( power * power )
-                dldp -= ( numpy.sum( rsp * numpy.log( ars ) ) )
-                dL[-1] = dldp
+                dldp -= ( numpy.sum( special.xlogy( rsp, ars ) ) )
+                dL[i] = dldp
+                i += 1
 
         return dL
 
@@ -290,7 +310,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         Return the partial derivative of all elements of the log( likelihood )
         to the parameters.
 
-        dL/ds is not implemented for problems with accuracy
+        dL/ds = 0 for problems with accuracy; it replaces the scale
         
         Parameters
         ----------
@@ -317,7 +337,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         else :
             wgt = 1.0
 
-        dLdm = power * rsp / res
+        dLdm = self.getdLdm( res, rsp, power )
         dM = problem.partial( param )
 ##      TBD import mockdata into partial
 #        dM = problem.partial( param, mockdata=mockdata )
@@ -329,9 +349,10 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
             if k >= 0 :
                 yield ( dLdm * dM[:,k] )
             elif k == -2 :
-                yield ( power * rsp - wgt ) / scale
+                yield ( ( power * rsp - wgt ) / scale if not problem.hasAccuracy
+                        else numpy.zeros_like( rsp ) )      ## no dependence on scale
             else :
-                yield dlp - rsp * numpy.log( ars )
+                yield dlp - special.xlogy( rsp, ars )
 
 #        return
 
-- 
2.43.0


From 22831c0dfb54360c2350574f55d35bce7704bab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 043/130] fix: MultipleOutputProblem.sumweight counts points,
 not outputs

---
 BayesicFitting/source/MultipleOutputProblem.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/BayesicFitting/source/MultipleOutputProblem.py b/BayesicFitting/source/MultipleOutputProblem.py
index 9977c9e..92a93fd 100644
--- a/BayesicFitting/source/MultipleOutputProblem.py
+++ b/BayesicFitting/source/MultipleOutputProblem.py
@@ -87,6 +87,19 @@ class MultipleOutputProblem( Problem ):
         return MultipleOutputProblem( copy=self )
 
 
+    def __getattr__( self, name ) :
+        """
+        Return value belonging to attribute with name.
+
+        Parameters
+        ----------
+        name : string
+            name of the attribute
+        """
+        if name == 'sumweight' and not self.hasWeights() :
+            return self.ydata.size              ## each output counts
+        return super( ).__getattr__( name )
+
     def expandFlat( self, weights, ndout ) :
         """
         Expand and flatten the arrays.
-- 
2.43.0


From f05cf111f22668b13d0751275f3b626d80063971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 044/130] fix: BernoulliErrorDistribution alternate gradient
 sign and per-point gradient of multiple outputs

---
 BayesicFitting/source/BernoulliErrorDistribution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/BernoulliErrorDistribution.py b/BayesicFitting/source/BernoulliErrorDistribution.py
index 26b9b78..f3bcc28 100644
--- a/BayesicFitting/source/BernoulliErrorDistribution.py
+++ b/BayesicFitting/source/BernoulliErrorDistribution.py
@@ -176,9 +176,9 @@ class BernoulliErrorDistribution( ErrorDistribution ):
         dLdM = numpy.zeros_like( mock )
 
         if problem.model.lastndout == 1 :
-            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, 1 - mock )
+            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, mock - 1 )
             dL = numpy.sum( numpy.multiply( dLdM, dM.T ), axis=1 )
-            return dL
+            return dL[fitIndex]
 
         for k in range( problem.model.lastndout ) :
             q = numpy.where( problem.ydata == k )
@@ -186,7 +186,7 @@ class BernoulliErrorDistribution( ErrorDistribution ):
 
         dL = numpy.tensordot( dLdM, numpy.asarray( dM ), axes=([0,1],[1,0]) )
 
-        return dL
+        return dL[fitIndex]
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
         """
@@ -222,7 +222,7 @@ class BernoulliErrorDistribution( ErrorDistribution ):
                 q = numpy.where( problem.ydata == k )
                 dLdM[q,k] = 1.0 / mock[q,k]
 
-            dL = numpy.tensordot( dLdM, numpy.asarray( dM ), axes=([0,1],[1,0]) )
+            dL = numpy.einsum( "ik,kij->ji", dLdM, numpy.asarray( dM ) )
 
 #        r0 = numpy.log( numpy.where( problem.ydata == 0, mock - 0.001, 1 - mock + 0.001 ) )
 #        r1 = numpy.log( numpy.where( problem.ydata == 0, mock + 0.001, 1 - mock - 0.001 ) )
-- 
2.43.0


From 21c40b030eb93a484e011664d49475d168b7efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 045/130] fix: MixedErrorDistribution weights, hyperparameters
 of the second distribution, underflowing gradient

---
 .../source/MixedErrorDistribution.py          | 135 +++++++++++-------
 1 file changed, 83 insertions(+), 52 deletions(-)

diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 5249e0c..b6bb926 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -1,7 +1,7 @@
 import numpy as numpy
 import math
 import re
-import sys
+import copy
 
 from .ErrorDistribution import ErrorDistribution
 from .HyperParameter import HyperParameter
@@ -147,21 +147,70 @@ class MixedErrorDistribution( ErrorDistribution ):
         if mockdata is None :
             mockdata = problem.result( allpars[:problem.npars] )
 
-        f = allpars[-1]
+        lld1, lld2, p1, p2 = self.bothLogLdata( problem, allpars, mockdata )
+        lld = self.mixLogLdata( lld1, lld2, allpars[-1] )
+
+        if problem.weights is None :
+            return lld
+        return numpy.where( problem.weights == 0, 0.0, lld * problem.weights )
+
+    def unweighted( self, problem ) :
+        """
+        Return the problem without weights: the weights pertain to the mixture.
+
+        Parameters
+        ----------
+        problem : Problem
+            to be solved
+        """
+        if problem.weights is None :
+            return problem
+        problem = copy.copy( problem )
+        problem.weights = None
+        return problem
+
+    def bothLogLdata( self, problem, allpars, mockdata ) :
+        """
+        Return the (unweighted) logLdata of both error distributions and the
+        parameter lists pertaining to each of them.
+
+        Parameters
+        ----------
+        problem : Problem
+            to be solved
+        allpars : array_like
+            list of all parameters in the problem
+        mockdata : array_like
+            as calculated for the problem
+        """
+        problem = self.unweighted( problem )
+
+        # make allpars lists (p1,p2) for errdis1&2; shift hyperpars in p2
         n1 = self.errdis1.nphypar
         n2 = self.errdis2.nphypar
         p1 = allpars[:-n2-1]
-        p2 = allpars[:-n1-1].copy()
-        p2[-n2:] = allpars[-n2-1:-1]
+        p2 = numpy.append( allpars[:-n1-n2-1], allpars[-n2-1:-1] )
+
+        return ( self.errdis1.logLdata( problem, p1, mockdata=mockdata ),
+                 self.errdis2.logLdata( problem, p2, mockdata=mockdata ), p1, p2 )
+
+    def mixLogLdata( self, lld1, lld2, f ) :
+        """
+        Return the log of the mixture of both likelihoods.
 
+        Parameters
+        ----------
+        lld1, lld2 : array_like
+            log( likelihood ) of errdis1&2
+        f : float
+            fraction of errdis1
+        """
         if f <= 0 :
-            return self.errdis2.logLdata( problem, p2, mockdata=mockdata )
+            return lld2
         if f >= 1 :
-            return self.errdis1.logLdata( problem, p1, mockdata=mockdata )
+            return lld1
 
-        return numpy.logaddexp(
-                self.errdis1.logLdata( problem, p1, mockdata=mockdata ) + math.log( f ),
-                self.errdis2.logLdata( problem, p2, mockdata=mockdata ) + math.log( 1 - f ) )
+        return numpy.logaddexp( lld1 + math.log( f ), lld2 + math.log( 1 - f ) )
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
         """
@@ -182,63 +231,45 @@ class MixedErrorDistribution( ErrorDistribution ):
         if mockdata is None :
             mockdata = problem.result( allpars[:problem.npars] )
 
-        # make allpars lists (p1,p2)for errdis1&2; shift hyperpars in p2
         f = allpars[-1]
         emf = 1 - f
-        n1 = self.errdis1.nphypar
-        n2 = self.errdis2.nphypar
-        p1 = allpars[:-n2-1]
-        p2 = allpars[:-n1-1].copy()
-        p2[-n2:] = allpars[-n2-1:-1]
 
+        lld1, lld2, p1, p2 = self.bothLogLdata( problem, allpars, mockdata )
+        lld = self.mixLogLdata( lld1, lld2, f )
+
+        # Ratio of the likelihoods of errdis1&2 to the mixed one.
+        # Where the mixed likelihood is 0, its partials also must be zero.
+        q = numpy.isfinite( lld )
+        lhd1 = numpy.exp( numpy.where( q, lld1, -math.inf ) - numpy.where( q, lld, 0 ) )
+        lhd2 = numpy.exp( numpy.where( q, lld2, -math.inf ) - numpy.where( q, lld, 0 ) )
+        if problem.weights is not None :
+            lhd1 = lhd1 * problem.weights
+            lhd2 = lhd2 * problem.weights
 
         # make fitIndex (f1,f2) for errdis1&2
-        fitIndex = numpy.asarray( fitIndex )
-        q = numpy.where( fitIndex >= 0 )
-        f1 = fitIndex[q]
-        f2 = f1.copy()
-        if -3 in fitIndex :
-            f1 = numpy.append( f1, [-1] )
-        if -2 in fitIndex :
-            f2 = numpy.append( f2, [-1] )
-
-        # make fitindices (f1,f2) for errdis1&2
-        lhd1 = numpy.exp( self.errdis1.logLdata( problem, p1, mockdata=mockdata ) )
-        lhd2 = numpy.exp( self.errdis2.logLdata( problem, p2, mockdata=mockdata ) )
-        pg1 = self.errdis1.nextPartialData( problem, p1, f1, mockdata=mockdata )
-        pg2 = self.errdis2.nextPartialData( problem, p2, f2, mockdata=mockdata )
-
-        ff1 = f * lhd1 + emf * lhd2
-
-        # Where the mixed likelihood (=ff1) is indistinguishable from 0,
-        # its partials also must be zero. In those locations we can replace
-        # the inverse of ff1, needed in calculating the partials, by 0.
-        fff = numpy.zeros_like( ff1 )
-        q = numpy.where( ff1 > sys.float_info.min )
-        fff[q] = 1.0 / ff1[q]
-
-#        fff = numpy.where( ff1 < sys.float_info.min, 0.0, 1.0 / ff1 )
+        n2 = self.errdis2.nphypar
+        f1 = [k if k >= 0 else k + n2 + 1 for k in fitIndex if k >= 0 or k < -n2-1]
+        f2 = [k if k >= 0 else k + 1 for k in fitIndex if k >= 0 or -n2-1 <= k < -1]
+
+        prob = self.unweighted( problem )
+        pg1 = self.errdis1.nextPartialData( prob, p1, f1, mockdata=mockdata )
+        pg2 = self.errdis2.nextPartialData( prob, p2, f2, mockdata=mockdata )
 
         for fi in fitIndex :
             if fi >= 0 :            ## partialLogL for model parameters
                 npg1 = next( pg1 )
                 npg2 = next( pg2 )
 
-                yield ( fff * ( f * lhd1 * npg1 +
-                              emf * lhd2 * npg2 ) )
+                yield ( f * lhd1 * npg1 + emf * lhd2 * npg2 )
 
-            if fi == -1 :           ## partialLogL for fraction f
-                yield ( ( lhd1 - lhd2 ) * fff )
+            elif fi == -1 :         ## partialLogL for fraction f
+                yield ( lhd1 - lhd2 )
 
-            elif fi == -2 :         ## partialLogL for sigma of errdis2
-                npg2 = next( pg2 )
-
-                yield ( emf * lhd2 * fff * npg2 )
-
-            elif fi == -3 :         ## partialLogL for sigma of errdis1
-                npg1 = next( pg1 )
+            elif fi >= -n2-1 :      ## partialLogL for hyperpars of errdis2
+                yield ( emf * lhd2 * next( pg2 ) )
 
-                yield ( f * lhd1 * fff * npg1 )
+            else :                  ## partialLogL for hyperpars of errdis1
+                yield ( f * lhd1 * next( pg1 ) )
 
 
     def __str__( self ) :
-- 
2.43.0


From 6af1980df7696e6869d9d587de49191af5c3c85f Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 046/130] fix: Gauss2dErrorDistribution misses the
 normalisation of the second dimension; ErrorsInXandYProblem squares a scalar
 accuracy twice and changes the user's arrays

---
 BayesicFitting/source/ErrorsInXandYProblem.py |  6 ++---
 .../source/Gauss2dErrorDistribution.py        | 27 +++++++++----------
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/BayesicFitting/source/ErrorsInXandYProblem.py b/BayesicFitting/source/ErrorsInXandYProblem.py
index a9b0761..ea6f009 100644
--- a/BayesicFitting/source/ErrorsInXandYProblem.py
+++ b/BayesicFitting/source/ErrorsInXandYProblem.py
@@ -225,9 +225,9 @@ class ErrorsInXandYProblem( Problem ):
                     if accuracy.shape[-1] == 3 :
                         varxy = accuracy[:,2]
 
-                varxy *= varyy * varxx
-                varyy *= varyy
-                varxx *= varxx
+                varxy = varxy * varyy * varxx
+                varyy = varyy * varyy
+                varxx = varxx * varxx
             else :
                 raise AttributeError( "Covar and Accuracy are mutually exclusive" )
 
diff --git a/BayesicFitting/source/Gauss2dErrorDistribution.py b/BayesicFitting/source/Gauss2dErrorDistribution.py
index 7b66d74..44b4052 100644
--- a/BayesicFitting/source/Gauss2dErrorDistribution.py
+++ b/BayesicFitting/source/Gauss2dErrorDistribution.py
@@ -49,11 +49,11 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
     The function is mostly used to calculate the likelihood L over N residuals,
     or easier to use log likelihood, logL.
 
-        logL = log( N / ( sqrt( 2 &pi; ) s )  ) - 0.5 &sum;( x / s ) ^ 2
+        logL = - N log( 2 &pi; &sqrt; det ) - 0.5 &sum;( x / s ) ^ 2
 
     Using weights this becomes:
 
-        logL = log( &sum;( w ) / ( sqrt( 2 &pi; ) s )  ) - 0.5 &sum;( w ( x / s ) ^ 2 )
+        logL = - &sum;( w ) log( 2 &pi; &sqrt; det ) - 0.5 &sum;( w ( x / s ) ^ 2 )
 
 
     Author       Do Kester.
@@ -137,13 +137,13 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
 
         chisq = numpy.sum( problem.weightedResSq( allpars ) )
 
-        if problem.weights is None :
-            if det.size == 1 : 
-                norm = problem.ndata * ( self.LOG2PI + math.log( det ) )
-            else :
-                norm = problem.ndata * self.LOG2PI + numpy.sum( numpy.log( det ) )  
+        norm = 2 * self.LOG2PI + numpy.log( det )
+        if problem.weights is not None :
+            norm = numpy.sum( problem.weights * norm )
+        elif numpy.ndim( det ) == 0 :
+            norm = problem.ndata * norm
         else :
-            norm = numpy.sum( problem.weights * ( LOG2PI + numpy.log( det ) ) ) 
+            norm = numpy.sum( norm )
 
         return -0.5 * ( norm + chisq )
 
@@ -167,7 +167,7 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
 
         rot2 = problem.weightedResSq( allpars, mockdata=mockdata )
 
-        norm = self.LOG2PI + numpy.log( det )
+        norm = 2 * self.LOG2PI + numpy.log( det )
         if problem.weights is not None :
             norm *= problem.weights
 
@@ -201,19 +201,16 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
         dM = problem.partial( allpars[:-1] )
 
         dL = numpy.zeros( len( fitIndex ), dtype=float )
-        print( "G2dED   ", rot2.shape, res.shape, res2.shape, dM.shape, dL.shape ), 
-        print( fmt( dM, max=None ) )
-        print( "LLD    ", fmt( res, max=None ) )
 
         i = 0
         for  k in fitIndex :
             if k < 0 :              # model accuracy
                 wgt = 1 if problem.weights is None else problem.weights
-                dL[-1] = - modelscale / det * numpy.sum( ( problem.varxx + problem.varyy +
-                    2 * modelscale * modelscale ) * ( wgt - rot2 ) + res2 ) 
+                dL[i] = - modelscale * numpy.sum( ( ( problem.varxx + problem.varyy +
+                    2 * modelscale * modelscale ) * ( wgt - rot2 ) + res2 ) / det )
             else :
                 dL[i] = numpy.sum( res * dM[:,k] )
-                i += 1
+            i += 1
 
         return dL
 
-- 
2.43.0


From 329dcb32d1fb1b47037debff548f181eb8150fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 047/130] fix: keep given at fit() stays for later fits or is
 ignored in errors; wrong npfit with keep; accuracy as list; number of pixels
 of a map

---
 BayesicFitting/source/BaseFitter.py | 37 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 4082a88..b74f40a 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -84,6 +84,8 @@ class BaseFitter( object ):
         to keep the indexed (int) parameter at the provided value (float)
     fitIndex : list of int (or None)
         list of parameter indices to fit (None is all)
+    usedIndex : list of int (or None)
+        list of parameter indices fitted in the last fit (None is all)
     npfit : int
         the number of parameters fitted in the last fit.
     fixedScale : float
@@ -191,7 +193,7 @@ class BaseFitter( object ):
             ndim = 1 if self.xdata.ndim <= 1 else self.xdata.shape[1]
 
         ninp = Tools.length( xdata )
-        self.nxdata = ninp
+        self.nxdata = ninp if not map else len( self.xdata )
         self.ndim = ndim
         self.model = model
         self.keep = keep
@@ -243,6 +245,8 @@ class BaseFitter( object ):
             Combines weights and accuracy into ( weights / accuracy^2 )
             1.0 if both are None
         """
+        if accuracy is not None and Tools.length( accuracy ) > 1 :
+            accuracy = numpy.asarray( accuracy, dtype=float )
         self.checkNan( ydata, weights=weights, accuracy=accuracy )
 
         if self.imageAssistant is not None :
@@ -267,16 +271,14 @@ class BaseFitter( object ):
         if accuracy is not None :
             self.fitWgts /= ( accuracy * accuracy )
            
-        if keep is not None :
-            return ( self.keepFixed( keep ), ydata, self.fitWgts )
+        if keep is None :                       # return to the keep of this Fitter
+            keep = self.keep
+        self.usedIndex = self.keepFixed( keep )
 
-        if self.fitIndex is None :
-            self.npfit = self.model.npchain
-            return ( numpy.arange( self.model.npchain, dtype=int ), 
-                     ydata, self.fitWgts )
+        fitIndex = ( self.usedIndex if self.usedIndex is not None else
+                     numpy.arange( self.model.npchain, dtype=int ) )
 
-        self.npfit = len( self.fitIndex )
-        return ( self.fitIndex, ydata, self.fitWgts )
+        return ( fitIndex, ydata, self.fitWgts )
 
     def fitpostscript( self, ydata, plot=False ) :
         """
@@ -304,16 +306,16 @@ class BaseFitter( object ):
         Returns
         -------
         fitIndex : list of int (or None)
-            list of parameter indices to be kept
+            list of parameter indices to be fitted
         """
         if keep is None :
             self.npfit = self.model.npchain
             return None
         else :
 #            print( "Keep  ", keep )
-            self.npfit = len( keep )
             fitIndex = numpy.arange( self.model.npchain )      # start from scratch
-            fitIndex = numpy.setxor1d( fitIndex, list( keep.keys() ) )
+            fitIndex = numpy.delete( fitIndex, list( keep.keys() ) )
+            self.npfit = len( fitIndex )
             self.model.parameters[list(keep.keys())] = list( keep.values() )
             return fitIndex
 
@@ -510,6 +512,8 @@ class BaseFitter( object ):
             return None
         elif name == 'sumwgt' :             ## not present return nxdata
             return self.nxdata
+        elif name == 'usedIndex' :          ## not fitted yet: return fitIndex
+            return self.fitIndex
         elif name == 'yfit' :
             yfit = self.model.result( self.xdata )
             return yfit if self.imageAssistant is None else self.imageAssistant.resizeData( yfit )
@@ -629,7 +633,7 @@ class BaseFitter( object ):
         Stdevs are found from this as np.sqrt( np.diag( covarianceMatrix ) )
 
         """
-        cov =  self.getInverseHessian( index=self.fitIndex ) * self.makeVariance()
+        cov =  self.getInverseHessian( index=self.usedIndex ) * self.makeVariance()
         return cov
 
     #  *************************************************************************
@@ -765,11 +769,12 @@ class BaseFitter( object ):
         cov = self.covariance
 
         stdevs = numpy.sqrt( cov.diagonal() )
-        if self.keep is None :
+        if self.usedIndex is None :
             self.model.stdevs = stdevs
         else :
             intostd = numpy.zeros( self.model.npchain, dtype=float )
-            self.model.stdevs = self.insertParameters( stdevs, into=intostd )
+            self.model.stdevs = self.insertParameters( stdevs, index=self.usedIndex,
+                        into=intostd )
 
         return self.model.stdevs
 
@@ -798,7 +803,7 @@ class BaseFitter( object ):
         if xdata is None : xdata = self.xdata
         if monteCarlo is None :
             monteCarlo = MonteCarlo( xdata, self.model, self.covariance,
-                                          index=self.fitIndex )
+                                          index=self.usedIndex )
 
         return monteCarlo.getError( xdata )
 
-- 
2.43.0


From 1f3f2bb2b3420dfedede85e9c71a6a09eff8c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 048/130] fix: Fitter ignores weights in chisq of a model
 without parameters and kept parameters in normalize()

---
 BayesicFitting/source/Fitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Fitter.py b/BayesicFitting/source/Fitter.py
index 0b1e9c8..ac86776 100644
--- a/BayesicFitting/source/Fitter.py
+++ b/BayesicFitting/source/Fitter.py
@@ -130,7 +130,7 @@ class Fitter( BaseFitter ):
                     accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitWgts )
+            self.chiSquared( ydata, weights=fitWgts )
             return numpy.asarray( 0 )
 
         hessian = self.getHessian( weights=fitWgts, index=fitIndex )
@@ -144,7 +144,8 @@ class Fitter( BaseFitter ):
         if fitWgts is not None :
             ydatacopy *= fitWgts
         if hasattr( self, "normdfdp" ) :
-            ydatacopy = numpy.append( ydatacopy, self.normdata * self.normweight )
+            normdata = self.normdata - numpy.inner( self.normdfdp, fxpar )
+            ydatacopy = numpy.append( ydatacopy, normdata * self.normweight )
 
         vector = self.getVector( ydatacopy, index=fitIndex )
 #        print( fmt( hessian ) )
-- 
2.43.0


From 2b9103cf4361e214cdbf3c75ce27e4aab1db6977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 049/130] fix: QRFitter takes weights unsquared-rooted, drops
 normalizations and reuses a stale decomposition

---
 BayesicFitting/source/QRFitter.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index b0be4f6..126039d 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -77,7 +77,8 @@ class QRFitter( BaseFitter ):
             Only for linear fitters, setting it to false might improve efficiency.
             It only works properly when the model, the x-data etc are exactly the
             same in the previous run.
-            Whenever weights are used, it always needs a new decomposition.
+            Whenever weights, accuracies or keep are used, it always needs a new
+            decomposition.
 
     qrmat : matrix
         matrix formed by q * inverse( r ), where q,r is the QR decomposition
@@ -140,7 +141,7 @@ class QRFitter( BaseFitter ):
                         accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitwgts )
+            self.chiSquared( ydata, weights=fitwgts )
             return numpy.asarray( 0 )
 
         ydatacopy = ydata.copy( )
@@ -153,16 +154,17 @@ class QRFitter( BaseFitter ):
 #        wgts = ( numpy.ones_like( ydata, dtype=float ) if fitwgts is None else
 #                 numpy.sqrt( fitwgts ) )
 
-        wgts = numpy.full_like( ydata, fitwgts, dtype=float )
+        wgts = numpy.sqrt( numpy.full_like( ydata, fitwgts, dtype=float ) )
 
         if hasattr( self, "normdata" ) :
-            normweight = math.sqrt( self.normweight )
-            ydatacopy = numpy.append( ydatacopy, self.normdata )
-            wgts = numpy.append( wgts, normweight )
+            normdata = self.normdata - numpy.inner( self.normdfdp, fxpar )
+            ydatacopy = numpy.append( ydatacopy, normdata )
+            wgts = numpy.append( wgts, numpy.sqrt( self.normweight ) )
 
         ydatacopy = ydatacopy * wgts
 
-        if self.needsNewDecomposition or weights is not None:
+        special = not ( weights is None and accuracy is None and keep is None )
+        if self.needsNewDecomposition or special or self.qrmat.shape[1] != len( wgts ) :
             design = ( self.getDesign( index=fi ).transpose() * wgts ).transpose()
 
             # The QR decomposition in numpy has a different interface from that in scipy.
@@ -171,7 +173,7 @@ class QRFitter( BaseFitter ):
 
             q, r = numpy.linalg.qr( design )
             self.qrmat = numpy.dot( numpy.linalg.inv( r ), q.transpose() )
-            self.needsNewDecomposition = False
+            self.needsNewDecomposition = special        # not to be used in other fits
 
         params = numpy.dot( self.qrmat, ydatacopy )
 
-- 
2.43.0


From 1dc62d1dbc0b12572090837f9e5713fce39e7a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 050/130] fix: evidence: weights on accuracies, Occam factor of
 the noise scale, prior ranges of the fitted parameters only

---
 BayesicFitting/source/BaseFitter.py | 39 ++++++++++++-----------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index b74f40a..d792e4e 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -869,7 +869,10 @@ class BaseFitter( object ):
 
         if self.accuracy is not None :
             if Tools.length( self.accuracy ) > 1 :
-                slacc = numpy.sum( numpy.log( self.accuracy ) )
+                slacc = numpy.log( self.accuracy )
+                if self.weights is not None :
+                    slacc = slacc * self.weights
+                slacc = numpy.sum( slacc )
             else :
                 slacc = self.sumwgt * numpy.log( self.accuracy )
         else :
@@ -914,7 +917,8 @@ class BaseFitter( object ):
             scalerange = math.log( noiseLimits[1] ) - math.log( noiseLimits[0] )
             autoScale = True
             s2 = self.makeVariance( )
-            self.logOccam = 0.5 * math.log( math.pi * dof ) - scalerange
+            # width of the posterior of log( scale ); prior range is subtracted below
+            self.logOccam = 0.5 * math.log( math.pi / dof )
         else :
             autoScale = False
             scale = 1.0 if self.fixedScale is None else self.fixedScale
@@ -931,34 +935,23 @@ class BaseFitter( object ):
 
 
         if self.npfit == 0 :
+            self.logOccam -= spr
             return self.logLikelihood + self.logOccam
 
-        priors = self.model.priors
+        # range of each of the fitted parameters
+        fi = range( self.model.npchain ) if self.usedIndex is None else self.usedIndex
         if limits is not None :
             prirange = Tools.toArray( limits[1] ) - Tools.toArray( limits[0] )
-        elif self.model.hasLimits() :
-            prirange = [p.getIntegral() for p in priors]        # convert to list
-        elif self.model.npchain > 0 :
-            raise ValueError( "No limits provided on the parameters. Cannot calculate evidence." )
-
-        priorlength = Tools.length( prirange )                         # maybe less than npar
-        prirange = numpy.log( numpy.asarray( prirange ) )
-
-        if priorlength == 1 :
-            spr += prirange[0]
-        elif limits is None and self.fitIndex is not None :
-            fi = self.fitIndex
-            q = numpy.where( fi < priorlength )
-            fq = fi[q]
-            priorlength = len( fq )
-            spr += numpy.sum( prirange[fq] )
+            last = len( prirange ) - 1                          # maybe less than npar
+            prirange = [prirange[min( k, last )] for k in fi]   # repeat the last one
+        elif self.model.hasLimits( fitindex=self.usedIndex ) :
+            prirange = [self.model.getPrior( k ).getIntegral() for k in fi]
         else :
-            spr += numpy.sum( prirange )
+            raise ValueError( "No limits provided on the parameters. Cannot calculate evidence." )
 
-        if priorlength < self.npfit :                          # add enough times the last one
-            spr += ( self.npfit - priorlength ) * prirange[-1]
+        spr += numpy.sum( numpy.log( prirange ) )
 
-        lidet = math.log( numpy.linalg.det( self.hessian ) )
+        lidet = math.log( numpy.linalg.det( self.getHessian( index=self.usedIndex ) ) )
 
         # implementing eq 18 (Kester 2002) term by term
         self.logOccam += -spr + 0.5 * ( self.npfit *
-- 
2.43.0


From 056dc46d58acc5c5d41a40ef84d788fcf8506c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 051/130] fix: limitsFit ignores call-time keep, priors of
 compounds and absent priors

---
 BayesicFitting/source/BaseFitter.py | 58 +++++++++++++----------------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index d792e4e..9fa0f21 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -395,53 +395,45 @@ class BaseFitter( object ):
         """
         pars = self.fit( ydata, weights=weights, keep=keep )          # perform the fit
 
-        if self.model.priors is None :                  # no priors -> no limits
-            return pars
-
-        sfix = self.keep                                # save original fixed setting
-
-        npchain = self.model.npchain
         params = self.model.parameters
-        index = self.fitIndex
+        lowlim, highlim = self.findLimits()
 #        print( "index  ", fmt( index ) )
-        if index is None :
-            index = [*range( npchain )]                 # unpack range object into list
-            fix = {}
-        else :
-            fix = sfix.copy()
-
+        fix = {}                                        # parameters kept in this fit
         if keep is not None :
-            for k in keep.keys() : 
-                fix[k] = keep[k]
-
-#        print( "index  ", fmt( index ) )
-#        print( "fix    ", fmt( fix ) )
+            fix = keep.copy()
+        elif self.keep is not None :
+            fix = self.keep.copy()
 
         ool = 0
-        for k in index :                                    # check limits for params
-            if params[k] < self.model.getPrior( k ).lowLimit :
-                params[k] = self.model.getPrior( k ).lowLimit
-                fix[k] = params[k]
+        for k in range( self.model.npchain ) :              # check limits for params
+            if k in fix : continue
+            if params[k] < lowlim[k] :
+                fix[k] = lowlim[k]
                 ool += 1
-            elif params[k] > self.model.getPrior( k ).highLimit :
-                params[k] = self.model.getPrior( k ).highLimit
-                fix[k] = params[k]
+            elif params[k] > highlim[k] :
+                fix[k] = highlim[k]
                 ool += 1
 
         if ool > 0 :                                        # some transgressions
             print( "ool    ", fmt( ool ), fmt( fix ) )
-            self.keepFixed( fix )                           # fix them
             pars = self.fit( ydata, weights=weights, keep=fix )      # run fit again
-#            print( "pars   ", fmt( pars, max=None ) )
-#            print( fmt( sfix ) )
-            self.keepFixed( sfix )                          # reset original fitIndex
-            if sfix is not None :                           # select parameters
-                pars = [self.model.parameters[k] for k in self.fitIndex]
-                fix = list( set( fix ) - set( sfix ) )
-#            warnings.warn( "Parameters ", fix, " exceeded limits." )
 
         return pars                                         # return parameters
 
+    def findLimits( self ) :
+        """
+        Return lists of low and high limits for all parameters, +-Inf when absent.
+        """
+        lowlim  = [-math.inf] * self.model.npchain
+        highlim = [math.inf] * self.model.npchain
+        for k in range( self.model.npchain ) :
+            try :
+                pr = self.model.getPrior( k )
+            except IndexError :                             # no prior present
+                continue
+            if pr.hasLowLimit() : lowlim[k] = pr.lowLimit
+            if pr.hasHighLimit() : highlim[k] = pr.highLimit
+        return ( lowlim, highlim )
 
     def fit( self, ydata, weights=None, keep=None ) :
         """
-- 
2.43.0


From f9f46c97a780535e851446a51a89930d91c86635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 052/130] fix: CurveFitter makes call-time keep permanent, uses
 wrong parameters in result and bounds

---
 BayesicFitting/source/CurveFitter.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/CurveFitter.py b/BayesicFitting/source/CurveFitter.py
index f3d32d7..65352b9 100644
--- a/BayesicFitting/source/CurveFitter.py
+++ b/BayesicFitting/source/CurveFitter.py
@@ -129,17 +129,17 @@ class CurveFitter( IterativeFitter ):
         # Check for limits
         if limits is not None :
             bounds = limits
-        elif self.model.priors :
-            bounds = self.model.getLimits()
         else :
-            bounds = ( -numpy.inf, numpy.inf )
+            bounds = self.findLimits()
+
+        # Only for the parameters to be fitted
+        bounds = [b[fitIndex] if numpy.ndim( b ) > 0 else b
+                  for b in [numpy.asarray( b, dtype=float ) for b in bounds]]
 
         # Make requested fitIndex; save original one.
-        if keep is not None :
-            self.fitIndex = self.keepFixed( keep )
 
         # Make initial parameters
-        p0 = self.model.parameters if inipar is None else inipar
+        p0 = self.model.parameters if inipar is None else numpy.asarray( inipar, dtype=float )
         if fitIndex is not None :
             p0 = p0[fitIndex]
 
@@ -196,7 +196,7 @@ class CurveFitter( IterativeFitter ):
             parameters for the model
         """
         params = Tools.toArray( fitpar, dtype=float, ndim=1 )
-        params = self.insertParameters( params )
+        params = self.insertParameters( params, index=self.usedIndex )
         res = self.model.result( xdata, params )
         if hasattr( self, "normdfdp" ) :
             extra = numpy.inner( self.normdfdp, params )
@@ -216,8 +216,8 @@ class CurveFitter( IterativeFitter ):
             parameters for the model
         """
         params = Tools.toArray( fitpar, dtype=float, ndim=1 )
-        params = self.insertParameters( params )
+        params = self.insertParameters( params, index=self.usedIndex )
 
-        design = self.getDesign( params=params, xdata=xdata, index=self.fitIndex )
+        design = self.getDesign( params=params, xdata=xdata, index=self.usedIndex )
         return design
 
-- 
2.43.0


From b89c36a5789fda3228a17bec7a0f06fa64f80723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 053/130] fix: hessian of the Gaussian likelihood ignores the
 scale index, accuracies and has the wrong sign

---
 BayesicFitting/source/GaussErrorDistribution.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/GaussErrorDistribution.py b/BayesicFitting/source/GaussErrorDistribution.py
index 3df0f02..5043ee8 100644
--- a/BayesicFitting/source/GaussErrorDistribution.py
+++ b/BayesicFitting/source/GaussErrorDistribution.py
@@ -275,22 +275,22 @@ class GaussErrorDistribution( ScaledErrorDistribution ):
         np = problem.npars
         param = allpars[:np]
         scale = allpars[np]
-        s2 = scale * scale
+        s2 = scale * scale + problem.varyy
 
-        fi = fitIndex if fitIndex[-1] != np else fitIndex[-1:]
+        fi = fitIndex if fitIndex[-1] != np else fitIndex[:-1]
 
         nf = len( fi )
         design = problem.partial( param )[:,fi]
         design = design.transpose()
-        deswgt = design
+        deswgt = design / s2
         if problem.hasWeights() :
-            deswgt *= problem.weights
+            deswgt = deswgt * problem.weights
 
         hessian = numpy.zeros( ( nh, nh ), dtype=float )
-        hessian[:nf,:nf] = numpy.inner( design, deswgt ) / s2
+        hessian[:nf,:nf] = -numpy.inner( design, deswgt )
 
         if fitIndex[-1] == np :
-            hessian[nf,nf] = 2 * ( problem.ndata - nf ) / s2
+            hessian[nf,nf] = -2 * ( problem.ndata - nf ) / ( scale * scale )
 
         return hessian
 
-- 
2.43.0


From d71406e50d0274fe4aeb39359d474830b3eb236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 054/130] fix: LevenbergMarquardtFitter changes its starting
 values, keeps a damped hessian and mixes up limits

---
 .../source/LevenbergMarquardtFitter.py        | 42 +++++++++----------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index 1e21cac..7c1f971 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -181,7 +181,9 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                         accuracy=accuracy, keep=keep )
 
 
-        trypar = self.model.parameters if par0 is None else par0
+        trypar = self.model.parameters.copy()
+        if par0 is not None :                   # kept parameters stay as they are
+            trypar[fitIndex] = numpy.asarray( par0, dtype=float )[fitIndex]
 
 #        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
 #            par0 = par0[fitIndex]
@@ -204,6 +206,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                 self.chi = trychi
                 self.report( verbose, trypar, trychi, more=math.log10( self.lamda ), force=True )
                 self.converged = True
+                self.getHessian( params=trypar, weights=fitWgts, index=fitIndex )
 
                 self.fitpostscript( data, plot=plot )
                 return trypar                   # we are done.
@@ -232,7 +235,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
     #  *************************************************************************
     def trialfit( self, params, fi, data, weights, verbose, maxiter ):
 
-        hessian = self.getHessian( params=params, weights=weights, index=fi )
+        hessian = self.getHessian( params=params, weights=weights, index=fi ).copy()
 
         residu = data - self.model.result( self.xdata, params )
         if weights is not None :
@@ -259,7 +262,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
             if onEdge :
                 newpar = edgePar
 
-            trypar = self.insertParameters( newpar, index=fi, into=params )
+            trypar = self.insertParameters( newpar, index=fi, into=params.copy() )
 
             trychi = self.chiSquaredExtra( data, trypar, weights=weights )
 
@@ -308,23 +311,16 @@ class LevenbergMarquardtFitter( IterativeFitter ):
         """
         onedge = False
 #        if self.model.priors is not None and self.model.priors.hasLimits( ):
-        if self.model.priors is not None :
-            fitin = []
-            for i,k in enumerate( fitindex ) :
-                pr = self.model.getPrior( k )
-                if pr.hasLowLimit( ) and fitpar[i] < pr.lowLimit :
-                    fitpar[i] = pr.lowLimit
-                    onedge = True
-                elif pr.hasHighLimit( ) and fitpar[i] > pr.highLimit :
-                    fitpar[i] = pr.highLimit
-                    onedge = True
-                else:
-                    fitin += [k]
-
-            return ( onedge, fitpar, fitin )
-        else:
-            return ( onedge, fitpar, fitindex )
-
-
-
-
+        fitin = []
+        lowlim, highlim = self.findLimits()
+        for i,k in enumerate( fitindex ) :
+            if fitpar[i] < lowlim[k] :
+                fitpar[i] = lowlim[k]
+                onedge = True
+            elif fitpar[i] > highlim[k] :
+                fitpar[i] = highlim[k]
+                onedge = True
+            else:
+                fitin += [k]
+
+        return ( onedge, fitpar, fitin )
-- 
2.43.0


From b0e94526c7c021a9b1c37f3b2584e510a44ea7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 055/130] fix: MaxLikelihoodFitter hessian misses kept
 parameters and a factor 2; accuracy lost in non-gaussian likelihoods

---
 BayesicFitting/source/MaxLikelihoodFitter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index ce577b0..ab6ae4d 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -271,7 +271,8 @@ class _Chisq( object ):
         """
         Return the Hessian matrix.
         """
-        return self._outer.getHessian( params=par, weights=self._weights, index=self._index )
+        param = self._outer.insertParameters( par, index=self._index )
+        return 2 * self._outer.getHessian( params=param, weights=self._weights, index=self._index )
 
 class _LogL( _Chisq ) :
     """
@@ -304,8 +305,14 @@ class _LogL( _Chisq ) :
 
         super( _LogL, self ).__init__( outer, data, weights, index=index )
 
+        accuracy = None
+        if errdis != 'gauss' :                      # it takes the accuracies as scales
+            weights = outer.weights
+            accuracy = outer.accuracy
+        elif numpy.ndim( weights ) == 0 :             # same weight for all data, or none
+            weights = None if weights == 1 else numpy.full( len( data ), weights, dtype=float )
         self.problem = ClassicProblem( outer.model, xdata=outer.xdata, ydata=data,
-            weights=weights )
+            weights=weights, accuracy=accuracy )
 
         if errdis == 'gauss' :
             self.errdis = GaussErrorDistribution( scale=scale )
-- 
2.43.0


From 7cd456efe7a63fa53c99b02c8e2fb18660103775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 056/130] fix: ScipyFitter ignores par0, limits, tolerance,
 maxiter and the gradient of the CG fitter

---
 BayesicFitting/source/ScipyFitter.py | 65 +++++++++++++++-------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 967f174..851ff3f 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -165,7 +165,7 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         self.userGradient = gradient
         self.userHessp = hessp
-        self.method = str.upper( method )
+        self.method = None if method is None else str.upper( method )
         self.norm = numpy.inf
         self.debug = False
         self.ngrad = 0
@@ -225,14 +225,17 @@ class ScipyFitter( MaxLikelihoodFitter ):
         fitIndex, data, weights = self.fitprolog( data, weights=weights, 
                         accuracy=accuracy, keep=keep )
 
-        inipar = self.model.parameters[fitIndex]
+        inipar = self.model.parameters if par0 is None else numpy.asarray( par0, dtype=float )
+        inipar = inipar[fitIndex]
 
-        # Check for limits in the prior
-        if limits is not None and self.model.priors :
-            try :
-                limits = ( self.model.lowLimits[fitIndex], self.model.highLimits[fitIndex] )
-            except :
-                limits = ( self.model.lowLimits, self.model.highLimits )
+        # Make limits into bounds for each of the parameters to be fitted
+        if limits is not None :
+            ones = numpy.ones( self.model.npchain, dtype=float )
+            limits = [( numpy.asarray( lm ) * ones )[fitIndex] for lm in limits]
+            limits = list( zip( *limits ) )
+
+        if maxiter is None : maxiter = self.maxIter
+        if tolerance is None : tolerance = self.tolerance
 
         if self.method is None:
             # Select automatically
@@ -281,57 +284,57 @@ class ScipyFitter( MaxLikelihoodFitter ):
             options = {}
 
         if self.method == 'NELDER-MEAD':
-            options.setdefault( 'xatol', self.tolerance )
-            options.setdefault( 'fatol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'xatol', tolerance )
+            options.setdefault( 'fatol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, method="Nelder-Mead",
                     callback=callback, options=options )
         elif self.method == 'POWELL':
-            options.setdefault( 'ftol', self.tolerance )
-            options.setdefault( 'xtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'xtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, method="Powell",
                     callback=callback, options=options )
         elif self.method == 'CG':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="CG",
                     callback=callback, options=options )
         elif self.method == 'BFGS':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="BFGS",
                     callback=callback, options=options )
         elif self.method == 'NEWTON-CG':
-            options.setdefault( 'xtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'xtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="Newton-CG",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
         elif self.method == 'L-BFGS-B':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'ftol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'ftol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="L-BFGS-B",
                     bounds=limits, callback=callback, options=options )
         elif self.method == 'TNC':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'ftol', self.tolerance )
-            options.setdefault( 'xtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'xtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="TNC",
                     bounds=limits, callback=callback, options=options )
         elif self.method == 'COBYLA':
-            options.setdefault( 'tol', self.tolerance )
+            options.setdefault( 'tol', tolerance )
             res = minimize( func, inipar, method="COBYLA",
                     constraints=constraints, callback=callback, options=options )
         elif self.method == 'SLSQP':
-            options.setdefault( 'ftol', self.tolerance )
+            options.setdefault( 'ftol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="SLSQP",
                     bounds=limits, constraints=constraints, callback=callback, options=options )
         elif self.method == 'DOGLEG':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="dogleg",
                     hess=hess, callback=callback, options=options )
         elif self.method == 'TRUST-NCG':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="trust-ncg",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
         else:
@@ -346,6 +349,8 @@ class ScipyFitter( MaxLikelihoodFitter ):
             self.chisq = res["fun"]
         else :
             self.logLikelihood = -res["fun"]
+            if numpy.isfinite( self.logLikelihood ) :       # a possible solution was found
+                self.chisq = self.chiSquared( data, weights=weights )
 
 
 #        self.chisq = res["fun"]
@@ -485,7 +490,7 @@ class ConjugateGradientFitter( ScipyFitter ) :
 
         """
         super( ConjugateGradientFitter, self ).__init__( xdata, model, method='CG',
-                **kwargs )
+                gradient=gradient, **kwargs )
 
 class BfgsFitter( ScipyFitter ) :
     """
-- 
2.43.0


From dc58c10c7a7d2dccee4587a436cb230c57a79334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 057/130] fix: annealing amoeba alters the starting point and
 sizes of the user, loses its best point and mixes up limits

---
 BayesicFitting/source/AmoebaFitter.py    |  6 ++++--
 BayesicFitting/source/AnnealingAmoeba.py | 16 +++++++++-------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/AmoebaFitter.py b/BayesicFitting/source/AmoebaFitter.py
index 7cada9a..1c83543 100644
--- a/BayesicFitting/source/AmoebaFitter.py
+++ b/BayesicFitting/source/AmoebaFitter.py
@@ -168,8 +168,10 @@ class AmoebaFitter( MaxLikelihoodFitter ):
 
         if par0 is None :
             par0 = self.model.parameters
-        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
-            par0 = par0[fitIndex]
+        par0 = numpy.asarray( par0, dtype=float )[fitIndex]
+        if limits is not None :                     # only for the parameters to be fitted
+            limits = [numpy.asarray( lm )[fitIndex] if numpy.size( lm ) > 1 else lm
+                      for lm in limits]
 
         kwargs = {}
         if size is not None :
diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 29d9ee9..1298916 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -197,8 +197,8 @@ class AnnealingAmoeba( object ):
             self.lolimits = None
             self.hilimits = None
         else :
-            self.lolimits = limits[0] if Tools.length( limits[0] ) > 1 else [limits[0]]*nfit
-            self.hilimits = limits[1] if Tools.length( limits[1] ) > 1 else [limits[1]]*nfit
+            self.lolimits = numpy.zeros( nfit, dtype=float ) + limits[0]
+            self.hilimits = numpy.zeros( nfit, dtype=float ) + limits[1]
         self.maxiter = maxiter
         if abstol is None and reltol is None :
             raise ValueError( "Both reltol and abstol are None." )
@@ -235,6 +235,8 @@ class AnnealingAmoeba( object ):
 
         """
         nfit = len( xini )
+        xini = numpy.array( xini, dtype=float )         # copies, as they might be changed
+        step = numpy.array( step, dtype=float )
 
         i = 0
         for ir in xini :
@@ -278,7 +280,7 @@ class AnnealingAmoeba( object ):
         """
         Return True if it has low limits > -inf.
         """
-        return self.lolimits is not None and self.hilimits[k] > -math.inf
+        return self.lolimits is not None and self.lolimits[k] > -math.inf
 
     def hasHighLimits( self, k ) :
         """
@@ -326,7 +328,7 @@ class AnnealingAmoeba( object ):
         for i in range( dim[1] ) :
             same = True
             pre = simplex[0,i]
-            same = all( sim == pre for sim in simplex[i,:] )
+            same = all( sim == pre for sim in simplex[:,i] )
 
             if same:
                 print( simplex[i,:] )
@@ -451,7 +453,7 @@ class AnnealingAmoeba( object ):
                     self.values[0] = self.values[ilo]
                     self.values[ilo] = swap
 
-                    swap = self.simplex[0,:]
+                    swap = self.simplex[0,:].copy()
                     self.simplex[0,:] = self.simplex[ilo,:]
                     self.simplex[ilo,:] = swap
 
@@ -552,7 +554,7 @@ class AnnealingAmoeba( object ):
         (ndim,nfit) = self.simplex.shape
         milo = [k for k in range( ilo )] + [k for k in range( ilo+1, ndim )]
         for i in milo :
-            inpar = self.simplex[i,:]
+            inpar = self.simplex[i,:].copy()
             self.simplex[i,:] = factor * inpar + emf * self.simplex[ilo,:]
 
             self.simplex[i,:] = self.stayInLimits( inpar, self.simplex[i,:] )
@@ -565,7 +567,7 @@ class AnnealingAmoeba( object ):
                 ylo = self.values[i]
                 if self.values[i] < self.fopt:
                     self.fopt = ylo
-                    self.xopt = p
+                    self.xopt = p.copy()
 
         self.sum = numpy.sum( self.simplex, axis=0 )
 
-- 
2.43.0


From 19d8131681a40c9ab671fa50ce83ed0b1b870f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 058/130] fix: MonteCarlo returns NaN when rounding makes a
 variance negative

---
 BayesicFitting/source/MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/MonteCarlo.py b/BayesicFitting/source/MonteCarlo.py
index db66888..9117dbb 100644
--- a/BayesicFitting/source/MonteCarlo.py
+++ b/BayesicFitting/source/MonteCarlo.py
@@ -135,7 +135,7 @@ class MonteCarlo( object ):
             sm2 += numpy.square( model )
         sm1 /= self.mcycles
         sm2 /= self.mcycles
-        return numpy.sqrt( sm2  - sm1 * sm1 )
+        return numpy.sqrt( numpy.maximum( sm2  - sm1 * sm1, 0 ) )   # avoid NaN by round-off
 
     def randomVariant( self, xdata ):
         """
-- 
2.43.0


From 9d6f7ed92416c8d2f437b510b65674e161840968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 059/130] fix: ImageAssistant in order F puts the pixel values
 at other places than their indices

---
 BayesicFitting/source/ImageAssistant.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/ImageAssistant.py b/BayesicFitting/source/ImageAssistant.py
index 866dd67..9629026 100644
--- a/BayesicFitting/source/ImageAssistant.py
+++ b/BayesicFitting/source/ImageAssistant.py
@@ -168,7 +168,7 @@ class ImageAssistant( object ):
         ya : array_like
             map to be reshaped
         """
-        return numpy.reshape( ya.copy(), ya.size, order=self.order )
+        return numpy.reshape( ya.copy(), ya.size, order='C' )
 
     def resizeData( self, res, shape=None ):
         """
@@ -185,7 +185,7 @@ class ImageAssistant( object ):
         if shape is None :
             shape = self.shape
 
-        return numpy.reshape( res, shape, order=self.order )
+        return numpy.reshape( res, shape, order='C' )
 
 
 
-- 
2.43.0


From 77599bc20e42f7b5c7368e23c61e87d04e7618c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 060/130] fix: RobustShell fails on maps and non-float kernel
 values and ignores accuracies in the deviants

---
 BayesicFitting/source/RobustShell.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/RobustShell.py b/BayesicFitting/source/RobustShell.py
index 9410403..748a86f 100644
--- a/BayesicFitting/source/RobustShell.py
+++ b/BayesicFitting/source/RobustShell.py
@@ -234,7 +234,9 @@ class RobustShell( IterativeFitter ):
 
         while self.iter < self.maxIter :
 
-            residuals = data - self.model.result( self.xdata, param )
+            residuals = data - self.fitter.yfit
+            if kwargs.get( "accuracy" ) is not None :       # scale is in units of accuracy
+                residuals /= kwargs["accuracy"]
             scale = self.fitter.scale
             residuals /= ( scale * domain )
             robwgt = kernelfunc( residuals )
@@ -242,7 +244,7 @@ class RobustShell( IterativeFitter ):
 
             self.weights = robwgt
             if weights is not None :
-                self.weights *= weights
+                self.weights = robwgt * weights
             param = self.fitter.fit( data, self.weights, **kwargs )
 
             trychi = self.fitter.chisq
-- 
2.43.0


From 6e0560240b222bdf8f17539afca57898c1e6e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 061/130] fix: BSplinesModel returns a transposed partial when
 there is only one basis spline

---
 BayesicFitting/source/BSplinesModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/BSplinesModel.py b/BayesicFitting/source/BSplinesModel.py
index b297ffa..dae4dfb 100644
--- a/BayesicFitting/source/BSplinesModel.py
+++ b/BayesicFitting/source/BSplinesModel.py
@@ -226,7 +226,7 @@ class BSplinesModel( LinearModel ):
                    "  knots : ", self.knots[0], self.knots[-1] )
             raise ValueError( "Input data need to fall strictly in the domain spanned by knots" )
 
-        partial = Tools.toArray( self._bspline.collmat( xdata ), ndim=2 )
+        partial = numpy.reshape( self._bspline.collmat( xdata ), ( -1, self.npbase ) )
 
         return partial
 
@@ -244,7 +244,7 @@ class BSplinesModel( LinearModel ):
         """
         xd = numpy.where( xdata == self.knots[-1], ( 1.0 - self.eps ) * self.knots[-1], xdata )
 
-        partial = Tools.toArray( self._bspline.collmat( xd, deriv_order=1 ), ndim=2 )
+        partial = numpy.reshape( self._bspline.collmat( xd, deriv_order=1 ), ( -1, self.npbase ) )
 
         return numpy.inner( params, partial )
 
-- 
2.43.0


From 4ec4ac42cf08e637fe32875464a1a5bcd08999d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 062/130] fix: Kepplers2ndLaw.eccentricAnomaly0 solves
 Keppler's equation with the wrong sign

---
 BayesicFitting/source/Kepplers2ndLaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Kepplers2ndLaw.py b/BayesicFitting/source/Kepplers2ndLaw.py
index 7670fee..f260487 100644
--- a/BayesicFitting/source/Kepplers2ndLaw.py
+++ b/BayesicFitting/source/Kepplers2ndLaw.py
@@ -142,7 +142,7 @@ class Kepplers2ndLaw( object ):
         ## calculate the eccentric anomaly E
         while iter < self.MAXITER :
             sinE = numpy.sin( Ep )
-            E = M - eccen * sinE
+            E = M + eccen * sinE
             iter += 1
             if all( numpy.abs( E - Ep ) < 1e-8 ) : break
             Ep = E
-- 
2.43.0


From 5efbea9cb406e49aad76fe83724473ae6fcf1565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 063/130] fix: RadialVelocityModel takes the wrong parameters
 for the semimajor axis and the minimum mass

---
 BayesicFitting/source/RadialVelocityModel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/RadialVelocityModel.py b/BayesicFitting/source/RadialVelocityModel.py
index a715168..a501c0d 100644
--- a/BayesicFitting/source/RadialVelocityModel.py
+++ b/BayesicFitting/source/RadialVelocityModel.py
@@ -102,7 +102,7 @@ class RadialVelocityModel( NonLinearModel ) :
         """
         if name == "semimajoraxis" :
             p = self.parameters
-            return p[0] * p[1] * math.sqrt ( 1 - p[2] * p[2] ) / self.TWOPI
+            return p[1] * p[2] * math.sqrt ( 1 - p[0] * p[0] ) / self.TWOPI
         else :
             return super( RadialVelocityModel, self ).__getattr__( name )
 
@@ -116,8 +116,8 @@ class RadialVelocityModel( NonLinearModel ) :
             mass of the host star in solar masses.
         """
         p = self.parameters
-        return ( 4.91e-3 * math.pow( stellarmass, 2.0 / 3.0 ) * p[0] *
-                 math.pow( p[1], 1.0 / 3.0 ) * math.sqrt( 1 - p[2] * p[2] ) )
+        return ( 4.91e-3 * math.pow( stellarmass, 2.0 / 3.0 ) * p[1] *
+                 math.pow( p[2], 1.0 / 3.0 ) * math.sqrt( 1 - p[0] * p[0] ) )
 
     def baseResult( self, xdata, params ):
         """
-- 
2.43.0


From 0f001b62d5c75823e14a2b56e5fe4625cdc5d631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 064/130] fix: SampleList.monteCarloError needs a previous
 average, uses stale errors and yields nans, stdevScale is unknown

---
 BayesicFitting/source/SampleList.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 563b888..0e71285 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -147,9 +147,9 @@ class SampleList( list ):
             return self.stdevs
         elif name == "hypars" :
             return self.getHypars()
-        elif name == "stdevHypar" :
+        elif name == "stdevHypar" or name == "stdevHypars" :
             self.getHypars()
-            return self.stdevHypar
+            return self.stdevHypars
         elif name == "nuisance" :
             return self.getNuisance()
         elif name == "stdevNuis" :
@@ -533,7 +533,7 @@ class SampleList( list ):
             sumwgt += wgt
 
 #        self.error = numpy.sqrt( ( error - result * result ) / self.ndata )
-        self.error = numpy.sqrt( error - result * result )
+        self.error = numpy.sqrt( numpy.maximum( error - result * result, 0 ) )
         self.result = result
 
         return self.result
@@ -558,7 +558,6 @@ class SampleList( list ):
             standard deviations at each input point
 
         """
-        if Tools.length( xdata ) != len( self.result ):
-            self.average( xdata )
+        self.average( xdata )
         return self.error
 
-- 
2.43.0


From b19c6370eea245904c9cf9bcd75d32c589798810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 065/130] fix: Tools.fix2int returns one too much for negative
 values

---
 BayesicFitting/source/Tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Tools.py b/BayesicFitting/source/Tools.py
index 3511acd..b2a3473 100644
--- a/BayesicFitting/source/Tools.py
+++ b/BayesicFitting/source/Tools.py
@@ -477,7 +477,7 @@ def fix2int( x ) :
     x : array_like
         array of integer floats
     """
-    return numpy.fix( x + 0.000001 ).astype( int )
+    return numpy.fix( x + numpy.copysign( 0.000001, x ) ).astype( int )
 
 def track( statement ) :
     """
-- 
2.43.0


From 59ffb93fff10098355e3f307b69a3bd6f7470615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 066/130] fix: formatter fails on arrays of float32, int32 or
 other sizes

---
 BayesicFitting/source/Formatter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Formatter.py b/BayesicFitting/source/Formatter.py
index e947c02..00e9f9a 100644
--- a/BayesicFitting/source/Formatter.py
+++ b/BayesicFitting/source/Formatter.py
@@ -133,7 +133,10 @@ def formatter( array, format=None, indent=None, linelength=None, max=-1, tail=0
         array = numpy.asarray( array )
 
     if format is None :
-        format = fmt[str(array.dtype)]
+        key = str( array.dtype )
+        if key not in fmt :                 ## other sizes of the same kind
+            key = { "f":"float64", "i":"int64", "u":"uint8" }.get( array.dtype.kind, "object" )
+        format = fmt[key]
 
     fmtlen = len( format % 1 )
 
-- 
2.43.0


From b7298f59767faafa4fdde19949c50bf485535baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 067/130] fix: OrthonormalBasis.normalise fails on lists

---
 BayesicFitting/source/OrthonormalBasis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/OrthonormalBasis.py b/BayesicFitting/source/OrthonormalBasis.py
index 9f54b94..3d8e528 100644
--- a/BayesicFitting/source/OrthonormalBasis.py
+++ b/BayesicFitting/source/OrthonormalBasis.py
@@ -58,6 +58,7 @@ class OrthonormalBasis( object ):
         reset : bool
             start a new basis.
         """
+        vec = numpy.asarray( vec )
         nb = 0 if reset or not hasattr( self, "basis" ) else self.basis.shape[0]
         if nb >= len( vec ) :
             nb = 0
-- 
2.43.0


From 0adaab01b9cfcf2dd5e929015109f75560c18577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 068/130] fix: splinelab.aveknt truncates the averages of
 integer knots

---
 BayesicFitting/source/splinelab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/splinelab.py b/BayesicFitting/source/splinelab.py
index d55d701..392d024 100644
--- a/BayesicFitting/source/splinelab.py
+++ b/BayesicFitting/source/splinelab.py
@@ -71,7 +71,7 @@ Caveat:
 
     n = t.shape[0]
     u = max(0, n - (k-1))  # number of elements in the output array
-    out = np.empty( (u,), dtype=t.dtype )
+    out = np.empty( (u,), dtype=np.result_type( t.dtype, float ) )
 
     for j in range(u):
         out[j] = sum( t[j:(j+k)] ) / k
-- 
2.43.0


From 7070d2e3af6e7c0bd6be388edc5b911735982219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 069/130] fix: Dynamic.alterFitindex goes wrong when a removed
 parameter is not fitted

---
 BayesicFitting/source/Dynamic.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/Dynamic.py b/BayesicFitting/source/Dynamic.py
index 76ee319..f8cb562 100644
--- a/BayesicFitting/source/Dynamic.py
+++ b/BayesicFitting/source/Dynamic.py
@@ -325,18 +325,22 @@ class Dynamic( object ):
         offset : int
             start index of the parameters of the dynamic model in param
         """
+        kol = offset + location
+
+        if dnp < 0 :                    ## remove the indices of the deleted parameters
+            findex = [k for k in findex if not ( kol + dnp <= k < kol )]
+            dnew = 0
+        else :
+            dnew = dnp
+
         lfin = len( findex )
-        newfi = numpy.zeros( lfin + dnp, dtype=int )
+        newfi = numpy.zeros( lfin + dnew, dtype=int )
 
         k = 0
-        kol = offset + location
-
-        kh = kol if dnp > 0 else kol + dnp
-#        while findex[k] >=0 and findex[k] < kh :    ## copy first parts
-        while k < lfin and findex[k] >=0 and findex[k] < kh :    ## copy first parts
+        while k < lfin and findex[k] >=0 and findex[k] < kol :    ## copy first parts
             newfi[k] = findex[k]
             k += 1
-        kl = k if dnp > 0 else k - dnp              ## where we are if findex
+        kl = k
 
         for i in range( dnp ) :                     ## insert extra indices if dnp>0
             newfi[k] = kol + i
-- 
2.43.0


From 0a2d8981a085c6da60a45806a96166272630cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 070/130] fix: SplinesDynamicModel.grow and vary never end when
 there is no room between the knots

---
 BayesicFitting/source/SplinesDynamicModel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 8574247..6a63be7 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -218,6 +218,9 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
 
         nrknots = len( self.knots )
         npars = self.npbase
+        if not numpy.any( numpy.diff( self.knots ) > 2 * self.minDistance ) :
+            return False                    ## no room for another knot
+
         while True :
             newkn = rng.rand() * ( self.knots[-1] - self.knots[0] ) + self.knots[0]
             k = 1
@@ -342,6 +345,8 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         kk = location if location is not None else rng.randint( nrknots - 2 ) + 1
 
         newkn = self.knots[kk]
+        if self.knots[kk+1] - self.knots[kk-1] <= 2 * self.minDistance :
+            return False                    ## no room to move the knot
 
         while True :
             rn = ( rng.rand() + rng.rand() ) - 1
-- 
2.43.0


From cc1a1318d1b03e8de439c74b1b38f674f68282f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 071/130] fix: SplinesDynamicModel.grow puts parameters outside
 the limits of their prior

---
 BayesicFitting/source/SplinesDynamicModel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 6a63be7..9950880 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -250,8 +250,10 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
 
 #        print( "grow    ", nrknots, location, offset, k, kl, newkn )
 
-        mdlpar[kl-1] *= 0.7
-        value = mdlpar[kl-1]
+        value = mdlpar[kl-1] * 0.7
+        if head.hasPriors( isBound=False ) and head.getPrior( kl-1 ).isOutOfLimits( value ) :
+            value = mdlpar[kl-1]
+        mdlpar[kl-1] = value
         mdlpar = self.alterParameters( mdlpar, location, dnp, offset, value=value )
 
         setatt( self._head, "parameters", mdlpar )
-- 
2.43.0


From 2cc5072272ae5e54f839e3cdc571baacf109b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 072/130] fix: SplinesDynamicModel.shrink uses the wrong prior
 inside a compound model

---
 BayesicFitting/source/SplinesDynamicModel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 9950880..2d376f6 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -304,10 +304,11 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         ## new value is the weighted average of the joined parameters
         value = 1.4 * ( mdlpar[kl] * r1 + mdlpar[kl+1] * r2 )
 
-        if self.getPrior( kl ).isOutOfLimits( value ) :
-            value = ( self.getPrior( kl ).stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
+        prior = head.getPrior( kl )         ## kl is an index in the full parameter list
+        if prior.isOutOfLimits( value ) :
+            value = ( prior.stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
 
-        if self.getPrior( kl ).isOutOfLimits( value ) :
+        if prior.isOutOfLimits( value ) :
             print( "New shrink value out of limit" )
             print( "Knots ", k, fmt( r1 ), fmt( r2 ), fmt( dis ), fmt( self.knots, max=None ) )
             print( "Pars  ", fmt( mdlpar, max=None ) )
-- 
2.43.0


From 1f6fd8701c0572f00cea1d2991c72b6dfc8d115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 073/130] fix: SplinesDynamicModel.vary fails at the last knot

---
 BayesicFitting/source/SplinesDynamicModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 2d376f6..510a846 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -342,7 +342,7 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
     def vary( self, rng=None, location=None ) :
 
         nrknots = len( self.knots )
-        if nrknots <= 2 or location == 0 or location == nrknots :
+        if nrknots <= 2 or location == 0 or location == nrknots - 1 :
             return False
 
         kk = location if location is not None else rng.randint( nrknots - 2 ) + 1
-- 
2.43.0


From 1415a22c84b7a5255d1c33a653067a566a02aba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 074/130] fix: DecisionTreeModel without branches returns a
 scalar

---
 BayesicFitting/source/DecisionTreeModel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 0016c91..2db9598 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -323,7 +323,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         kpar = 0
         if self.isLeaf() :
-            return params[0]
+            res += params[0]
+            return res
 
         res, kpar = self.recursiveResult( xdata, params, kpar, plist, res )
 
-- 
2.43.0


From 4b98605805d47e6052648de28d33ca3e107d968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 075/130] fix: DecisionTreeModel grows and shrinks wrongly
 inside a compound model

---
 BayesicFitting/source/DecisionTreeModel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 2db9598..f1908b2 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -774,7 +774,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         ## count leafs (parameters) and branches (components)
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
+        dnp = cleaf - self.npbase
 
         ## duplicate the parameter
         value = self._head.parameters[offset+location]
@@ -834,8 +834,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         setatt( parent, "dimension", None )
 
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
-        location = min( location - dnp, self.npars )
+        dnp = cleaf - self.npbase
+        location = min( location - dnp, self.npbase )
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
-- 
2.43.0


From ccc21415d1253cb62bbc8b1299fe84d51ca95ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 076/130] fix: DecisionTreeModel.shrink removes the parameter
 of another branch

---
 BayesicFitting/source/DecisionTreeModel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index f1908b2..92776c0 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -826,6 +826,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         if parent is None :
             return False
 
+        isrite = ( leaf is parent.rite )
 
         ## Erase the branch by putting the leafs to None
         setatt( parent, "left", None )
@@ -835,7 +836,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         cleaf, cbran = self.count()
         dnp = cleaf - self.npbase
-        location = min( location - dnp, self.npbase )
+        ## a left leaf is followed by the other leaves of the branch, a right leaf is preceeded
+        location = location + 1 if isrite else location - dnp
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
-- 
2.43.0


From a9ec5815d3b0399bd38a58bcd5b48b241c75e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 077/130] fix: DecisionTreeModel does not split when there are
 NaNs

---
 BayesicFitting/source/DecisionTreeModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 92776c0..c61e705 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -287,8 +287,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         xd = Tools.getColumnData( xdata, self.dimension )[plist]        ## working data
 
         if self.split is not None :
-            mn = numpy.min( xd )
-            mx = numpy.max( xd )
+            mn = numpy.nanmin( xd )
+            mx = numpy.nanmax( xd )
 
             split = mn + ( mx - mn ) * self.split
             ### add NAN values to the smallest fraction
-- 
2.43.0


From 267bb886cef9b0ae744d2ec8a21a5945c47ba9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 078/130] fix: DecisionTreeModel.basePartial takes parlist for
 data

---
 BayesicFitting/source/DecisionTreeModel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index c61e705..cf54d23 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -364,17 +364,18 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         """
         ndata = Tools.length( xdata )
-        plist = numpy.arange( ndata, dtype=int ) if parlist is None else parlist
+        plist = numpy.arange( ndata, dtype=int )
 
         kpar = 0
         if self.isLeaf() :
-            return numpy.ones( (ndata,1), dtype=float )
+            part = numpy.ones( (ndata,1), dtype=float )
+            return part if parlist is None else part[:,parlist]
 
         part = numpy.zeros( (ndata, self.npbase), dtype=float )
 
         part, kpar = self.recursivePartial( xdata, kpar, plist, part )
 
-        return part
+        return part if parlist is None else part[:,parlist]
 
     def recursivePartial( self, xdata, kpar, plist, part ) :
         """ For internal use only """
-- 
2.43.0


From a97a01ddb6d603f6563d9e46cf0d0f323201feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 079/130] fix: DecisionTreeModel.vary can end up with an empty
 mask

---
 BayesicFitting/source/DecisionTreeModel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index cf54d23..a636e68 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -903,6 +903,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 else :                                  ## change 1 bit
                     kr = rng.randint( itype )
                     mask = parent.mask ^ ( 0x1 << kr )
+                    if mask == 0 :                      ## never an empty mask
+                        mask = parent.mask
                 setatt( parent, "mask", mask )
 
         else :
-- 
2.43.0


From 981659963a2599cd8fea502d36d20b79692f00d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 080/130] fix: DecisionTreeModel.copy loses the dynamic setting
 and shares the growPrior

---
 BayesicFitting/source/DecisionTreeModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index a636e68..bc9a8bc 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -193,7 +193,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             setatt( self, "nsplit", self.NSPLITPRIOR )
             self.setLimits( lowLimits=0.0, highLimits=1.0 )
         else :
-            setatt( self, "growPrior", copy.growPrior )
+            setatt( self, "growPrior", copy.growPrior.copy() )
             setatt( self, "ncomp", copy.ncomp )
             setatt( self, "nsplit", copy.nsplit )
             setatt( self, "itypes", copy.itypes )
@@ -216,7 +216,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
     def copy( self ):
         """ Copy method.  """
 
-        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable )
+        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable, dynamic=self.dynamic )
 
         if self.dimension is not None :
             setatt( dtm, "dimension", self.dimension )
-- 
2.43.0


From 184b3e4ba8f35a2c32283a34e5be016a5ed8a345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 081/130] fix: DecisionTreeModel.vary leaves the old split or
 mask in place

---
 BayesicFitting/source/DecisionTreeModel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index bc9a8bc..a153b63 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -256,8 +256,10 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         if itype == 0 :         ## float
             setatt( self, "split", split )
+            setatt( self, "mask", None )
         else :                  ## boolean (1) or categorial (>1)
             setatt( self, "mask", int( split * ( 0x1 << itype ) + 1 ) )
+            setatt( self, "split", None )
 
     def isLeaf( self ) :
         """
@@ -891,12 +893,14 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 else :                                  ## shift nearby
                     split = ( self.nsplit * parent.split + rng.rand() ) / ( self.nsplit + 1 )
                 setatt( parent, "split", split )
+                setatt( parent, "mask", None )
             elif itype == 1 :                           ## make new mask
                 if parent.mask is None :
                     mask = rng.randint( 2 ) + 1
                 else :                                  ## exchange bits
                     mask = 2 if parent.mask == 1 else 1
                 setatt( parent, "mask", mask )
+                setatt( parent, "split", None )
             else :
                 if parent.mask is None :                ## make new mask
                     mask = rng.randint( 0x1 << itype ) + 1
@@ -906,6 +910,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                     if mask == 0 :                      ## never an empty mask
                         mask = parent.mask
                 setatt( parent, "mask", mask )
+                setatt( parent, "split", None )
 
         else :
             parent = self.findBranch( location )
-- 
2.43.0


From 047063c7cb7f0d60bf722b6355148c9aa2ae50e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 082/130] fix: SplinesDynamicModel.vary changes the knots of
 the caller

---
 BayesicFitting/source/SplinesDynamicModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 510a846..2b77ae3 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -138,6 +138,7 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         self.deltaNpar = 1
 
         if copy is None :
+            setatt( self, "knots", self.knots.copy() )      ## they are changed in vary
             minDistance *= ( self.knots[-1] - self.knots[0] ) / nrknots
             setatt( self, "minDistance", minDistance )
             self.setGrowPrior( growPrior=growPrior, min=minKnots, max=maxKnots,
-- 
2.43.0


From 673f2903c364ccfc56b1962e1830863e6ab7368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 083/130] fix: modifiable models are not recognised when they
 are not the first in a compound model

---
 BayesicFitting/source/Model.py           | 11 +++++++++++
 BayesicFitting/source/StructureEngine.py |  5 ++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 92c12b4..2ef29fc 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1022,6 +1022,17 @@ class Model( FixedModel ):
 
         return False
 
+    def isModifiable( self ) :
+        """
+        Return whether the model can change its structure.
+        """
+        if super( Model, self ).isModifiable() :
+            return True
+        elif self._next is not None :
+            return self._next.isModifiable()
+
+        return False
+
     #  *****PRIOR***************************************************************
     def hasPriors( self, isBound=True ) :
         """
diff --git a/BayesicFitting/source/StructureEngine.py b/BayesicFitting/source/StructureEngine.py
index 787b0e1..6c146a5 100644
--- a/BayesicFitting/source/StructureEngine.py
+++ b/BayesicFitting/source/StructureEngine.py
@@ -100,7 +100,10 @@ class StructureEngine( Engine ):
         self.reportCall()
 
         t = 0
-        perm = self.rng.permutation( self.walkers[kw].problem.model.ncomp - 2 )     ## TBC
+        model = self.walkers[kw].problem.model
+        while not isinstance( model, Modifiable ) :
+            model = model._next
+        perm = self.rng.permutation( model.ncomp - 2 )     ## TBC
         for p in perm :
             update = len( self.walkers ) if append else kw
             dt = self.executeOnce( kw, lowLhood, update, location=p+1 )
-- 
2.43.0


From c0d87e0b10b6908d13fd7ced3f0cf1227e6e4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 084/130] fix: DecisionTreeModel made from a code has only one
 parameter

---
 BayesicFitting/source/DecisionTreeModel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index a153b63..efe06cc 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -210,7 +210,13 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 del( child.priors )
 
         if code is not None :
-            self = self.decode( code, kdim, split, 0 )
+            self.decode( code, kdim, split, 0 )
+            cleaf, cbran = self.count()
+            for name in ["npmax", "npbase", "_npchain"] :
+                setatt( self, name, cleaf )
+            self.parameters = numpy.zeros( cleaf, dtype=float )
+            self.alterParameterNames( cleaf - 1 )
+            setatt( self, "ncomp", cbran )
 
 
     def copy( self ):
-- 
2.43.0


From 7e78d1ae784517aeed42435627cb2a8374299b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 085/130] fix: RandomEngine fails, or uses the ranges of other
 parameters, when some parameters are kept fixed

---
 BayesicFitting/source/RandomEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RandomEngine.py b/BayesicFitting/source/RandomEngine.py
index 9d3fa11..474da18 100644
--- a/BayesicFitting/source/RandomEngine.py
+++ b/BayesicFitting/source/RandomEngine.py
@@ -121,7 +121,7 @@ class RandomEngine( Engine ):
         t = 0
         for tt in range( self.nstep ) :
             ptry = param.copy()
-            uval = self.rng.uniform( um, ux, nap )
+            uval = self.rng.uniform( um[fi], ux[fi], nf )
             ptry[fi] = self.unit2Domain( problem, uval, kpar=fi )
 
             Ltry = self.errdis.logLikelihood( problem, ptry )
-- 
2.43.0


From 45afd947f652ee3a70f216681283a58f66741bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 086/130] fix: StartEngine searches from the dynamic part of a
 compound model when it needs another trial

---
 BayesicFitting/source/StartEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index d059b18..88c7694 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -88,7 +88,6 @@ class StartEngine( Engine ):
         """
         walker = self.walkers[kw]
         problem = walker.problem
-        model = problem.model
         fitIndex = walker.fitIndex
         allp = walker.allpars.copy()
 
@@ -102,6 +101,7 @@ class StartEngine( Engine ):
         ktry = 0
         while True :
 
+            model = problem.model
             if model.isDynamic() :
                 np0 = model.npars
                 off = 0
-- 
2.43.0


From bb0dc45eef1da3e29416907f612e7893c545a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 087/130] fix: StartEngine sets (hyper)parameters that are kept
 fixed to zero for dynamic models

---
 BayesicFitting/source/StartEngine.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index 88c7694..f5c4dd9 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -91,9 +91,6 @@ class StartEngine( Engine ):
         fitIndex = walker.fitIndex
         allp = walker.allpars.copy()
 
-        npar = len( allp )
-        onp = problem.npars
-
         maxtrials = self.maxtrials
         if hasattr( self.errdis, "constrain" ) and callable( self.errdis.constrain ) :
             maxtrials *= 100
@@ -104,6 +101,7 @@ class StartEngine( Engine ):
             model = problem.model
             if model.isDynamic() :
                 np0 = model.npars
+                model.parameters = allp[:np0]
                 off = 0
 
                 ## find the model in the chain that is actually dynamic
@@ -117,13 +115,12 @@ class StartEngine( Engine ):
                 ## Grow the dynamic model a number of times according to growPrior
                 while ( model.ncomp < model.growPrior.unit2Domain( self.rng.rand() ) and
                         model.grow( offset=off, rng=self.rng ) ) :
-                    np1 = model.npars
-                    dnp = np1 - np0
+                    dnp = model.npbase - npbase
                     fitIndex = model.alterFitindex( fitIndex, npbase, dnp, off )
                     npbase = model.npbase
-                    np0 = np1
 
-                allp = numpy.zeros( npar + np0 - onp, dtype=float )
+                ## grown model parameters, plus the (hyper)parameters after it
+                allp = numpy.append( problem.model.parameters, allp[np0:] )
 
             uval = self.rng.rand( len( fitIndex ) )
 
-- 
2.43.0


From 90a82e859ac764fe01ad0a4a5446a8c5602fa8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 088/130] fix: bestBoost fails on the first step and never
 improves without hyperparameters

---
 BayesicFitting/source/Engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Engine.py b/BayesicFitting/source/Engine.py
index 11ce21f..0339e6a 100644
--- a/BayesicFitting/source/Engine.py
+++ b/BayesicFitting/source/Engine.py
@@ -200,7 +200,7 @@ class Engine( object ):
         """
         wlist = self.phantoms.getList( walker )
 
-        if wlist is None or wlist[-1].logL >= walker.logL :
+        if wlist is None or len( wlist ) == 0 or wlist[-1].logL >= walker.logL :
             return
 
 #        print( "Best   ", fmt( walker.logL ) )
@@ -208,7 +208,7 @@ class Engine( object ):
 
         problem = walker.problem
         nh = self.errdis.nphypar
-        par0 = walker.allpars[:-nh]
+        par0 = walker.allpars[:-nh] if nh > 0 else walker.allpars
         try :
             self.fitter.model = problem.model
             pars = self.fitter.fit( problem.ydata, par0=par0 )
-- 
2.43.0


From 0e106b550f9f896b3d2c5f4f71d890c709a1531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 089/130] fix: bestBoost moves walkers outside the limits and
 changes parameters that are kept fixed

---
 BayesicFitting/source/Engine.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/Engine.py b/BayesicFitting/source/Engine.py
index 0339e6a..bb7ea59 100644
--- a/BayesicFitting/source/Engine.py
+++ b/BayesicFitting/source/Engine.py
@@ -211,16 +211,20 @@ class Engine( object ):
         par0 = walker.allpars[:-nh] if nh > 0 else walker.allpars
         try :
             self.fitter.model = problem.model
-            pars = self.fitter.fit( problem.ydata, par0=par0 )
+            keep = { k : par0[k] for k in range( len( par0 ) ) if k not in walker.fitIndex }
+            pars = self.fitter.fit( problem.ydata, par0=par0, keep=keep )
         except :
             return
 
-        if nh == 0 :
-            ptry = pars
-        elif walker.fitIndex[-1] == -1 :
-            ptry = numpy.append( pars, self.fitter.getScale() )
-        else :
-            ptry = numpy.append( pars, walker.allpars[-1] )
+        ptry = numpy.append( pars, walker.allpars[len( pars ):] )
+        if nh > 0 and -nh in walker.fitIndex :
+            ptry[-nh] = self.fitter.getScale()
+
+        ## leave the walker as it is when the optimum is outside the limits
+        for k in walker.fitIndex :
+            prior = problem.model.getPrior( k ) if k >= 0 else self.errdis.hyperpar[k].prior
+            if prior.isOutOfLimits( ptry[k] ) :
+                return
 
         Ltry = self.errdis.logLikelihood( problem, ptry )
 
-- 
2.43.0


From 36bf993d47aff2d6ff481a02a9e8192ab6c1d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 090/130] fix: NestedSampler ignores the fitter provided as
 bestBoost

---
 BayesicFitting/source/NestedSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index a8efa2b..10c4710 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -884,7 +884,7 @@ class NestedSampler( object ):
                 self.copyWalker = self.copyWalkerFromDynamicPhantoms
             else :
                 self.copyWalker = self.copyWalkerFromPhantoms
-        elif name == "bestUpdate" :
+        elif name == "bestBoost" :
 
             self.myFitter = None
             if Tools.subclassof( value, BaseFitter ) :
-- 
2.43.0


From 73fc304ffba2d174b09ccab0cab52650444345b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 091/130] fix: WalkerList.insertWalker changes the id of a
 walker that is the first in the list

---
 BayesicFitting/source/WalkerList.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/WalkerList.py b/BayesicFitting/source/WalkerList.py
index 75e75b2..137b30d 100644
--- a/BayesicFitting/source/WalkerList.py
+++ b/BayesicFitting/source/WalkerList.py
@@ -179,7 +179,8 @@ class WalkerList( list ):
         """
         klow = self.firstIndex( walker.logL )
         if klow is None :
-            self.setWalker( walker, 0 )
+            self.append( walker )
+            self._count += 1
             return self
 
         cnt = self._count
-- 
2.43.0


From adcdda88d22a709c92b223537ed7eac6de86cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 092/130] fix: GalileanEngine and ChordEngine fail on walkers
 that have shrunk to no parameters at all

---
 BayesicFitting/source/ChordEngine.py    | 2 ++
 BayesicFitting/source/GalileanEngine.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/BayesicFitting/source/ChordEngine.py b/BayesicFitting/source/ChordEngine.py
index d52dcb0..9ab7798 100644
--- a/BayesicFitting/source/ChordEngine.py
+++ b/BayesicFitting/source/ChordEngine.py
@@ -129,6 +129,8 @@ class ChordEngine( Engine ):
         problem = walker.problem
         fitIndex = walker.fitIndex
         np = len( fitIndex )
+        if np == 0 :                        # nothing to move
+            return 0
 
         param = walker.allpars
         usav = self.domain2Unit( problem, param[fitIndex], kpar=fitIndex )
diff --git a/BayesicFitting/source/GalileanEngine.py b/BayesicFitting/source/GalileanEngine.py
index 137872d..92299d1 100644
--- a/BayesicFitting/source/GalileanEngine.py
+++ b/BayesicFitting/source/GalileanEngine.py
@@ -121,6 +121,8 @@ class GalileanEngine( Engine ):
         Lhood = walker.logL
         allpars = walker.allpars
         fitIndex = walker.fitIndex
+        if len( fitIndex ) == 0 :           # nothing to move
+            return 0
 
         inside = 0
         Ltry = 0
-- 
2.43.0


From 22f76aaedb41d05f70c057fcbb7899fdd99a2ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 093/130] fix: bestBoost fails when there are not enough data
 to obtain the scale

---
 BayesicFitting/source/Engine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/Engine.py b/BayesicFitting/source/Engine.py
index bb7ea59..2720e19 100644
--- a/BayesicFitting/source/Engine.py
+++ b/BayesicFitting/source/Engine.py
@@ -213,13 +213,12 @@ class Engine( object ):
             self.fitter.model = problem.model
             keep = { k : par0[k] for k in range( len( par0 ) ) if k not in walker.fitIndex }
             pars = self.fitter.fit( problem.ydata, par0=par0, keep=keep )
+            ptry = numpy.append( pars, walker.allpars[len( pars ):] )
+            if nh > 0 and -nh in walker.fitIndex :
+                ptry[-nh] = self.fitter.getScale()
         except :
             return
 
-        ptry = numpy.append( pars, walker.allpars[len( pars ):] )
-        if nh > 0 and -nh in walker.fitIndex :
-            ptry[-nh] = self.fitter.getScale()
-
         ## leave the walker as it is when the optimum is outside the limits
         for k in walker.fitIndex :
             prior = problem.model.getPrior( k ) if k >= 0 else self.errdis.hyperpar[k].prior
-- 
2.43.0


From 7c644bda0adb7bedccdf08b0b28b6d0341ee2b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 094/130] fix: ChordEngine moves a walker that is exactly at a
 limit outside of the limits

---
 BayesicFitting/source/ChordEngine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/ChordEngine.py b/BayesicFitting/source/ChordEngine.py
index 9ab7798..35c68c7 100644
--- a/BayesicFitting/source/ChordEngine.py
+++ b/BayesicFitting/source/ChordEngine.py
@@ -186,8 +186,9 @@ class ChordEngine( Engine ):
                 print( "tte   ", fma( tt[10:] ) )
 
             ## find smallest entrance and exit times
-            t1 = numpy.min( numpy.where( tt > 0, tt, +math.inf ) )
-            t0 = numpy.max( numpy.where( tt < 0, tt, -math.inf ) )
+            tt = tt.reshape( 2, -1 )
+            t1 = max( numpy.nanmin( numpy.max( tt, 0 ) ), 0 )   # 0 if it is at the edge
+            t0 = min( numpy.nanmax( numpy.min( tt, 0 ) ), 0 )
 
             ## same now for the values at the edges of the unit box (0,1)
             if self.debug :
@@ -213,7 +214,7 @@ class ChordEngine( Engine ):
                 kk += 1
 
                 # assert t0 < 0 < t1, "%f < %f < %f"%(t0,0,t1)
-                if not ( t0 < 0 < t1 and math.isfinite( t0 ) and math.isfinite( t1 ) ) : 
+                if not ( t0 <= 0 <= t1 and t0 < t1 and math.isfinite( t0 ) and math.isfinite( t1 ) ) : 
                     break
 
                 ## dt is timestep wrt. usav (at 0)
-- 
2.43.0


From 932ac1b599e012ed58920da108ed42f48ad07061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 095/130] fix: Explorer.logLcheck fails on problems with errors
 in x and y

---
 BayesicFitting/source/Explorer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index ab2bf6f..0bb4997 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -254,10 +254,11 @@ class Explorer( object ):
         ValueError at inconsistency.
 
         """
-        walker.check( nhyp=self.errdis.nphypar )
+        nuisance = walker.problem.npars - walker.problem.model.npars
+        walker.check( nhyp=self.errdis.nphypar, nuisance=nuisance )
 
         wlogL = self.errdis.logLikelihood( walker.problem, walker.allpars )
-        if walker.problem.model.npars < len( walker.allpars ) - self.errdis.nphypar :
+        if walker.problem.npars < len( walker.allpars ) - self.errdis.nphypar :
             Tools.printclass( walker )
             print( "Iteration %4d %4d %10.3f  %10.3f" % ( self.iteration, walker.id, walker.logL, wlogL ) )
             print( fmt( walker.allpars, max=None ) )
-- 
2.43.0


From ff66d11a049266f44d9b9ef5190693b3f0e7c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 096/130] fix: NestedSampler does not store the evidence in the
 samples

---
 BayesicFitting/source/NestedSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 10c4710..1a0094e 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -470,7 +470,7 @@ class NestedSampler( object ):
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
 
         # Calculate weighted average and stdevs for the parameters;
-        self.samples.LogZ = self.logZ
+        self.samples.logZ = self.logZ
         self.samples.info = self.info
         self.samples.normalize( )
 
-- 
2.43.0


From a45eb99b2e03741cf91bcad08b5c95bc530c9285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 097/130] fix: NestedSampler fails on keep when some
 hyperparameters are not fitted

---
 BayesicFitting/source/NestedSampler.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 1a0094e..db9cee2 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -538,14 +538,11 @@ class NestedSampler( object ):
         nh = self.distribution.nphypar
         if keep is not None :
             fitl = []
-            kkeys = list( keep.keys() )
-            for k in range( np + nh ) :
-                if k in kkeys :
-                    allpars[k] = keep[k]                    # save keep.value in allpars
-                elif fitlist[k] in kkeys :
-                    allpars[k] = keep[fitlist[k]]           # save keep.value in allpars
-                else :
-                    fitl += [fitlist[k]]                    # list of pars to be fitted
+            for k in keep :
+                allpars[k] = keep[k]                        # save keep.value in allpars
+            for k in fitlist :
+                if not ( k in keep or ( k < 0 and np + nh + k in keep ) ) :
+                    fitl += [k]                             # list of pars to be fitted
             fitlist = fitl
 
         return ( fitlist, allpars )
-- 
2.43.0


From 1229bd69fffd8ecfee061deb66b6437511d057e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 098/130] fix: NestedSampler takes the remaining walkers in
 arbitrary order, so the last sample is not the best

---
 BayesicFitting/source/NestedSampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index db9cee2..ecd10f9 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -467,6 +467,7 @@ class NestedSampler( object ):
 
 
         # End of Sampling: Update and store the remaining walkers
+        self.walkers.sort( key=self.walkerLogL )
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
 
         # Calculate weighted average and stdevs for the parameters;
-- 
2.43.0


From 11ce1795db78b5bcbb7b761b9c3e2e4b24fe6abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 099/130] fix: NestedSampler assigns wrong prior mass and
 information when more than one walker is discarded and at the end

---
 BayesicFitting/source/NestedSampler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index ecd10f9..3cb25bd 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -434,7 +434,7 @@ class NestedSampler( object ):
         self.logZ = -sys.float_info.max
         self.logdZ = 0
         self.info = 0
-        self.logWidth = math.log( 1.0 - math.exp( -1.0 / self.ensemble ) )
+        self.logWidth = 0.0                     # log of the remaining prior mass
 
 #        TBD put self.logWidth in the saved file too
 #        if self.optionalRestart() :
@@ -761,13 +761,16 @@ class NestedSampler( object ):
         """
 
         for kw in range( worst ) :
-            logWeight = self.logWidth + self.walkers[kw].logL + self.walkers[kw].logPrior
+            # part of the remaining prior mass that is lost with this walker
+            dlw = 1.0 / ( self.ensemble - kw )
+            logL = self.walkers[kw].logL + self.walkers[kw].logPrior
+            logWeight = self.logWidth + math.log( 1.0 - math.exp( -dlw ) ) + logL
 
             # update evidence, logZ
             logZnew = numpy.logaddexp( self.logZ, logWeight )
 
             # update Information, H
-            self.info = ( math.exp( logWeight - logZnew ) * self.lowLhood +
+            self.info = ( math.exp( logWeight - logZnew ) * logL +
                     math.exp( self.logZ - logZnew ) * ( self.info + self.logZ ) - logZnew )
 
             if math.isnan( self.info ) :
@@ -778,7 +781,7 @@ class NestedSampler( object ):
             smpl = self.walkers[kw].toSample( logWeight )
             self.samples.add( smpl )
 
-            self.logWidth -= 1.0 / ( self.ensemble - kw )
+            self.logWidth -= dlw
 
         self.logdZ = logWeight - self.logZ
 
-- 
2.43.0


From ecd4090f8cfdb13499c19e556280d31710148f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 100/130] fix: NestedSampler returns more than maxsize samples

---
 BayesicFitting/source/NestedSampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 3cb25bd..cf13530 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -470,6 +470,8 @@ class NestedSampler( object ):
         self.walkers.sort( key=self.walkerLogL )
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
 
+        self.samples.weed( self.maxsize )           # remove overflow in samplelist
+
         # Calculate weighted average and stdevs for the parameters;
         self.samples.logZ = self.logZ
         self.samples.info = self.info
-- 
2.43.0


From 04a7b6df5fbac6d480e275fa9de1128eafa67f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 101/130] fix: NestedSampler.sample mixes the samples and
 phantoms of successive calls

---
 BayesicFitting/source/NestedSampler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index cf13530..1267c5b 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -492,6 +492,13 @@ class NestedSampler( object ):
             keep = self.keep
         fitIndex, allpars = self.makeFitlist( keep=keep )
 
+        ## forget about a previous run
+        self.iteration = 0
+        self.samples = SampleList( self.problem.model, 0, ndata=self.problem.ndata )
+        self.phantoms = PhantomCollection( dynamic=self.problem.isDynamic() )
+        for eng in self.engines :
+            eng.phantoms = self.phantoms
+
         if ensemble is None :
             ensemble = self.ensemble
         self.initWalkers( ensemble, allpars, fitIndex )
-- 
2.43.0


From 638667a38c57b919437cd91d7e0b754a9afec193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 102/130] fix: explorer threads interfere with each other in
 the phantoms they share

---
 BayesicFitting/source/PhantomCollection.py | 30 +++++++++++++---------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/BayesicFitting/source/PhantomCollection.py b/BayesicFitting/source/PhantomCollection.py
index c88c940..b84dc25 100644
--- a/BayesicFitting/source/PhantomCollection.py
+++ b/BayesicFitting/source/PhantomCollection.py
@@ -1,5 +1,6 @@
 import numpy as numpy
 import math
+from threading import RLock
 
 from .Walker import Walker
 from .WalkerList import WalkerList
@@ -76,6 +77,7 @@ class PhantomCollection( object ):
             whether it is a dynamic model
         """
         self.minpars = self.MINPARS
+        self.lock = RLock()         ## the explorer threads share the phantoms
         self.ncalls = 0
             
         if dynamic :
@@ -128,8 +130,9 @@ class PhantomCollection( object ):
         walker : Walker
             to be added to the PhantomCollection
         """
-        self.ncalls += 1
-        self.phantoms = self.phantoms.insertWalker( walker )
+        with self.lock :
+            self.ncalls += 1
+            self.phantoms = self.phantoms.insertWalker( walker )
 
     def calculateParamMinmax( self, lowLhood, np=0 ):
         """
@@ -167,10 +170,11 @@ class PhantomCollection( object ):
             number of parameters (not used in this implementation)
 
         """
-        if lowLhood > self.lowLhood :
-            self.calculateParamMinmax( lowLhood, np=np )
+        with self.lock :
+            if lowLhood > self.lowLhood :
+                self.calculateParamMinmax( lowLhood, np=np )
 
-        return ( self.paramMin, self.paramMax )
+            return ( self.paramMin, self.paramMax )
 
     ##  Dynamic methods
 
@@ -210,12 +214,13 @@ class PhantomCollection( object ):
         pars : 1d array
             parameters
         """
-        self.ncalls += 1
         np = walker.problem.npars
-        if not np in self.phantoms :
-            self.phantoms[np] = WalkerList()
+        with self.lock :
+            self.ncalls += 1
+            if not np in self.phantoms :
+                self.phantoms[np] = WalkerList()
 
-        self.phantoms[np] = self.phantoms[np].insertWalker( walker )
+            self.phantoms[np] = self.phantoms[np].insertWalker( walker )
 
     def calculateDynamic( self, lowLhood, np=0 ):
         """
@@ -259,9 +264,10 @@ class PhantomCollection( object ):
             number of parameters
 
         """
-        if not np in self.lowLhood or lowLhood > self.lowLhood[np] or self.paramMin[np] is None :
-            self.calculateDynamic( lowLhood, np=np )
-        return ( self.paramMin[np], self.paramMax[np] )
+        with self.lock :
+            if not np in self.lowLhood or lowLhood > self.lowLhood[np] or self.paramMin[np] is None :
+                self.calculateDynamic( lowLhood, np=np )
+            return ( self.paramMin[np], self.paramMax[np] )
 
 
 
-- 
2.43.0


From 70e80b40008d0c05c7741d6654c37f0ed61cc5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 103/130] fix: one error in a thread makes all later
 explorations with threads fail

---
 BayesicFitting/source/Explorer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index 0bb4997..b11f883 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -118,6 +118,7 @@ class Explorer( object ):
 
         ## We have Threads
         explorerThreads = []
+        threadErrors.clear()                ## of previous explorations
         self.lowLhood = lowLhood
 
         nrep = Engine.NCALLS
-- 
2.43.0


From 7a8d88ef914dbc1ceb850a6998b0192ab8a0fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 104/130] fix: PhantomSampler removes no walkers at all, and
 fails, when the ensemble is small

---
 BayesicFitting/source/PhantomSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index 58c6858..258629e 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -225,7 +225,7 @@ class PhantomSampler( NestedSampler ):
 
     def __getattr__( self, name ) :
         if name == "worst" :
-            return int( ( len( self.walkers ) * self.step ) // 100 )
+            return max( 1, int( ( len( self.walkers ) * self.step ) // 100 ) )
         else :
             return super().__getattr__( name )
 
-- 
2.43.0


From 1d76671afa581764c1ed2a597449c5478febb152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 105/130] fix: PhantomSampler fails when more than 6 percent of
 the walkers are replaced

---
 BayesicFitting/source/NestedSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 1267c5b..b53cbc0 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -460,7 +460,7 @@ class NestedSampler( object ):
 
             self.updateWalkers( explorer, worst )
 
-            newL = self.walkers[worst-1].logL
+            newL = self.walkers[self.worst-1].logL      # the ensemble might have shrunk
             self.histinsert += [self.walkers.firstIndex( newL )]
 
             self.optionalSave( )
-- 
2.43.0


From 6211c24af14af1e7c2c8205f33fc8a58bc11f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 106/130] fix: PhantomSampler throws away its best walkers,
 resulting in a wrong evidence

---
 BayesicFitting/source/PhantomSampler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index 258629e..4404502 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -247,6 +247,12 @@ class PhantomSampler( NestedSampler ):
         """
         self.walkers[:worst] = []
 
+        ks = len( self.walkers )                # the survivors
+        if ks >= self.initEnsemble :            # after the initial exploration: select any of them
+            sel = numpy.sort( self.rng.permutation( ks )[:self.initEnsemble] )
+            self.walkers[:] = [self.walkers[k] for k in sel]
+            return
+
 #        e0 = self.engines[0]
 #        print( "updateW  ", worst, len( self.walkers ), fma( e0.unitRange, linelength=200 ) )
 
@@ -259,7 +265,6 @@ class PhantomSampler( NestedSampler ):
 
 
         while len( self.walkers ) > self.initEnsemble :
-            ks = self.initEnsemble - self.step
             k = ks + self.rng.randint( self.ensemble - ks - 1 )
 #            print( k, self.ensemble, len( self.walkers ), self.walkers[-1].logL )
             del( self.walkers[k] )
-- 
2.43.0


From 65e26ca328eada3daa0e606287b8f41e61934299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 107/130] fix: NestedSolver fails as soon as a walker cannot be
 moved

---
 BayesicFitting/source/Explorer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index b11f883..156cb32 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -255,8 +255,9 @@ class Explorer( object ):
         ValueError at inconsistency.
 
         """
-        nuisance = walker.problem.npars - walker.problem.model.npars
-        walker.check( nhyp=self.errdis.nphypar, nuisance=nuisance )
+        if walker.problem.model is not None :           # order problems have no model
+            nuisance = walker.problem.npars - walker.problem.model.npars
+            walker.check( nhyp=self.errdis.nphypar, nuisance=nuisance )
 
         wlogL = self.errdis.logLikelihood( walker.problem, walker.allpars )
         if walker.problem.npars < len( walker.allpars ) - self.errdis.nphypar :
@@ -264,7 +265,7 @@ class Explorer( object ):
             print( "Iteration %4d %4d %10.3f  %10.3f" % ( self.iteration, walker.id, walker.logL, wlogL ) )
             print( fmt( walker.allpars, max=None ) )
             raise ValueError( "Inconsistency in length of modelparams (%d) and allpars (%d - %d)" %
-                                ( walker.problem.model.npars, len( walker.allpars ), self.errdis.nphypar ) )
+                                ( walker.problem.npars, len( walker.allpars ), self.errdis.nphypar ) )
 
         if wlogL != walker.logL :
             Tools.printclass( walker )
@@ -273,6 +274,9 @@ class Explorer( object ):
             raise ValueError( "Inconsistency between stored logL %f and calculated logL %f" %
                                 ( walker.logL, wlogL ) )
 
+        if walker.problem.model is None :
+            return
+
         for ki in walker.fitIndex :
 #            if walker.fitIndex[ki] >= 0 :
             if ki < 0 :
-- 
2.43.0


From 3d47d60ec5a37d1ff537e19d32a6769144fdce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 108/130] fix: ShuffleEngine cannot be used in NestedSolver

---
 BayesicFitting/source/ShuffleEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ShuffleEngine.py b/BayesicFitting/source/ShuffleEngine.py
index e5ef5cf..2555009 100644
--- a/BayesicFitting/source/ShuffleEngine.py
+++ b/BayesicFitting/source/ShuffleEngine.py
@@ -75,7 +75,7 @@ class ShuffleEngine( OrderEngine ):
         return str( "ShuffleEngine" )
 
     #  *********EXECUTE***************************************************
-    def execute( self, kw, lowLhood ):
+    def executeOnce( self, kw, lowLhood ):
         """
         Execute the engine by diffusing the parameters.
 
-- 
2.43.0


From 61f4343a3176765ec940d64d06fced0cbb6d6d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 109/130] fix: ReverseEngine reports a move when all were
 rejected

---
 BayesicFitting/source/ReverseEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ReverseEngine.py b/BayesicFitting/source/ReverseEngine.py
index cc009ef..3cd1c70 100644
--- a/BayesicFitting/source/ReverseEngine.py
+++ b/BayesicFitting/source/ReverseEngine.py
@@ -110,6 +110,6 @@ class ReverseEngine( OrderEngine ):
 
         self.reportReject()
 
-        return t                        # nr of succesfull steps
+        return 0                        # no succesfull steps
 
 
-- 
2.43.0


From 238d4f89d0123ec222ea81c73f72fee9cad07959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 110/130] fix: SalesmanProblem fails at an unknown distance in
 stead of using the euclidic one

---
 BayesicFitting/source/SalesmanProblem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/SalesmanProblem.py b/BayesicFitting/source/SalesmanProblem.py
index f52c624..37518a2 100644
--- a/BayesicFitting/source/SalesmanProblem.py
+++ b/BayesicFitting/source/SalesmanProblem.py
@@ -98,6 +98,7 @@ class SalesmanProblem( OrderProblem ):
             return
 
         self.oneway = oneway
+        self.disname = self.DISNAMES[2]             # unless changed below
 
         if callable( distance ) :
             self.distance = distance
@@ -120,10 +121,10 @@ class SalesmanProblem( OrderProblem ):
                 self.disname = self.DISNAMES[4]
                 self.table = table
             else :
-                warnings.warn( "Unknown distance ", distance, " Using euclidic in stead" )
+                warnings.warn( "Unknown distance %s. Using euclidic in stead" % distance )
                 self.distance = self.euclidic
         else :
-            warnings.warn( "Unknown distance ", distance, " Using euclidic in stead" )
+            warnings.warn( "Unknown distance %s. Using euclidic in stead" % distance )
             self.distance = self.euclidic
 
         mindis = self.minimumDistance()
-- 
2.43.0


From b65c9bae6e7ed6f5bc06f64b259b1d8b7aa52f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 111/130] fix: SalesmanProblem fails with a table that is a
 list, and loses the table when it is copied

---
 BayesicFitting/source/SalesmanProblem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SalesmanProblem.py b/BayesicFitting/source/SalesmanProblem.py
index 37518a2..9304ab5 100644
--- a/BayesicFitting/source/SalesmanProblem.py
+++ b/BayesicFitting/source/SalesmanProblem.py
@@ -95,6 +95,8 @@ class SalesmanProblem( OrderProblem ):
             self.disname = copy.disname
             self.scale = copy.scale
             self.oneway = copy.oneway
+            if hasattr( copy, "table" ) :
+                self.table = copy.table
             return
 
         self.oneway = oneway
@@ -119,7 +121,7 @@ class SalesmanProblem( OrderProblem ):
             elif dis == "t" :
                 self.distance = self.tabulated
                 self.disname = self.DISNAMES[4]
-                self.table = table
+                self.table = numpy.asarray( table )
             else :
                 warnings.warn( "Unknown distance %s. Using euclidic in stead" % distance )
                 self.distance = self.euclidic
-- 
2.43.0


From f187dba5d75a5456a20fc0dac003a6d1145ec159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 112/130] fix: SalesmanProblem fails with a user distance of
 the documented form, callable( xdata, pars )

---
 BayesicFitting/source/SalesmanProblem.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/SalesmanProblem.py b/BayesicFitting/source/SalesmanProblem.py
index 9304ab5..4d2295d 100644
--- a/BayesicFitting/source/SalesmanProblem.py
+++ b/BayesicFitting/source/SalesmanProblem.py
@@ -300,9 +300,11 @@ class SalesmanProblem( OrderProblem ):
         """        
         ndata = len( self.xdata[:,0] )
         pars = numpy.arange( ndata, dtype=int )
-        md = self.distance( self.xdata, pars ).min()
-        for roll in range( 2, ndata ) :
-            md = self.distance( self.xdata, pars, roll=roll ).min( initial=md )
+        md = math.inf
+        for roll in range( 1, ndata ) :
+            # go from each node to the one that is roll positions further, and on to the next node
+            pairs = numpy.column_stack( ( pars, numpy.roll( pars, -roll ) ) ).flatten()
+            md = self.distance( self.xdata, pairs )[::2].min( initial=md )
 
         return md
 
-- 
2.43.0


From c291203b6f5f47b7cd9dea01f7d91a4cb41a83cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 113/130] fix: NestedSolver fails when a distribution is
 provided

---
 BayesicFitting/source/NestedSolver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSolver.py b/BayesicFitting/source/NestedSolver.py
index 4deebb1..395ee2a 100644
--- a/BayesicFitting/source/NestedSolver.py
+++ b/BayesicFitting/source/NestedSolver.py
@@ -224,7 +224,7 @@ class NestedSolver( NestedSampler ):
         return str( "NestedSolver" )
 
     #  *********DISTRIBUTIONS***************************************************
-    def setErrorDistribution( self, name=None, scale=1.0, power=2.0 ):
+    def setErrorDistribution( self, name=None, limits=None, scale=1.0, power=2.0 ):
         """
         Set the error distribution for calculating the likelihood.
 
@@ -232,6 +232,8 @@ class NestedSolver( NestedSampler ):
         ----------
         name : string
             name of distribution
+        limits : None
+            not used; there are no hyperparameters
         scale : float
             fixed scale of distribution
         power : float
-- 
2.43.0


From d6ada6ccbecf6e2fef86600554a333c2eb0e1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 114/130] fix: NestedSolver is not reproducible from its seed

---
 BayesicFitting/source/StartOrderEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StartOrderEngine.py b/BayesicFitting/source/StartOrderEngine.py
index 467ce5f..fb43246 100644
--- a/BayesicFitting/source/StartOrderEngine.py
+++ b/BayesicFitting/source/StartOrderEngine.py
@@ -90,7 +90,7 @@ class StartOrderEngine( OrderEngine ):
 
         problem = walker.problem
 #        print( walker.allpars )
-        par = numpy.random.permutation( walker.allpars )
+        par = self.rng.permutation( walker.allpars )
 #        print( par )
 
         logL = self.errdis.logLikelihood( problem, par )
-- 
2.43.0


From f6a667614cba745c95b8667a7a7a0a8359b99cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 115/130] fix: LoopEngine sees crossings that are not there
 when two nodes have the same first coordinate

---
 BayesicFitting/source/LoopEngine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index 8eea677..fd19dca 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -121,6 +121,7 @@ class LoopEngine( OrderEngine ):
         x2, y2 = tuple( problem.xdata[k2,dims] )
         if x1 == x2 :
             dims = [dims[1], dims[0]]           ## reverse dimensional order
+            x1, y1, x2, y2 = y1, x1, y2, x2
             m1 = 0                              ## slope of point k1 to k2
         else :
             m1 = ( y2 - y1 ) / ( x2 - x1 )
-- 
2.43.0


From 64087e816717bced978eef9e583c3db9f394d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 116/130] fix: NearEngine takes wrong nearest neighbours for
 spherical and tabulated distances

---
 BayesicFitting/source/NearEngine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/NearEngine.py b/BayesicFitting/source/NearEngine.py
index 9de6026..8b4c70a 100644
--- a/BayesicFitting/source/NearEngine.py
+++ b/BayesicFitting/source/NearEngine.py
@@ -117,13 +117,13 @@ class NearEngine( OrderEngine ):
         n0 = ptry[0]
         nsel = [n0,ptry[1]]
         if self.nearest[n0] < 0 :                                   # not yet calculated
-            dmin = problem.distance( xd[nsel,:], [0,1] )[0]         # need only one distance
+            dmin = problem.distance( xd, nsel )[0]         # need only one distance
 #            print( 0, fmt( nsel ), fmt( dmin ), fmt( dmin ) )
         
             kmin = 1
             for k in range( 2, np ) :                               # find nearest
                 nsel[1] = ptry[k]
-                d = problem.distance( xd[nsel,:], [0,1] )[0]
+                d = problem.distance( xd, nsel )[0]
 #                print( k, fmt( nsel ), fmt( d ), fmt( dmin ) )
                 if d < dmin :
                     dmin = d
-- 
2.43.0


From b50f9e4a56e807c2768b0bdcaf0f1b855b323969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 117/130] fix: LoopEngine calculates the wrong crossing point
 of two lines

---
 BayesicFitting/source/LoopEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index fd19dca..c0fcada 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -141,7 +141,7 @@ class LoopEngine( OrderEngine ):
 
             else :
                 m3 = ( y4 - y3 ) / ( x4 - x3 )
-                xc = ( y3 - y1 + m3 * x3 - m1 * x1 ) / ( m3 - m1 )
+                xc = ( y1 - y3 + m3 * x3 - m1 * x1 ) / ( m3 - m1 )
                 if Tools.isBetween( x1, xc, x2 ) and Tools.isBetween( x3, xc, x4 ) :
                     break
 
-- 
2.43.0


From 3797676866c85ffa1fb74ca859c1718944d7cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 118/130] fix: NestedSampler cannot make an EvidenceProblem
 from its name

---
 BayesicFitting/source/EvidenceProblem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/EvidenceProblem.py b/BayesicFitting/source/EvidenceProblem.py
index 927d38e..34adb76 100644
--- a/BayesicFitting/source/EvidenceProblem.py
+++ b/BayesicFitting/source/EvidenceProblem.py
@@ -53,7 +53,8 @@ class EvidenceProblem( ClassicProblem ):
     """
 
     #  *************************************************************************
-    def __init__( self, model=None, xdata=None, ydata=None, weights=None, copy=None ):
+    def __init__( self, model=None, xdata=None, ydata=None, weights=None, accuracy=None,
+                copy=None ):
         """
         Constructor for classic problems.
 
@@ -67,6 +68,8 @@ class EvidenceProblem( ClassicProblem ):
             dependent variable
         weights : array_like or None
             weights associated with ydata
+        accuracy : float or array_like or None
+            accuracy scale for the datapoints
         copy : Problem
             to be copied
 
@@ -75,7 +78,7 @@ class EvidenceProblem( ClassicProblem ):
             raise ValueError( "Model needs to be dynamic or modifiable" )
 
         super( ).__init__( model=model, xdata=xdata, ydata=ydata, weights=weights,
-                           copy=copy )
+                           accuracy=accuracy, copy=copy )
 
 
     def copy( self ):
-- 
2.43.0


From 71638324d0e912a9328c2b1df95fd3a72e063e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 119/130] fix: ModelDistribution ignores the weights and
 accuracies of the data

---
 BayesicFitting/source/ModelDistribution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ModelDistribution.py b/BayesicFitting/source/ModelDistribution.py
index 9a353a8..3cca959 100644
--- a/BayesicFitting/source/ModelDistribution.py
+++ b/BayesicFitting/source/ModelDistribution.py
@@ -202,7 +202,10 @@ class ModelDistribution( ScaledErrorDistribution ):
 #        print( "MD Fitr    ", ftr ) 
 
         try :
-            pars = ftr.fit( problem.ydata )
+            fitkw = {"weights" : problem.weights}
+            if problem.hasAccuracy :
+                fitkw["accuracy"] = problem.accuracy
+            pars = ftr.fit( problem.ydata, **fitkw )
             evidence = ftr.getLogZ( limits=mdl.getLimits(), noiseLimits=noiselim )
 
             allpars[:mdl.npars] = pars
-- 
2.43.0


From 8a111048846a1096afb5288d4a3072c0eee656a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 120/130] fix: ModelDistribution mixes up 10log and natural log
 and ignores the scale when NestedSampler is its arbiter

---
 BayesicFitting/source/ModelDistribution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ModelDistribution.py b/BayesicFitting/source/ModelDistribution.py
index 3cca959..9cf310b 100644
--- a/BayesicFitting/source/ModelDistribution.py
+++ b/BayesicFitting/source/ModelDistribution.py
@@ -186,9 +186,13 @@ class ModelDistribution( ScaledErrorDistribution ):
                     kwarbs["engines"] = ["chord", "step"]
                 ns = NestedSampler( model=model, xdata=problem.xdata, ydata=problem.ydata,
                         weights=problem.weights, limits=noiselim, **kwarbs )
+                if noiselim is None and not "distribution" in kwarbs :
+                    ns.setErrorDistribution( scale=fscale )
+
 
                 try :
-                    evidence = ns.sample()
+                    ns.sample()
+                    evidence = ns.logZ              # natural log, as the likelihood
                     allpars[:mdl.npars] = ns.parameters
                     if noiselim is not None :
                         allpars[-1] = ns.scale
-- 
2.43.0


From c90a3222a2332f5ef4e1f2a8bb9d8829485e7b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 121/130] fix: numerical partials fail for models with more
 than one output

---
 BayesicFitting/source/FixedModel.py | 33 ++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index 9ac731b..d766c19 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -330,8 +330,9 @@ class FixedModel( BaseModel ):
             list of indices active parameters (or None for all)
 
         """
-        nxdata = Tools.length( xdata )
-        partial = numpy.zeros( ( nxdata, self.npbase ), dtype=float  )
+        shape = ( Tools.length( xdata ), self.npbase )
+        partial = ( numpy.zeros( shape, dtype=float ) if self.ndout == 1 else
+                  [ numpy.zeros( shape, dtype=float ) for k in range( self.ndout )] )
         dpg = Tools.makeNext( self.deltaP, 0 )
 
         par = params.copy()
@@ -344,7 +345,7 @@ class FixedModel( BaseModel ):
             r1 = FixedModel.result( self, xdata, par )
             par[k] -= dp
             r2 = FixedModel.result( self, xdata, par )
-            partial[:,i] = ( r1 - r2 ) / dp
+            self.assignPartial( partial, i, ( r1 - r2 ) / dp )
             par[k] = params[k]
         try :
             dpg.close()
@@ -352,6 +353,26 @@ class FixedModel( BaseModel ):
             pass
         return partial
 
+    def assignPartial( self, partial, i, dr ) :
+        """
+        Put dr in the i-th column of partial, or of each partial in the list.
+
+        Parameters
+        ----------
+        partial : array_like or list of array_like
+            (list of, if ndout > 1) partials
+        i : int
+            column
+        dr : array_like
+            the values
+
+        """
+        if self.ndout == 1 :
+            partial[:,i] = dr
+        else :
+            for k in range( self.ndout ) :
+                partial[k][:,i] = dr[:,k]
+
     def basePartial( self, xdata, param, parlist=None ) :
         """
         Replacement for models that dont define a partial.
@@ -372,7 +393,9 @@ class FixedModel( BaseModel ):
         if parlist is None :
             parlist = range( self.npmax )
 
-        partial = numpy.zeros( ( Tools.length( xdata ), len( parlist ) ), dtype=float )
+        shape = ( Tools.length( xdata ), len( parlist ) )
+        partial = ( numpy.zeros( shape, dtype=float ) if self.ndout == 1 else
+                  [ numpy.zeros( shape, dtype=float ) for k in range( self.ndout )] )
         dpg = Tools.makeNext( self.deltaP, 0 )
 
         par = numpy.array( param ) * 1.0
@@ -383,7 +406,7 @@ class FixedModel( BaseModel ):
             r1 = BaseModel.result( self, xdata, par )
             par[k] = pk - 0.5 * dp
             r2 = BaseModel.result( self, xdata, par )
-            partial[:,i] = ( r1 - r2 ) / dp
+            self.assignPartial( partial, i, ( r1 - r2 ) / dp )
             par[k] = pk
 
         return partial
-- 
2.43.0


From a389fcc0a2a427e313f45299e0d96b61398a4739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:57 +0000
Subject: [PATCH 122/130] fix: products and quotients of models with more
 outputs have no partials

---
 BayesicFitting/source/Model.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 2ef29fc..7524236 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -671,14 +671,14 @@ class Model( FixedModel ):
 
         elif self._operation == self.MUL :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.multiply( partial.transpose(), nextres ).transpose()
-            nextpartial = numpy.multiply( nextpartial.transpose(), result ).transpose()
+            partial = self.scalePartial( partial, nextres )
+            nextpartial = self.scalePartial( nextpartial, result )
 
         elif self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.divide( partial.transpose(), nextres ).transpose()
+            partial = self.scalePartial( partial, 1 / nextres )
             invres = - result / ( nextres * nextres )
-            nextpartial = numpy.multiply( nextpartial.transpose(), invres ).transpose()
+            nextpartial = self.scalePartial( nextpartial, invres )
 
         elif self._operation == self.PIP :
 
@@ -708,6 +708,22 @@ class Model( FixedModel ):
                     useNum=useNum )
 
 
+    def scalePartial( self, partial, factor ) :
+        """
+        Return the partial(s) multiplied with factor (at the inputs x).
+
+        Parameters
+        ----------
+        partial : array_like or list of array_like
+            partial derivatives (list of, if there are more outputs)
+        factor : array_like
+            factors (at the inputs x)
+
+        """
+        if isinstance( partial, list ) :
+            return [ ( p.T * factor[:,k] ).T for k,p in enumerate( partial )]
+        return ( partial.T * factor ).T
+
     def selectPipe( self,  ndim, ninter, ndout ) :
 
         # Models G pars p and H pars q
-- 
2.43.0


From f9976d8811ac10a86e552246304d71127fcea624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:57 +0000
Subject: [PATCH 123/130] fix: StellarOrbitModel returns its partials as tuple
 where compound models need a list

---
 BayesicFitting/source/StellarOrbitModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StellarOrbitModel.py b/BayesicFitting/source/StellarOrbitModel.py
index 5739de9..390126c 100644
--- a/BayesicFitting/source/StellarOrbitModel.py
+++ b/BayesicFitting/source/StellarOrbitModel.py
@@ -389,7 +389,7 @@ class StellarOrbitModel( NonLinearModel ):
             partial1[:,k] = part1[kp]()
 
 
-        return ( partial0, partial1 )
+        return [partial0, partial1]
 
 
     def baseName( self ):
-- 
2.43.0


From de7ddfa9d473019017182eb24ad11749b80aa2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 124/130] fix: asking the scale or the evidence of a fit with
 an error distribution changes its likelihood, at the wrong scale

---
 BayesicFitting/source/MaxLikelihoodFitter.py | 34 ++++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index ab6ae4d..d662e33 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -160,12 +160,13 @@ class MaxLikelihoodFitter( IterativeFitter ):
             return super( MaxLikelihoodFitter, self ).getLogLikelihood(
                         autoscale=autoscale, var=var )
 
-        if autoscale :
-            try :
-                self.landscape.hypar[0] = self.getScale()
-            except IndexError :
-                pass
-        return - self.landscape.func( self.model.parameters )
+        land = self.landscape
+        hypar = land.hypar
+        if autoscale and len( hypar ) > 0 :             # only for this calculation
+            land.hypar = [land.getHyperScale()] + hypar[1:]
+        logL = - land.func( self.model.parameters )
+        land.hypar = hypar
+        return logL
 
 
     def normalize( self, normdfdp, normdata, weight=1.0 ) :
@@ -338,17 +339,22 @@ class _LogL( _Chisq ) :
         else :
             raise ValueError( "Unknown errordistribution %s."%errdis )
 
-    def getScale( self ) :
-        errdis = self.errdis
+    def getHyperScale( self ) :
+        """
+        Return the scale of the error distribution.
+        """
         allpars = numpy.append( self.problem.model.parameters, self.hypar )
+        return self.errdis.getScale( self.problem, allpars=allpars )
 
-        scl = errdis.getScale( self.problem, allpars=allpars )
-        if len( self.hypar ) <=1 :
-            return errdis.toSigma( scl ) 
+    def getScale( self ) :
+        """
+        Return the standard deviation of the noise.
+        """
+        scl = self.getHyperScale()
+        if len( self.hypar ) <= 1 :
+            return self.errdis.toSigma( scl )
         else :
-            self.hypar[0] = scl
-            return errdis.toSigma( self.hypar ) 
-
+            return self.errdis.toSigma( [scl] + self.hypar[1:] )
 
     def func( self, par ) :
         param = self._outer.insertParameters( par, index=self._index )
-- 
2.43.0


From 75eb179fb4b5951debad5cffc2f90046c0af5154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 125/130] fix: ExponentialErrorDistribution.getScale fails
 without parameters

---
 BayesicFitting/source/ExponentialErrorDistribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 3680843..90432b0 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -233,6 +233,8 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
             None take parameters from problem.model
             list of all parameters in the problem
         """
+        if allpars is None :
+            allpars = numpy.append( problem.model.parameters, self.hypar )
         power = allpars[-1]
         chi = self.getChipow( problem, allpars=allpars )
         return math.pow( power * chi / problem.sumweight, 1.0 / power )
-- 
2.43.0


From aa6d3ea56e5c052f94a42204d5db95361c59125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 126/130] fix: wrong parameter units in several models

---
 BayesicFitting/source/PolySurfaceModel.py     |  2 +-
 BayesicFitting/source/PseudoVoigtModel.py     |  3 +++
 BayesicFitting/source/RadialVelocityModel.py  |  8 ++++++--
 BayesicFitting/source/SineSplineDriftModel.py |  6 +++++-
 BayesicFitting/source/SoftMaxModel.py         |  6 ++++--
 BayesicFitting/source/StellarOrbitModel.py    |  4 ++--
 BayesicFitting/source/SurfaceSplinesModel.py  | 10 +++++-----
 7 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/BayesicFitting/source/PolySurfaceModel.py b/BayesicFitting/source/PolySurfaceModel.py
index c4ea41a..9f13e11 100644
--- a/BayesicFitting/source/PolySurfaceModel.py
+++ b/BayesicFitting/source/PolySurfaceModel.py
@@ -266,6 +266,6 @@ class PolySurfaceModel( LinearModel ):
         while k > dk:
             dk += 1
             k -= dk
-        return self.yUnit / ( ( self.xUnit[0]**k ) * ( self.xUnit[1] ** (dk-k) ) )
+        return self.yUnit / ( ( self.xUnit[0] ** (dk-k) ) * ( self.xUnit[1] ** k ) )
 
 
diff --git a/BayesicFitting/source/PseudoVoigtModel.py b/BayesicFitting/source/PseudoVoigtModel.py
index 821c4ee..5e735a8 100644
--- a/BayesicFitting/source/PseudoVoigtModel.py
+++ b/BayesicFitting/source/PseudoVoigtModel.py
@@ -1,4 +1,5 @@
 import numpy as numpy
+from astropy import units
 import math
 from . import Tools
 from .Tools import setAttribute as setatt
@@ -204,6 +205,8 @@ class PseudoVoigtModel( NonLinearModel ):
         """
         if k == 0:
             return self.yUnit
+        if k == 3:
+            return units.Unit( 1.0 )
         return self.xUnit
 
 
diff --git a/BayesicFitting/source/RadialVelocityModel.py b/BayesicFitting/source/RadialVelocityModel.py
index a501c0d..2703331 100644
--- a/BayesicFitting/source/RadialVelocityModel.py
+++ b/BayesicFitting/source/RadialVelocityModel.py
@@ -244,6 +244,10 @@ class RadialVelocityModel( NonLinearModel ) :
 
         """
         if k == 0:
-            return units.Unit( units.si.rad ) / self.xUnit
-        return self.yUnit
+            return units.Unit( 1.0 )
+        elif k == 1 :
+            return self.yUnit
+        elif k == 2 :
+            return self.xUnit
+        return units.Unit( units.si.rad )
 
diff --git a/BayesicFitting/source/SineSplineDriftModel.py b/BayesicFitting/source/SineSplineDriftModel.py
index 0c8fa21..0ff09d6 100644
--- a/BayesicFitting/source/SineSplineDriftModel.py
+++ b/BayesicFitting/source/SineSplineDriftModel.py
@@ -242,7 +242,11 @@ class SineSplineDriftModel( NonLinearModel ):
             the kth parameter.
 
         """
-        k = k % ( self.npbase / 2 )
+        nd = self.degree + 1
+        if k < nd :                             # drifting frequency
+            return self.xUnit ** ( -k - 1 )
+
+        k = ( k - nd ) % ( ( self.npbase - nd ) // 2 )
         if k > self.order :
             k = self.order
         return self.yUnit / ( self.xUnit ** k )
diff --git a/BayesicFitting/source/SoftMaxModel.py b/BayesicFitting/source/SoftMaxModel.py
index d11bd86..401254f 100644
--- a/BayesicFitting/source/SoftMaxModel.py
+++ b/BayesicFitting/source/SoftMaxModel.py
@@ -226,6 +226,8 @@ class SoftMaxModel( NonLinearModel ):
             parameter number.
 
         """
-        xu = 1 if k > self.ndim * self.ndout else ( self.xUnit if self.ndim == 1 else self.xUnit[k % self.ndim] )
-        return units.Unit( 1 ) / xu
+        yu = units.Unit( 1.0 ) if self.normed else self.yUnit
+        if k >= self.ndim * self.ndout :
+            return yu
+        return yu / ( self.xUnit if self.ndim == 1 else self.xUnit[k % self.ndim] )
 
diff --git a/BayesicFitting/source/StellarOrbitModel.py b/BayesicFitting/source/StellarOrbitModel.py
index 390126c..9017e97 100644
--- a/BayesicFitting/source/StellarOrbitModel.py
+++ b/BayesicFitting/source/StellarOrbitModel.py
@@ -411,11 +411,11 @@ class StellarOrbitModel( NonLinearModel ):
         """
 
         if k == 0:
-            return units.Unit( )
+            return units.Unit( 1.0 )
         elif k == 1 :
             return self.yUnit
         elif k == 2 :
-            return 1.0 / self.xUnit
+            return self.xUnit
         return units.Unit( units.si.rad )
 
 
diff --git a/BayesicFitting/source/SurfaceSplinesModel.py b/BayesicFitting/source/SurfaceSplinesModel.py
index 9ace790..a1da557 100644
--- a/BayesicFitting/source/SurfaceSplinesModel.py
+++ b/BayesicFitting/source/SurfaceSplinesModel.py
@@ -221,14 +221,14 @@ class SurfaceSplinesModel( LinearModel ):
 
         """
         u = self.yUnit
-        n = 0
-        for mdl in self.models :
+        n = len( self.models )
+        while n > 0 :                           # last dimension runs fastest
+            n -= 1
+            mdl = self.models[n]
             nx = mdl.npbase
-            j = k % nx
-            if j > 3 : j = 3
+            j = min( k % nx, mdl.order )
             k = k // nx
             u = u / ( self.xUnit[n] ** j )
-            n += 1
         return u
 
 
-- 
2.43.0


From e719ca95650e087c5b97249d2ec3743ec0e75ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 127/130] fix: units of the parameters are shifted when some
 are fixed

---
 BayesicFitting/source/FixedModel.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index d766c19..f311716 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -226,6 +226,31 @@ class FixedModel( BaseModel ):
                 mdl = mdl._next
         return nms
 
+    def getParameterUnit( self, kpar ) :
+        """
+        Return the unit of the indicated parameter, accounting for the fixed ones.
+
+        Parameters
+        ----------
+        kpar : int
+            parameter number.
+        """
+        if self.fixed is None :
+            return super( FixedModel, self ).getParameterUnit( kpar )
+
+        pl = [k for k in self.parlist if k < self.npmax]
+        if kpar < len( pl ) :
+            return super( FixedModel, self ).getParameterUnit( pl[kpar] )
+
+        kpar -= len( pl )
+        for m in self.mlist :
+            mdl = self.fixed[m]
+            if kpar < mdl.npchain :             # model yields the value of parameter m
+                mdl.xUnit = self.xUnit
+                mdl.yUnit = super( FixedModel, self ).getParameterUnit( m )
+                return mdl.getParameterUnit( kpar )
+            kpar -= mdl.npchain
+
     #  *****RESULT**************************************************************
     def result( self, xdata, param ):
         """
-- 
2.43.0


From c9776c8ef5e50a4d0f860859fcd28d5b5c065d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 128/130] fix: ProductModel misplaces the units of its
 constituents

---
 BayesicFitting/source/ProductModel.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/BayesicFitting/source/ProductModel.py b/BayesicFitting/source/ProductModel.py
index 1035d0f..41c2a9e 100644
--- a/BayesicFitting/source/ProductModel.py
+++ b/BayesicFitting/source/ProductModel.py
@@ -224,24 +224,17 @@ class ProductModel( NonLinearModel ):
             the kth parameter.
 
         """
-        u = units.Unit( 1.0 )
+        u = self.yUnit                          # all others are dimensionless factors
         n = 0
-
-#        print( self.attsingle )
-#        print( self.models[0].attsingle )
-#        print( self.models[1].attsingle )
-#        print( self.models[0].xUnit, self.models[1].xUnit )
-
         for mdl in self.models :
             mdl.xUnit = self.xUnit[n]
-#            print( mdl.ndim, mdl.xUnit, self.xUnit[n] )
-            nx = mdl.npbase
+            mdl.yUnit = u
+            nx = mdl.npchain
             if k < nx :
-#                print( k, nx, mdl.getParameterUnit( k ), u )
-                return mdl.getParameterUnit( k ) / u
+                return mdl.getParameterUnit( k )
             n += 1
             k -= nx
-            u = self.yUnit
+            u = units.Unit( 1.0 )
         return u
 
 
-- 
2.43.0


From 0d496814cf8b438efaee476e0ce9563993d85884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 129/130] fix: the units of a compound model are only known to
 its first constituent

---
 BayesicFitting/source/CombiModel.py |  2 ++
 BayesicFitting/source/Model.py      | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index c991b05..5848316 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -377,6 +377,8 @@ class CombiModel( BracketModel ):
             parameter number.
 
         """
+        self.model.xUnit = self.xUnit
+        self.model.yUnit = self.yUnit
         return self.model.getParameterUnit( self.select[k] % self.nmp )
 
     def setPrior( self, kpar, prior=None, **kwargs ) :
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 7524236..530a42e 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1157,12 +1157,30 @@ class Model( FixedModel ):
         if kpar < np:
             return super( Model, self).getParameterUnit( kpar )
         elif self._next != None:
+            self._setNextUnits()
             return self._next.getParameterUnit( kpar - np )
         else:
             raise IndexError( "The (compound) model does not have %d parameters."%
                                ( kpar + 1 ) )
 
 
+    def _setNextUnits( self ) :
+        """
+        The units of the head are valid for the whole chain, except that (multiplicative)
+        factors keep their own yUnit (by default dimensionless).
+        The units in a chain with pipes are left as they are.
+        """
+        mdl = self._head
+        while mdl is not None :
+            if mdl._operation == self.PIP :
+                return
+            mdl = mdl._next
+
+        nxt = self._next
+        nxt.xUnit = self._head.xUnit
+        if nxt._operation in [self.ADD, self.SUB] :
+            nxt.yUnit = self._head.yUnit
+
     def getIntegralUnit( self ):
         """ Return the unit of the integral of the model over x. """
 
@@ -1936,6 +1954,8 @@ class Brackets( Model ):
             parameter number.
 
         """
+        self.model.xUnit = self.xUnit
+        self.model.yUnit = self.yUnit
         return self.model.getParameterUnit( k )
 
 
-- 
2.43.0


From 5deebbd06063a46f023bbc90cecb9faba0fd26bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 130/130] fix: wrong parameter names in polynomials and
 harmonics with fixed parameters and in surface splines

---
 BayesicFitting/source/HarmonicModel.py       | 4 ++++
 BayesicFitting/source/PolynomialModel.py     | 4 ++++
 BayesicFitting/source/SurfaceSplinesModel.py | 8 ++++----
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/HarmonicModel.py b/BayesicFitting/source/HarmonicModel.py
index f667a09..8aebf93 100644
--- a/BayesicFitting/source/HarmonicModel.py
+++ b/BayesicFitting/source/HarmonicModel.py
@@ -199,6 +199,10 @@ class HarmonicModel( LinearModel ):
             parameter number.
 
         """
+        if self.parlist is not None :           # skip the fixed ones
+            k = self.parlist[k]
+            if k >= self.npmax :
+                return "parameter_%d" % k
         return "%s%d"%( self.PARNAMES[k%2], k / 2 )
 
     def baseParameterUnit( self, k ):
diff --git a/BayesicFitting/source/PolynomialModel.py b/BayesicFitting/source/PolynomialModel.py
index 096812d..a3b0522 100644
--- a/BayesicFitting/source/PolynomialModel.py
+++ b/BayesicFitting/source/PolynomialModel.py
@@ -174,6 +174,10 @@ class PolynomialModel( LinearModel ):
             parameter number.
 
         """
+        if self.parlist is not None :           # skip the fixed ones
+            k = self.parlist[k]
+            if k >= self.npmax :
+                return "parameter_%d" % k
         return "polycoeff_%d" % k
 
     def baseParameterUnit( self, k ):
diff --git a/BayesicFitting/source/SurfaceSplinesModel.py b/BayesicFitting/source/SurfaceSplinesModel.py
index a1da557..55c310b 100644
--- a/BayesicFitting/source/SurfaceSplinesModel.py
+++ b/BayesicFitting/source/SurfaceSplinesModel.py
@@ -204,12 +204,12 @@ class SurfaceSplinesModel( LinearModel ):
             the kth parameter.
 
         """
-        strpar = "param"
-        for mdl in self.models :
+        strpar = ""
+        for mdl in self.models[::-1] :          # last dimension runs fastest
             nx = mdl.npbase
-            strpar = strpar + "_%d"%(k%nx)
+            strpar = "_%d"%(k%nx) + strpar
             k = k // nx
-        return strpar
+        return "param" + strpar
 
     def baseParameterUnit( self, k ):
         """
-- 
2.43.0

