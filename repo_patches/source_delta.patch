From 33a0afad33d52b85442337117fa5b6ccc2a2436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 01/14] fix: PQ_vectorize must not overwrite the caller's
 aspect ratios

alpha_ aliased alpha, so spherical inclusions (alpha==1) were changed to 0.999
in the caller's array, the exact spherical P and Q were never used, and integer
aspect ratios were truncated to 0.
---
 rockphypy/EM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index eb34cc6..74097eb 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -492,7 +492,8 @@ class EM:
         P = np.empty(dim)
         Q = np.empty(dim)
         theta = np.empty(dim)
-        alpha_ = alpha # copy and modfiy
+        alpha = np.asanyarray(alpha)
+        alpha_ = np.array(alpha, dtype=float) # copy and modfiy
         alpha_[alpha==1]=0.999 # when alpha_ is 1, the f is nan
 
         theta[alpha_<1]=alpha_[alpha_<1]/(1.0 - alpha_[alpha_<1]**2)**(3.0/2.0) * (np.arccos(alpha_[alpha_<1]) - alpha_[alpha_<1]*np.sqrt(1.0 - alpha_[alpha_<1]**2))
-- 
2.43.0


From 5095197d34f9c4fbcc0d65a0431f66d30377e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 02/14] fix: HS bounds for equal moduli and for a fluid soft
 phase

The reciprocal of K2-K1, G2-G1 or G2 raised ZeroDivisionError when the two
phases share a modulus or when the soft phase is a fluid (G2=0); integer arrays
raised ValueError. The same expression is written without those reciprocals.
---
 rockphypy/EM.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 74097eb..8575bad 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -124,15 +124,15 @@ class EM:
         """        
 
         if bound == 'upper':
-            K=K1+ (1-f)/( (K2-K1)**-1 + f*(K1+4*G1/3)**-1 )
+            K=K1+ (1-f)*(K2-K1)*(K1+4*G1/3)/( K1+4*G1/3 + f*(K2-K1) )
 
-            Temp = (K1+2*G1)/(5*G1 *(K1+4*G1/3))
-            G=G1+(1-f)/( (G2-G1)**-1 + 2*f*Temp)
+            Temp = 5*G1 *(K1+4*G1/3)/(K1+2*G1)
+            G=G1+(1-f)*(G2-G1)*Temp/( Temp + 2*f*(G2-G1))
         else:
-            K=K2+ f/( (K1-K2)**-1 + (1-f)*(K2+4*G2/3)**-1 )
+            K=K2+ f*(K1-K2)*(K2+4*G2/3)/( K2+4*G2/3 + (1-f)*(K1-K2) )
 
-            Temp = (K2+2*G2)/(5*G2 *(K2+4*G2/3))
-            G=G2+f/( (G1-G2)**-1 + 2*(1-f)*Temp)
+            Temp = 5*G2 *(K2+4*G2/3)/(K2+2*G2)
+            G=G2+f*(G1-G2)*Temp/( Temp + 2*(1-f)*(G1-G2))
         return K, G
 
     @staticmethod
-- 
2.43.0


From 6b9fbc25f42dae05e8fb2aeafca3254cf5701c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 03/14] fix: SC_flex starts the shear modulus iteration from
 the matrix shear modulus

---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 8575bad..b041fd3 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -889,7 +889,7 @@ class EM:
         """    
         
         K_eff=Km
-        G_eff=Km
+        G_eff=Gm
         for i in range(iter_n):
             nu = 0.5* (3*K_eff- 2*G_eff)/(3*K_eff+G_eff) # Poisson's ratio
             S1 = 1/3 * (1+nu)/( 1-nu)
-- 
2.43.0


From d70e566f2a38d07efd43f2222e520722492fa601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 04/14] fix: johnson accepts the documented path 'iso_uni'

The documented value raised UnboundLocalError (the code tested 'iso-uni'), and
in that branch a misplaced parenthesis multiplied the Cn term of sigma11 by Ct.
---
 rockphypy/GM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 2867e50..3c27697 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -347,9 +347,9 @@ class GM:
         elif path == 'uni_iso':
             sigma33 = 2*Temp*(1/12*Ct+Cn*(alpha**2*I2+I4))
             sigma11 =Temp*(-1/12*Ct+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
-        elif path == 'iso-uni':
+        elif path in ('iso_uni','iso-uni'):
             sigma33 = 2*Temp*(Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I2+I4))
-            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4)))
+            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
 
         return C, sigma33,sigma11
 
-- 
2.43.0


From 708a4e44de8e9216a186cea6a18c91a4134c714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 05/14] fix: Digby for unloaded packs and arrays of stress

At zero stress all three roots have a zero real part and arrays of length 3 were
returned; a stress array, which the docstring allows, raised ValueError.
---
 rockphypy/GM.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 3c27697..d8b771a 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -514,9 +514,9 @@ class GM:
         sigma =sigma/1000 # converts pressure unit to GPa
         nu=(3*K0-2*G0)/(6*K0+2*G0) # poisson's ratio of mineral mixture
         
-        coeff= np.array([1,0, 3/2* a_R**2, - 3*np.pi*(1-nu)*sigma/(2*Cn*(1-phi)*G0)]) # coeffs of cubic equation
-        roots= np.roots(coeff)
-        root= roots.real[roots.real>=0]
+        load= np.atleast_1d(3*np.pi*(1-nu)*sigma/(2*Cn*(1-phi)*G0))
+        # the cubic equation has one non-negative real root, the real part of the other two is not positive
+        root= np.array([np.roots([1,0, 3/2* a_R**2, -c]).real.max() for c in load.ravel()]).reshape(load.shape)
         b_R= np.sqrt(root**2+a_R**2)
         Sn_R= 4*G0*b_R/(1-nu)
         St_R= 8*G0*a_R/(2-nu)
-- 
2.43.0


From 6c380eeb9c0ac2a1876aeb6896310fcb82c8b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 06/14] fix: segmented velocity trends keep the order of the
 input depths

yu_segment_trend and Japsen stacked the velocities segment by segment, so depths
that are not sorted got the velocities of other depths, a depth below the Japsen
range shortened the output, and a float depth raised TypeError.
---
 rockphypy/Emp.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index c3a885d..429c8fe 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -121,9 +121,8 @@ class Empirical:
             P wave velocities
         """        
         
-        V1=1707.998+0.66*Z[Z<=2630]
-        V2=1200.84+0.853*Z[Z>2630]
-        V= np.hstack((V1,V2))
+        Z= np.asarray(Z)
+        V= np.where(Z<=2630, 1707.998+0.66*Z, 1200.84+0.853*Z)
         return V
 
     @staticmethod
@@ -283,11 +282,13 @@ class Empirical:
             Vp m/s
         """        
         
-        V1=1550+0.6*Z[Z<1393]
-        V2= -400+2*Z[(Z>=1393)&(Z<2000)]
-        V3=2600+0.5*Z[(Z>=2000)&(Z<3500)]
-        V4=3475+0.25*Z[(Z>=3500)&(Z<5300)]
-        V= np.hstack((V1,V2,V3,V4))
+        Z= np.asarray(Z)
+        V1=1550+0.6*Z
+        V2= -400+2*Z
+        V3=2600+0.5*Z
+        V4=3475+0.25*Z
+        # the trend is not defined for Z>=5300
+        V= np.select([Z<1393,Z<2000,Z<3500,Z<5300],[V1,V2,V3,V4],np.nan)
         return V
 
     @staticmethod    
-- 
2.43.0


From 87823926e05b923e6256ff5182a5a3efe5b574ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 07/14] fix: ramm_porosity_segment for a float depth

The docstring allows a float or an array, a float raised TypeError.
---
 rockphypy/Emp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index 429c8fe..36f70d0 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -164,8 +164,7 @@ class Empirical:
         """        
         phi1= 45*np.exp(-0.00025*Z)
         phi2= 25-0.013*(Z-2500)
-        phi1[phi1>phi2]=phi2[phi2<phi1]
-        return phi1
+        return np.minimum(phi1,phi2)
 
     @staticmethod
     def empirical_StPeter(Pe, sample=1):
-- 
2.43.0


From f7b69bb3b6bd02b40ca7c073f7e7d241fc173349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 08/14] fix: Fredrich permeability grows with grain size

The pore surface area per unit volume of spheres of diameter d is 6*(1-phi)/d
(docs errata), it was multiplied by d.
---
 rockphypy/Perm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Perm.py b/rockphypy/Perm.py
index 8b7b2fc..b218f64 100644
--- a/rockphypy/Perm.py
+++ b/rockphypy/Perm.py
@@ -216,7 +216,7 @@ class Permeability:
         # formation factor assuming tau^2=2.5
         F= 2.5/phi
         # pore surface area per unit sample volume
-        Sv= 6*(1-phi)*d
+        Sv= 6*(1-phi)/d
         # permeability
         k= 1/(b*F) * (phi/Sv)**2
         return k
-- 
2.43.0


From 6ebe84ae32fe2c2270fb89bd613a536bb212ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 09/14] fix: estimate_cem with current pandas and numpy

The result was written through DataFrame.values, which is read-only in pandas 3,
so every call raised ValueError. Samples faster than the last constant cement
line were given 0.1 instead of the last seed, and a sample exactly on an inner
line was interpolated between its two neighbours.
---
 rockphypy/QI.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 99bf26e..884cdf6 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -550,29 +550,28 @@ class QI:
         _,_,K0=EM.VRH(np.array([vsh,1-vsh]),np.array([Ksh,Kqz]))
         _,_,G0=EM.VRH(np.array([vsh,1-vsh]),np.array([Gsh,Gqz])) # this is only two component sandstone, when sandstone is multimineralogy, vectorization should apply here
         D0=Dsh*vsh+Dqz*(1-vsh)
-        # create an empty dataframe 
-        df = pd.DataFrame()
+        vcem_seeds=np.asarray(vcem_seeds)
+        # one constant cement line for each seed
+        lines=[]
         # corresponding porosity is phi_c-vcem_seeds[i]
         for i in vcem_seeds:
             
             VP,VS=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme)
-            df['vcem_vp'+str(i)]=VP
+            lines.append(np.asarray(VP))
         # decide if Vcem is 0 or not, otherwise, interpolate between two closet velocities
-        df['vcem']=np.nan
+        lines=np.array(lines)
+        vcem=np.full(len(self.Vp),np.nan)
         for i, val in enumerate(self.Vp):
-            array= np.array(df.iloc[i, :-1])
+            array= lines[:,i]
             if val <= array[0]:
-                df.vcem.values[i]=0
-                #df.iloc[i]['vcem']=0
+                vcem[i]=0
             elif val >=array[-1]:
-                df.vcem.values[i]=0.1
-                #df.iloc[i]['vcem']=0.1
-            else:
-                big =  array[array<val].max()# the largest element of myArr less than myNumber
-                small = array[array>val].min()# the smallest element of myArr greater than myNumber
-                #df.vcem.values[i]
-                df.vcem.values[i]=(val-small)/(big-small)*(vcem_seeds[array==big]-vcem_seeds[array==small])+vcem_seeds[array==small]
-        return df.vcem.values
+                vcem[i]=vcem_seeds[-1]
+            elif array[0]<val<array[-1]:
+                low = np.where(array<=val,array,-np.inf).argmax()# the largest element of array not greater than val
+                high = np.where(array>val,array,np.inf).argmin()# the smallest element of array greater than val
+                vcem[i]=(val-array[low])/(array[high]-array[low])*(vcem_seeds[high]-vcem_seeds[low])+vcem_seeds[low]
+        return vcem
     def cement_diag_plot(self,vcem,Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phib,phib_p,phi_c,sigma,vsh,Cn, scheme,f):
         """_summary_
 
-- 
2.43.0


From af9a8fa9c025180bf67ba1dcb7dd2c11258084f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:05 +0000
Subject: [PATCH 10/14] fix: silty_shale bulk modulus uses the shear modulus of
 shale for both constituents

The documented equation (examples/getting_started/08) is the lower Hashin-Shtrikman
bound with the shale as the soft phase; with the quartz shear modulus in the second
term the moduli at zero clay content are not those of the silt grains.
---
 rockphypy/GM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index d8b771a..9100c11 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -66,7 +66,7 @@ class GM:
             K_sat, G_sat: elastic moduli of the saturated silty shale.
         """       
 
-        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gq/3) )**-1 -4*Gsh/3
+        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gsh/3) )**-1 -4*Gsh/3
         Zsh = Gsh/6 *(9*Ksh+8*Gsh)/(Ksh+2*Gsh)
         G_sat = (C/(Gsh+Zsh) + (1-C)/(Gq+Zsh))**-1 -Zsh
         return K_sat,G_sat
-- 
2.43.0


From 115de2cef1c3c0e0c54963a1bdcd6ceff66196b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:12 +0000
Subject: [PATCH 11/14] fix: kde_plot draws the density with the colormap it is
 given

---
 rockphypy/QI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 884cdf6..8966b99 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -302,7 +302,7 @@ class QI:
             density=QI.normalize(density)
             # extremely low density is mapped to 0
             density[density<0.0001]=0
-            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap_kde,shading='auto')
+            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap,shading='auto')
             cbar=plt.colorbar()
             cbar.set_label('KDE Normalized')
             plt.contour(grid[0],grid[1], density.T,colors='white',linewidths=0.5)
@@ -314,7 +314,7 @@ class QI:
             density=QI.normalize(density)
             # extremely low density is mapped to 0
             density[density<0.0001]=0
-            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap_kde,shading='auto')
+            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap,shading='auto')
             cbar=plt.colorbar()
             cbar.set_label('KDE Normalized')
             plt.contour(grid[0],grid[1], density.T,colors='white',linewidths=0.5)
-- 
2.43.0


From 89e51edd506549c689ca3bf9369100469660ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:38 +0000
Subject: [PATCH 12/14] fix: Berryman_DEM returned uninitialized memory where
 odeint gave up

---
 rockphypy/EM.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index b041fd3..e3ab138 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -814,7 +814,15 @@ class EM:
         tStop = phi
         tInc = 0.01
         t = np.arange(0, tStop+tInc, tInc)
-        psoln = odeint(EM.DEM, y0, t, args=(params,))
+        psoln, info = odeint(EM.DEM, y0, t, args=(params,), full_output=True)
+        if info['message'] != 'Integration successful.':
+            # odeint leaves the rows it did not reach uninitialized: go on step by step, nan where there is no solution
+            for i in range(1, len(t)):
+                step, info = odeint(EM.DEM, psoln[i-1], t[i-1:i+1], args=(params,), full_output=True)
+                if info['message'] != 'Integration successful.':
+                    psoln[i:] = np.nan
+                    break
+                psoln[i] = step[-1]
         K_dry_dem=psoln[:,0]
         G_dry_dem=psoln[:,1]
         return K_dry_dem, G_dry_dem,t
-- 
2.43.0


From 8b0aded1ef0bae86bbfc0ab771ce5a875287ffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 13/14] fix: Berryman_sc starts from the mean of the mixture,
 absent phases do not lead it to another root

---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index e3ab138..56af9a6 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -463,7 +463,7 @@ class EM:
         G= np.asanyarray(G)
         X=np.asanyarray(X)
         Alpha=np.asanyarray(Alpha)
-        K_sc,G_sc=  fsolve(EM.Berryman_func, (K.mean(), G.mean()), args = (K,G,X,Alpha))
+        K_sc,G_sc=  fsolve(EM.Berryman_func, (np.average(K,weights=X), np.average(G,weights=X)), args = (K,G,X,Alpha)) # start from the mean of the mixture
         return K_sc,G_sc
 
     @staticmethod
-- 
2.43.0


From b747d24cdf0378a07b18994eb25c2f7ce8d0b7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:13 +0000
Subject: [PATCH 14/14] fix: White_Dutta_Ode no longer overflows to NaN where
 the diffusion length is short against the patch

---
 rockphypy/Fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index e20e80e..894a239 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -660,7 +660,7 @@ class Fluid:
         alpha2=(1j*omega*eta2/(kapa*KE2))**(1/2)
 
         Z1=eta1*a/kapa *(1-np.exp(-2*alpha1*a))/((alpha1*a-1)+(alpha1*a+1)*np.exp(-2*alpha1*a)   )
-        Z2=-eta2*a/kapa *(   (alpha2*b+1) +(alpha2*b-1)*np.exp(2*alpha2*(b-a) ) )/(  (alpha2*b+1)* (alpha2*a-1)- (alpha2*b-1)*(alpha2*a+1)*np.exp(2*alpha2*(b-a))  )
+        Z2=-eta2*a/kapa *(   (alpha2*b+1)*np.exp(-2*alpha2*(b-a)) +(alpha2*b-1) )/(  (alpha2*b+1)* (alpha2*a-1)*np.exp(-2*alpha2*(b-a))- (alpha2*b-1)*(alpha2*a+1)  )
         Q1= (1-Kdry/K0)*KA1/K1
         Q2= (1-Kdry/K0)*KA2/K2
         W=3*a**2*(R1-R2)*(-Q1+Q2)/ (b**3*1j*omega*(Z1+Z2) )
-- 
2.43.0

