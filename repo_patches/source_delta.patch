From 35496dcd3989969de0c410ad97c9bcf785cd07c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 01/22] fix: use the z coefficient for the z flux in
 nodediffusionflux3d

---
 m4/nodediffusionflux3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/nodediffusionflux3d.m4 b/m4/nodediffusionflux3d.m4
index a5380af..62f027c 100755
--- a/m4/nodediffusionflux3d.m4
+++ b/m4/nodediffusionflux3d.m4
@@ -79,7 +79,7 @@ c
       do j = ifirst1, ilast1
          do i = ifirst0, ilast0
             do k = ifirst2, ilast2+1
-               flux2(k,i,j) = b1(k,i,j)*(u(i,j,k)-u(i,j,k-1))/dx(2)
+               flux2(k,i,j) = b2(k,i,j)*(u(i,j,k)-u(i,j,k-1))/dx(2)
             enddo
          enddo
       enddo
-- 
2.43.0


From b48b6ba8e61b7e33afe5c8cde874230a2807a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 02/22] fix: use the z flux in nodediffusionv2apply3d and
 nodepoissonapply3d

---
 m4/nodediffusionapply3d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/nodediffusionapply3d.m4 b/m4/nodediffusionapply3d.m4
index d0fa5c3..4058039 100755
--- a/m4/nodediffusionapply3d.m4
+++ b/m4/nodediffusionapply3d.m4
@@ -128,7 +128,7 @@ c
             do i = ifirst0, ilast0
                diver = beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
      &                       (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
-     &                       (flux1(k+1,i,j) - flux1(k,i,j))/dx(2))
+     &                       (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
                lu = - diver +alpha*u(i,j,k)
                res(i,j,k) = b*f(i,j,k) +a*lu 
             enddo
@@ -178,7 +178,7 @@ c
             do i = ifirst0, ilast0
                lu = -beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
      &                     (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
-     &                     (flux1(k+1,i,j) - flux1(k,i,j))/dx(2))
+     &                     (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
                res(i,j,k) = b*f(i,j,k) + a*lu 
             enddo
          enddo
-- 
2.43.0


From e71e0f425c2ad6195205cb7b7fa61be33f65ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 03/22] fix: write the adjusted cell, not index 1, in the 3D
 node Robin off-diagonal adjustments

---
 m4/nodediffusionstencilcoeffs3d.m4 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 0be0e62..a2aa496 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -945,7 +945,7 @@ c
                   factor=beta*b1(ie1,k,i)
                   factor=factor/(h*(3.0*h+16.0*b1(ie1,k,i)))
                   stencil(NN,i,ie1-1,k)=-9.0*factor
-                  stencil(SS,1,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
+                  stencil(SS,i,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
                 enddo
               enddo
             endif
@@ -984,7 +984,7 @@ c
                   factor=beta*b2(ie2,i,j)
                   factor=factor/(h*(3.0*h+16.0*b2(ie2,i,j)))
                   stencil(TT,i,j,ie2-1)=-9.0*factor
-                  stencil(BB,1,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
+                  stencil(BB,i,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
                 enddo
               enddo
             endif
@@ -1256,7 +1256,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(NN,i,ie1-1,k)=-9.0*factor
-                  stencil(SS,1,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
+                  stencil(SS,i,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
                 enddo
               enddo
             endif
@@ -1293,7 +1293,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(TT,i,j,ie2-1)=-9.0*factor
-                  stencil(BB,1,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
+                  stencil(BB,i,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
                 enddo
               enddo
             endif
-- 
2.43.0


From 18fbfe321134300a15ac89d9dabb5f09f8f7b7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 04/22] fix: take the z plane from the z bounds in
 readjnodediffusionoffdiag3d

---
 m4/nodediffusionstencilcoeffs3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index a2aa496..8de2ccd 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -1657,7 +1657,7 @@ c
             enddo
          endif
       elseif (direction.eq.2) then
-         ie2 = pfirst1-side+1
+         ie2 = pfirst2-side+1
          if(side .eq. 0) then
             do j = pfirst1, plast1
                do i = pfirst0, plast0
-- 
2.43.0


From ead4e3db3ca7b219b5bbbd389b5b14094cdece14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 05/22] fix: use the z coefficient in the second-order z case
 of adjnodediffusioncfdiag3d

---
 m4/nodediffusionstencilcoeffs3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 8de2ccd..1b968eb 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -729,7 +729,7 @@ c
          else if (interporder .eq. 2) then
             do j = pfirst1, plast1
                do i = pfirst0, plast0
-                  factor=dr1*beta*b1(edge,i,j)/(h**2)
+                  factor=dr1*beta*b2(edge,i,j)/(h**2)
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                enddo
             enddo
-- 
2.43.0


From f8ee38212097a2888d445f2c3db51e5d2a2f01b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 06/22] fix: apply the 2D second-order Dirichlet diagonal
 correction inside the patch on upper sides

---
 m4/celldiffusionstencilcoeffs2d.m4 | 10 ++++++----
 m4/nodediffusionstencilcoeffs2d.m4 | 10 ++++++----
 src/cuda/cd_stencil_2d_cuda.cpp    |  4 ++--
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/m4/celldiffusionstencilcoeffs2d.m4 b/m4/celldiffusionstencilcoeffs2d.m4
index dc41061..a7c6d3a 100755
--- a/m4/celldiffusionstencilcoeffs2d.m4
+++ b/m4/celldiffusionstencilcoeffs2d.m4
@@ -291,26 +291,28 @@ c
             endif
          elseif (bdrytype.eq.DIRICHLET) then
             if (direction.eq.0) then
-               ie0 = pfirst0-side+1
+               ie0 = pfirst0-2*side+1
+               edge= pfirst0-side+1
                h=dx(0)
                if(extrapOrder.eq.1) then
                   do ic1 = pfirst1, plast1
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic1 = pfirst1, plast1
-                     factor = beta*b0(ie0,ic1)/(3.0d0*(h**2))
+                     factor = beta*b0(edge,ic1)/(3.0d0*(h**2))
                      stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)+factor
                   enddo
                endif
             elseif (direction.eq.1) then
-               ie1  = pfirst1-side+1
+               ie1  = pfirst1-2*side+1
+               edge = pfirst1-side+1
                h=dx(1)
                if(extrapOrder.eq.1) then
                   do ic0 = pfirst0, plast0
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic0 = pfirst0, plast0
-                     factor = beta*b1(ie1,ic0)/(3.0d0*(h**2))
+                     factor = beta*b1(edge,ic0)/(3.0d0*(h**2))
                      stencil(PP,ic0,ie1)=stencil(PP,ic0,ie1)+factor
                   enddo
                endif
diff --git a/m4/nodediffusionstencilcoeffs2d.m4 b/m4/nodediffusionstencilcoeffs2d.m4
index 10eb005..747582d 100755
--- a/m4/nodediffusionstencilcoeffs2d.m4
+++ b/m4/nodediffusionstencilcoeffs2d.m4
@@ -280,26 +280,28 @@ c
             endif
          elseif (bdrytype.eq.DIRICHLET) then
             if (direction.eq.0) then
-               ie0 = pfirst0-side+1
+               ie0 = pfirst0-2*side+1
+               edge= pfirst0-side+1
                h=dx(0)
                if(extrapOrder.eq.1) then
                   do ic1 = pfirst1, plast1
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic1 = pfirst1, plast1
-                     factor = beta*b0(ie0,ic1)/(3.0d0*(h**2))
+                     factor = beta*b0(edge,ic1)/(3.0d0*(h**2))
                      stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)+factor
                   enddo
                endif
             elseif (direction.eq.1) then
-               ie1  = pfirst1-side+1
+               ie1  = pfirst1-2*side+1
+               edge = pfirst1-side+1
                h=dx(1)
                if(extrapOrder.eq.1) then
                   do ic0 = pfirst0, plast0
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic0 = pfirst0, plast0
-                     factor = beta*b1(ie1,ic0)/(3.0d0*(h**2))
+                     factor = beta*b1(edge,ic0)/(3.0d0*(h**2))
                      stencil(PP,ic0,ie1)=stencil(PP,ic0,ie1)+factor
                   enddo
                endif
diff --git a/src/cuda/cd_stencil_2d_cuda.cpp b/src/cuda/cd_stencil_2d_cuda.cpp
index 7362735..d353bcb 100644
--- a/src/cuda/cd_stencil_2d_cuda.cpp
+++ b/src/cuda/cd_stencil_2d_cuda.cpp
@@ -191,10 +191,10 @@ void cd_stencil_2d_cuda<T>::adj_diag(const int& i0,
     case 0:
         switch (T f = beta / (3 * h * h); dir) {
         case 0:
-            bt0(f, b0, pj, Ib{pi0 - side + 1, pi0 - side + 1});
+            bt0(f, b0.shift_x(side), pj, Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1});
             return;
         case 1:
-            bt0(f, b1, Jb{pj0 - side + 1, pj0 - side + 1}, pi);
+            bt0(f, b1.shift_y(side), Jb{pj0 - 2 * side + 1, pj0 - 2 * side + 1}, pi);
             return;
         } // switch (dir)
         break;
-- 
2.43.0


From ff2c76483c47e26a47c1019f593158c384b87c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 07/22] fix: apply the 3D node second-order Dirichlet diagonal
 correction inside the patch on upper sides

---
 m4/nodediffusionstencilcoeffs3d.m4 | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 1b968eb..e30917b 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -393,7 +393,8 @@ c
          endif
       elseif (bdrytype.eq.DIRICHLET) then
         if (direction.eq.0) then
-          ie0 = pfirst0-side+1
+          ie0 = pfirst0-2*side+1
+          edge= pfirst0-side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
@@ -402,13 +403,14 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
-                factor = beta*b0(ie0,j,k)/(3.0d0*(h**2))
+                factor = beta*b0(edge,j,k)/(3.0d0*(h**2))
                 stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.1) then
-          ie1  = pfirst1-side+1
+          ie1  = pfirst1-2*side+1
+          edge = pfirst1-side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
@@ -417,13 +419,14 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
-                factor = beta*b1(ie1,k,i)/(3.0d0*(h**2))
+                factor = beta*b1(edge,k,i)/(3.0d0*(h**2))
                 stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.2) then
-          ie2  = pfirst2-side+1
+          ie2  = pfirst2-2*side+1
+          edge = pfirst2-side+1
           if(extrapOrder.eq.1) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
@@ -432,7 +435,7 @@ c
           else if (extrapOrder.eq.2) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-                factor = beta*b2(ie2,i,j)/(3.0d0*(h**2))
+                factor = beta*b2(edge,i,j)/(3.0d0*(h**2))
                 stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)+factor
               enddo
             enddo
@@ -589,7 +592,7 @@ c
             endif
       elseif (bdrytype.eq.DIRICHLET) then
         if (direction.eq.0) then
-          ie0 = pfirst0-side+1
+          ie0 = pfirst0-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
@@ -604,7 +607,7 @@ c
             enddo
           endif
         elseif (direction.eq.1) then
-          ie1  = pfirst1-side+1
+          ie1  = pfirst1-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
@@ -619,7 +622,7 @@ c
             enddo
           endif
         elseif (direction.eq.2) then
-          ie2  = pfirst2-side+1
+          ie2  = pfirst2-2*side+1
           if(extrapOrder.eq.1) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-- 
2.43.0


From 8787f30474b47933f6352db2b61bf7577ccf4f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 08/22] fix: use the boundary face in the 3D second-order
 Dirichlet diagonal correction on upper sides

---
 m4/celldiffusionstencilcoeffs3d.m4 | 6 +++---
 src/cuda/cd_stencil_3d_cuda.cpp    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/m4/celldiffusionstencilcoeffs3d.m4 b/m4/celldiffusionstencilcoeffs3d.m4
index 288701e..2765e1e 100755
--- a/m4/celldiffusionstencilcoeffs3d.m4
+++ b/m4/celldiffusionstencilcoeffs3d.m4
@@ -400,7 +400,7 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
-                factor = beta*b0(ie0,j,k)/(3.0d0*(h**2))
+                factor = beta*b0(ie0+side,j,k)/(3.0d0*(h**2))
                 stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)+factor
               enddo
             enddo
@@ -415,7 +415,7 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
-                factor = beta*b1(ie1,k,i)/(3.0d0*(h**2))
+                factor = beta*b1(ie1+side,k,i)/(3.0d0*(h**2))
                 stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)+factor
               enddo
             enddo
@@ -430,7 +430,7 @@ c
           else if (extrapOrder.eq.2) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-                factor = beta*b2(ie2,i,j)/(3.0d0*(h**2))
+                factor = beta*b2(ie2+side,i,j)/(3.0d0*(h**2))
                 stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)+factor
               enddo
             enddo
diff --git a/src/cuda/cd_stencil_3d_cuda.cpp b/src/cuda/cd_stencil_3d_cuda.cpp
index da2e43a..3cf701a 100644
--- a/src/cuda/cd_stencil_3d_cuda.cpp
+++ b/src/cuda/cd_stencil_3d_cuda.cpp
@@ -239,13 +239,13 @@ void cd_stencil_3d_cuda<T>::adj_diag(const int& i0,
     case 0:
         switch (T f = beta / (3 * h * h); dir) {
         case 0:
-            bt0(f, b0, pk, pj, pil);
+            bt0(f, b0.shift_x(side), pk, pj, pil);
             break;
         case 1:
-            bt0(f, b1, pk, pjl, pi);
+            bt0(f, b1.shift_y(side), pk, pjl, pi);
             break;
         case 2:
-            bt0(f, b2, pkl, pj, pi);
+            bt0(f, b2.shift_z(side), pkl, pj, pi);
             break;
         } // switch (dir)
         break;
-- 
2.43.0


From bdcb923e2444b25f68ff9fda9769c699eb37781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 09/22] fix: declare f with its own bounds in cellgs1d

---
 m4/cellsmooth1d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellsmooth1d.m4 b/m4/cellsmooth1d.m4
index b7e3057..be304a7 100755
--- a/m4/cellsmooth1d.m4
+++ b/m4/cellsmooth1d.m4
@@ -101,7 +101,7 @@ c
       integer slo0, shi0
       REAL stencil(0:stencilsize-1,CELL1d(slo,shi,0))
       REAL u(CELL1d(ulo,uhi,0))
-      REAL f(CELL1d(ulo,uhi,0))
+      REAL f(CELL1d(flo,fhi,0))
       integer i,s, io
       REAL r
 
-- 
2.43.0


From 56c0dfb0eea1944855f15371997902ebd306f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 10/22] fix: keep the 2D red-black sweeps inside the box for
 negative j

---
 m4/cellsmooth2d.m4 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m4/cellsmooth2d.m4 b/m4/cellsmooth2d.m4
index e32396d..98e7551 100755
--- a/m4/cellsmooth2d.m4
+++ b/m4/cellsmooth2d.m4
@@ -163,7 +163,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+modulo(j+color,2), hi0,2
             r = f(i,j)
             do s=1,stencilsize-1
                io=offset(0,s)
@@ -205,7 +205,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+modulo(j+color,2), hi0,2
             u(i,j) = (f(i,j)-stencil(1,i,j)*u(i-1,j)
      &                -stencil(2,i,j)*u(i+1,j)
      &                -stencil(3,i,j)*u(i,j-1)
@@ -244,7 +244,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+modulo(j+color,2), hi0,2
             u(i,j) = (f(i,j)-stencil(1,i,j)*u(i-1,j+0)
      &                      -stencil(2,i,j)*u(i+1,j+0)
      &                      -stencil(3,i,j)*u(i+0,j-1)
-- 
2.43.0


From 904773d8b7c40315a973d65090d773d6296d489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 11/22] fix: include the diagonal block in the residual of
 ccellblkjacobi3d

---
 m4/cellsmooth3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellsmooth3d.m4 b/m4/cellsmooth3d.m4
index e7a866b..e96fbb7 100755
--- a/m4/cellsmooth3d.m4
+++ b/m4/cellsmooth3d.m4
@@ -321,7 +321,7 @@ c always stored first in the stencil
          do j = lo1, hi1
             do i = lo0, hi0
 	       r(:,i,j,k)=f(:,i,j,k)
-               do s=2,size
+               do s=1,size
                   io=offset(1,s)
                   jo=offset(2,s)
                   ko=offset(3,s)
-- 
2.43.0


From 8e2a8f2e26d73534db8591e5857530582ab37089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 12/22] fix: stop creatematrix at the last stencil entry

---
 m4/cellblocksmooth3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellblocksmooth3d.m4 b/m4/cellblocksmooth3d.m4
index 02e2cff..d13db88 100644
--- a/m4/cellblocksmooth3d.m4
+++ b/m4/cellblocksmooth3d.m4
@@ -25,7 +25,7 @@ c Create a dense matrix from stencil.
             do i=0,bSizeX-1
                idx = k*bSizeY*bSizeX+j*bSizeX+i
                A(idx,idx) = stencil(0,i,j,k)
-               do s=1,stencilSize
+               do s=1,stencilSize-1
                   ix = i+offset(0,s)
                   iy = j+offset(1,s)
                   iz = k+offset(2,s)
-- 
2.43.0


From 9ecef8c815b10dc90b0ba55d562ec76b3ab2db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 13/22] fix: loop over the matching index ranges in
 applystencilonpatch2d

---
 m4/applystencil2d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/applystencil2d.m4 b/m4/applystencil2d.m4
index 747641a..80209d1 100755
--- a/m4/applystencil2d.m4
+++ b/m4/applystencil2d.m4
@@ -91,8 +91,8 @@ c
 c***********************************************************************
 c
       
-      do j=lo0,hi0
-         do i=lo1,hi1
+      do j=lo1,hi1
+         do i=lo0,hi0
             r(i,j)=b*f(i,j)
             do s=1,stencilsize
                io=offsets(1,s)
-- 
2.43.0


From 14c79669ea307fbc72819b750b49a3714e130c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 14/22] fix: loop over the matching index ranges in
 celladjustsystemrhspatch2d

---
 m4/celladjustrhs2d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/celladjustrhs2d.m4 b/m4/celladjustrhs2d.m4
index 93b4d4f..0308b94 100755
--- a/m4/celladjustrhs2d.m4
+++ b/m4/celladjustrhs2d.m4
@@ -166,8 +166,8 @@ c offsets are compact, ie at most offset by (+-1,+-1)
 c ul represents the local u values in the direction we are interested
 c in adjusting the stencil
 
-      do j=ifirst0,ilast0
-         do i=ifirst1,ilast1
+      do j=ifirst1,ilast1
+         do i=ifirst0,ilast0
             do s=1,noffsets
                io=offset(1,s)
                jo=offset(2,s)
-- 
2.43.0


From a8a1ad456d3b3f9d0f5dae5315508e1936e1e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 15/22] fix: make window iterators comparable and subtractable

---
 src/cuda/matrix_traversal_iterator.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cuda/matrix_traversal_iterator.hpp b/src/cuda/matrix_traversal_iterator.hpp
index f6250de..6139065 100644
--- a/src/cuda/matrix_traversal_iterator.hpp
+++ b/src/cuda/matrix_traversal_iterator.hpp
@@ -117,8 +117,9 @@ private:
             return first + o;
     }
 
-    template <typename Other>
-    __host__ __device__ bool equal(const matrix_traversal_iterator<Other, N>& other) const
+    template <typename Other, typename V, typename R>
+    __host__ __device__ bool
+    equal(const matrix_traversal_iterator<Other, N, V, R>& other) const
     {
         return detail::equal(current, other.current);
     }
@@ -170,9 +171,9 @@ private:
         unravel<N>(n, dist, current);
     }
 
-    template <typename Other>
+    template <typename Other, typename V, typename R>
     __host__ __device__ diff_t
-    distance_to(const matrix_traversal_iterator<Other, N>& other) const
+    distance_to(const matrix_traversal_iterator<Other, N, V, R>& other) const
     {
         // assumes that first, n, and stride are identical between the two.
         return ravel<N>(n, other.current) - ravel<N>(n, current);
-- 
2.43.0


From d643fd507d8d50e2d03abc41cb73ae0f57de8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 16/22] fix: roll over whole rows in
 forward_stencil_iterator::advance

---
 src/cuda/forward_stencil_iterator.hpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/cuda/forward_stencil_iterator.hpp b/src/cuda/forward_stencil_iterator.hpp
index a388ef9..d03c804 100644
--- a/src/cuda/forward_stencil_iterator.hpp
+++ b/src/cuda/forward_stencil_iterator.hpp
@@ -124,21 +124,16 @@ private:
         //  causing our stencil to "rollover".
         distance_to_last -= dist;
 
+        // the number of times we roll over, which for backward moves also counts a partial
+        // row.  The "last" position stays at the end of its row
         auto base_dist = dist + current_distance;
-        int backwards = base_dist < 0;
+        int backwards = base_dist % max_stride_distance < 0;
         int at_last = !(distance_to_last);
 
-        auto iter_dist = dist + (base_dist / max_stride_distance) * stencil_stride -
-                         backwards * stencil_stride - at_last * (stencil_stride - 1);
-        current_distance = backwards * max_stride_distance +
-                           base_dist % max_stride_distance +
-                           at_last * max_stride_distance;
-        // if (distance_to_last == 0) {
-        //     iter_dist -= (stencil_stride-1);
-        //     current_distance = max_stride_distance;
-        // }
-
-        thrust::advance(first, iter_dist);
+        auto rolls = base_dist / max_stride_distance - backwards - at_last;
+        current_distance = base_dist - rolls * max_stride_distance;
+
+        thrust::advance(first, dist + rolls * stencil_stride);
     }
 
     template <typename Other>
-- 
2.43.0


From f75622825af444691347d7dbeb6bedaedd61488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 17/22] fix: count every index of strided and reversed bounds

---
 src/cuda/md_bounds.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/md_bounds.hpp b/src/cuda/md_bounds.hpp
index ff5c22f..cec05d3 100644
--- a/src/cuda/md_bounds.hpp
+++ b/src/cuda/md_bounds.hpp
@@ -58,7 +58,8 @@ struct bounds {
     int lb() const { return first; }
     int ub() const { return last - 1; }
 
-    int size() const { return (last - first) / stride; }
+    // the number of indices, none if the bounds are reversed
+    int size() const { return last > first ? (last - first + stride - 1) / stride : 0; }
 };
 
 // Generally, the user will not be required to use anything in the `lazy` namespace
-- 
2.43.0


From b1db22862f47a7b1ec282d1d8349cfe59b916078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 18/22] fix: give reversed bounds no extent in submatrix
 iterators

---
 src/cuda/submatrix_iterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/submatrix_iterator.hpp b/src/cuda/submatrix_iterator.hpp
index a06ac8c..6ff8e91 100644
--- a/src/cuda/submatrix_iterator.hpp
+++ b/src/cuda/submatrix_iterator.hpp
@@ -32,7 +32,8 @@ auto make_submatrix_helper(std::index_sequence<I...>,
 
 
     int current[] = {(0 * I)...};
-    int n[] = {((ub[I] - lb[I] + stm[I]) / stm[I])...};
+    // no extent where the bounds are reversed
+    int n[] = {(ub[I] < lb[I] ? 0 : (ub[I] - lb[I] + stm[I]) / stm[I])...};
     int stride[] = {stride_dim<I, N>(sz, stm)...};
 
     if constexpr (N > sizeof...(I) || std::is_same_v<T, std::true_type>) {
-- 
2.43.0


From a88d264cb46fb9706dad735810c4942f2a16666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 19/22] fix: append the array operand to the left of a stencil
 proxy after the proxy's own arrays

---
 src/cuda/stencil_proxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/stencil_proxy.hpp b/src/cuda/stencil_proxy.hpp
index 2ffed40..9ee1299 100644
--- a/src/cuda/stencil_proxy.hpp
+++ b/src/cuda/stencil_proxy.hpp
@@ -136,7 +136,8 @@ struct stencil_proxy : proxy_math<stencil_proxy<N, U, V, Op>> {
                 static_assert(true, "we should never get here");
         } else if constexpr (is_iter_math_v<U>) {
             if constexpr (is_stencil_proxy_v<V>)
-                return prepend_to_tuple(u(bnds...), v.get_iterators(bnds...));
+                // our index is one past those of v
+                return append_to_tuple(v.get_iterators(bnds...), u(bnds...));
             else if constexpr (is_number_v<V>)
                 return thrust::make_tuple(u(bnds...));
             else if constexpr (is_iter_math_v<V>) // I don't think this can happen
-- 
2.43.0


From 8c5a081d6a4640f36b5e5d4e8b144184e446a7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 20/22] fix: make window() compile

---
 src/cuda/window_iterator.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cuda/window_iterator.hpp b/src/cuda/window_iterator.hpp
index c3e5be1..f8048aa 100644
--- a/src/cuda/window_iterator.hpp
+++ b/src/cuda/window_iterator.hpp
@@ -28,9 +28,8 @@ window_helper(std::index_sequence<I...>, Iter it, const int (&sz)[N + 1])
     int stride[] = {stride_dim<I, N + 1>(sz)...};
     int current[] = {(0 * I)...};
     int n[] = {sz[I]...};
-    int stm[] = {(0 * I + 1)...};
 
-    return {it, stride, current, n, stm};
+    return {it, stride, current, n};
 }
 
 } // namespace detail
-- 
2.43.0


From afafff78acec7a5cb256e7fb2e49957b0bd04eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 21/22] fix: displace dot products along the axes the offsets
 name

---
 src/cuda/md_device_span.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/cuda/md_device_span.hpp b/src/cuda/md_device_span.hpp
index 06937d0..ed8d00b 100644
--- a/src/cuda/md_device_span.hpp
+++ b/src/cuda/md_device_span.hpp
@@ -119,8 +119,8 @@ make_gradient_transform(Vec&& vec, T h)
 // offsets.  We are here assuming that dot products are always done with "stencil" spans
 // (where W is the last dim) and offset_helpers.
 //
-// Note that we manually flip the order of the strides here to match the reversed order of
-// the offsets.  This is brittle and should be fixed at some point
+// Note that the offsets are ordered x, y, z and count elements of the array, whatever the
+// order and stride of the bounds
 //
 template <int N>
 struct dot_impl {
@@ -128,10 +128,18 @@ struct dot_impl {
     thrust::device_ptr<int> offsets;
     int n;
 
-    template <typename U>
-    dot_impl(U&& u, thrust::device_ptr<int> o, int n) : offsets{o}, n{n}
+    template <typename U, int... O>
+    dot_impl(U&& u, thrust::device_ptr<int> o, int n, const dir_bounds<O>&... bnds)
+        : offsets{o}, n{n}
     {
-        for (int i = 0; i < N; i++) stride[N - 1 - i] = u.stride_dim(i);
+        constexpr int order[] = {O...};
+        const int bnd_stride[] = {bnds.stride...};
+
+        for (int i = 0; i < N; i++) {
+            int axis = 0;
+            for (int j = 0; j < N; j++) axis += order[j] > order[i];
+            stride[axis] = u.stride_dim(i) / bnd_stride[i];
+        }
     }
 
     template <typename Tp>
@@ -168,7 +176,7 @@ struct dot_helper : iter_math<dot_helper<U, V>> {
         int n = std::get<N>(u.dir_bounds()).size();
 
         return thrust::make_transform_iterator(thrust::make_zip_iterator(u_it, v_it),
-                                               dot_impl<N>{v_it, o, n});
+                                               dot_impl<N>{v_it, o, n, bnds...});
     }
 };
 
-- 
2.43.0


From b640cb003d035f4b005a211dfae49a8846b39dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 22/22] fix: keep what the device wrote when set_offset edits
 the host copy

---
 src/md_device_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/md_device_vector.hpp b/src/md_device_vector.hpp
index c5ba9d6..60e02f1 100644
--- a/src/md_device_vector.hpp
+++ b/src/md_device_vector.hpp
@@ -123,6 +123,7 @@ public:
         static constexpr int sz = sizeof...(Args);
         assert(sz == b[N-1].size());
 
+        host(); // what the device has written since the last synchronization stays
         int idx[] = {args...};
         for (int i = 0; i < sz; i++) h[n * sz + i] = idx[i];
 
-- 
2.43.0

