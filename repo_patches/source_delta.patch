From ebd9789e9042489b0afa4816ab52fa1358babc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:12 +0000
Subject: [PATCH 01/22] fix: post-emission kinetic energy uses the mass of the
 fragment left after neutron emission

KEpost divided the momentum after neutron emission by the mass before it, and
accumulated onto whatever the event structure already held.
---
 libcgmf/src/specmc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index d62b498..f0a449e 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -964,7 +964,9 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
 	for (int i=0; i<3; i++) fe->postFragmentMomentum[i] = fragmentMomentum[i];
 
   // post-neutron emission fragment kinetic energy
-  double mass = A*amuMeV+getMassExcess(Z*1000+A);
+  int Apost = A-neutronMultiplicity;
+  double mass = Apost*amuMeV+getMassExcess(Z*1000+Apost);
+  fe->KEpost = 0.0;
   for (int i=0; i<3; i++) fe->KEpost += ( fe->postFragmentMomentum[i]*fe->postFragmentMomentum[i] );
   fe->KEpost /= (2.0*mass);
 
-- 
2.43.0


From 1f77525313c65d1b3c8c5fee48394a6b68fe0b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:29 +0000
Subject: [PATCH 02/22] fix: start a discrete-level cascade at the level
 nearest to the excitation energy

statStoreLevelExcite returns the number of levels up to the nearest one, which the
Monte Carlo driver used as a level index, so the cascade began one level too high
(emitting more energy than available); the search also skipped the highest level.
---
 libcgmf/src/popinit.cpp | 2 +-
 libcgmf/src/specmc.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libcgmf/src/popinit.cpp b/libcgmf/src/popinit.cpp
index 433f5fe..02cec64 100644
--- a/libcgmf/src/popinit.cpp
+++ b/libcgmf/src/popinit.cpp
@@ -217,7 +217,7 @@ int  statStoreLevelExcite(Nucleus *n)
 
   if( (n->ndisc == 1) && (n->ncont == 0) ) return(k);
 
-  for(int i=0 ; i<n->ndisc-1 ; i++){
+  for(int i=0 ; i<n->ndisc ; i++){
     x = fabs(n->max_energy - n->lev[i].energy);
     if(d>x){
       k = i;
diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index f0a449e..971b29f 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -155,7 +155,7 @@ void specMCMainFission(fissionEventType *fe)
 		/*** find nearest discrete level for given Ex */
 		int nstart = statStoreLevelExcite(&ncl[0]);
   	np = 0;
-		int final_state = mcGammaCascade(0,nstart,spc);
+		int final_state = mcGammaCascade(0,(nstart > 0) ? nstart-1 : 0,spc); // nstart counts the ground state
 		/*** insert final state */
 		int c = 0;
 		MCPoint mcurr;
@@ -268,7 +268,7 @@ void specMCMain(double initJ, int initP, double targE, double spinf, unsigned lo
 
     for(unsigned long t=0 ; t<nsim ; t++){
       np = 0;
-      mcGammaCascade(0,nstart,spc);
+      mcGammaCascade(0,(nstart > 0) ? nstart-1 : 0,spc);
       if(ctl.print_history) mcWriteHistory();
       recordEmittedParticles();
     }
-- 
2.43.0


From 27a2c8895ea81cb0d098ac5a32720d2920354a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:55 +0000
Subject: [PATCH 03/22] fix: account for the pre-equilibrium neutron in the
 mass of the fissioning nucleus

---
 libcgmf/src/kinematics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/kinematics.cpp b/libcgmf/src/kinematics.cpp
index 6502a0f..4fd7f73 100644
--- a/libcgmf/src/kinematics.cpp
+++ b/libcgmf/src/kinematics.cpp
@@ -334,6 +334,7 @@ void boost_pfn (int Z_c, int A_c,double En,double TKE,int A_l,int Z_l,int A_h,in
 					      cmNeutronVelocities[0],
 					      true,Pcostheta,Ppreeq);
     n0=1;
+    a_c--; // neutron emission
   }      
     
   for (int n=n0;n<neutronMultiplicity_pre;n++){ 
-- 
2.43.0


From 2022359e1dcbdf5cc7dbb7f1288df74c10d48fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:02 +0000
Subject: [PATCH 04/22] fix: normalise Y(Z) by its sum over all charges, not by
 its last element

---
 libcgmf/src/FissionFragments.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index c4a249f..9612f00 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -2518,7 +2518,6 @@ void FissionFragments::buildYZ(void) {
     // Loop over the Zmin to Zmax (determined from computeWahlParametersForChargeDistribution)
     for (i=Zmin; i<=Zmax; i++) {
 	YZ[i] = 0.0;
-	sum   = 0.0;
 	for (j=Amin; j<=Amax; j++) {
 	    YZ[i] += YZA2[i][j]; // Sum over A values
 	}
-- 
2.43.0


From a745c3c7b4fad5f5935e5d7d2a9bae673401521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:13 +0000
Subject: [PATCH 05/22] fix: look up the fragment anisotropy by rounded energy
 without comparing float to double

---
 libcgmf/src/FissionFragments.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 9612f00..63a5d1e 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4787,7 +4787,7 @@ void FissionFragments::computeFragmentAngularDistribution (void) {
       for (int i=0;i<MAX_ZAIDc;i++){
          if (anisotropy[i+1][0]==ZAIDc-1){
             for (int j=1;j<=NUM_EGRID;j++){
-               if (roundf(incidentEnergy0*10)/10 == anisotropy[0][j]) {
+               if (round(incidentEnergy0*10) == round(anisotropy[0][j]*10)) {
                   anisotropyCoefficient = anisotropy[i+1][j];
                   break;
                }
-- 
2.43.0


From 11746ccb1e80ec6d9cc32b6c3e1a4ba6a83c2483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:41 +0000
Subject: [PATCH 06/22] fix: apply the requested time coincidence window to
 every event

---
 libcgmf/src/cgmfEvents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 8dfff50..a414ce6 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -388,8 +388,8 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   if(firstcalc) {
     initialization();
     firstcalc = false;
-    if(timew>0.0)set_time_coincidence_window(timew);
   }
+  set_time_coincidence_window(timew);
  	cgmAllocateMemory();
 //	allocateMemory();
 
-- 
2.43.0


From 73665e773d3c1102caa8a20c9475ec5e1c75dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:30 +0000
Subject: [PATCH 07/22] fix: read history files in which all fragments have the
 same multiplicity

---
 tools/CGMFtk/histories.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index a6e64e2..08ea214 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -362,15 +362,15 @@ class Histories:
 		
 		nevents = int(nfragments/2)
 
-		cmNeutronEnergies=np.asarray(cmNeutronEnergies,dtype=object)
-		labNeutronEnergies=np.asarray(labNeutronEnergies,dtype=object)
-		cmGammaEnergies=np.asarray(cmGammaEnergies,dtype=object)
-		labGammaEnergies=np.asarray(labGammaEnergies,dtype=object)
-		photonAges=np.asarray(photonAges,dtype=object)
-		cmNeutronDircos=np.asarray(cmNeutronDircos,dtype=object)
-		labNeutronDircos=np.asarray(labNeutronDircos,dtype=object)
-		labPreFissionNeutronEnergies=np.asarray(labPreFissionNeutronEnergies,dtype=object)
-		labPreFissionNeutronDircos=np.asarray(labPreFissionNeutronDircos,dtype=object)
+		cmNeutronEnergies=self._asListArray(cmNeutronEnergies)
+		labNeutronEnergies=self._asListArray(labNeutronEnergies)
+		cmGammaEnergies=self._asListArray(cmGammaEnergies)
+		labGammaEnergies=self._asListArray(labGammaEnergies)
+		photonAges=self._asListArray(photonAges)
+		cmNeutronDircos=self._asListArray(cmNeutronDircos)
+		labNeutronDircos=self._asListArray(labNeutronDircos)
+		labPreFissionNeutronEnergies=self._asListArray(labPreFissionNeutronEnergies)
+		labPreFissionNeutronDircos=self._asListArray(labPreFissionNeutronDircos)
 
 		data = np.dstack((A,Z,U,J,P,KEpre,nmult,gmult,cmNeutronEnergies,labNeutronEnergies,cmGammaEnergies, labGammaEnergies,photonAges,preFragmentsX,preFragmentsY,preFragmentsZ,postFragmentsX,postFragmentsY,postFragmentsZ,cmNeutronDircos,labNeutronDircos,prenmult,labPreFissionNeutronEnergies,labPreFissionNeutronDircos,KEpost))
 
@@ -379,6 +379,13 @@ class Histories:
 
 		return (data)
 
+	def _asListArray (self,lists):
+		""" Returns a one-dimensional array of lists, also if all of the lists have the same length """
+		array = np.empty(len(lists),dtype=object)
+		for i in range(len(lists)):
+			array[i] = lists[i]
+		return (array)
+
 	# Functions to return all quantities recorded
 	
 	def getFissionHistories(self):
-- 
2.43.0


From 3f0f50a30644c410018524cb195bb3807e499744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:49 +0000
Subject: [PATCH 08/22] fix: count the neutrons of each event above the
 threshold in P(nu)

---
 tools/CGMFtk/histories.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 08ea214..9634f75 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -833,9 +833,10 @@ class Histories:
 		if (Eth is not None):
 			Eth = float(Eth)
 			nutot = []
-			#nE = self.nElabLF + self.nElabHF + self.preFissionNeutronElab
-			nE = self.nElab + self.preFissionNeutronElab
-			for x in nE:
+			for i in range(self.numberEvents):
+				x = self.nElabLF[i] + self.nElabHF[i]
+				if (self.preFissionNu[i]>0):
+					x = x + self.preFissionNeutronElab[i]
 				x = np.array(x)
 				nutot.append(len(x[x>=Eth]))
 			nutot = np.array(nutot)
-- 
2.43.0


From 085772d4c78fd95d3362415e16ef34381061a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:37 +0000
Subject: [PATCH 09/22] fix: accept arrays of times in the photon multiplicity
 as a function of time

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 9634f75..1dc6eb0 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -635,7 +635,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
@@ -689,7 +689,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
-- 
2.43.0


From 035a146a20f0d00d423455f23f50b4a94da3c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:37 +0000
Subject: [PATCH 10/22] fix: photon multiplicity per fragment as a function of
 time counts fragments

---
 tools/CGMFtk/histories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 1dc6eb0..9fe1eec 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -660,7 +660,7 @@ class Histories:
 				mask = np.logical_and(photonAges<=i,photonEnergies>=Eth)
 				nug.append(float(len(photonAges[mask])))
 			nug = np.array(nug)
-			nug = nug/float(self.numberEvents)
+			nug = nug/float(self.numberFragments)
 			return (times,nug)
 
 		else:
-- 
2.43.0


From f11a4d3a997cccb4ad642af7031b69af23c789c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:37 +0000
Subject: [PATCH 11/22] fix: include the heaviest fragment in the averages by
 mass

---
 tools/CGMFtk/histories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 9fe1eec..5b41b62 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -895,7 +895,7 @@ class Histories:
 		spinA -- spin
 		TKEA -- total kinetic energy
 		"""
-		xA = np.arange(np.min(self.A),np.max(self.A))
+		xA = np.arange(np.min(self.A),np.max(self.A)+1)
 		nA = np.size(xA)
 		yA = np.zeros(nA)
 		if (quantity=='nuA'):
-- 
2.43.0


From 4d379656033842577c47f2e5df880096de7f6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:37 +0000
Subject: [PATCH 12/22] fix: excitation energy and spin as a function of the
 total kinetic energy

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 5b41b62..2b34d94 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -982,7 +982,7 @@ class Histories:
 			TKE = self.TKEpre
 		elif (quantity=='UTKE'):
 			q=self.U
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
@@ -990,7 +990,7 @@ class Histories:
 			TKE = np.array(TKE)
 		elif (quantity=='spinTKE'):
 			q=self.J
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
-- 
2.43.0


From cfafa750625d9efc3f27c585e651a55088b9b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:37 +0000
Subject: [PATCH 13/22] fix: include the events of highest energy in the
 averages by total kinetic energy

---
 tools/CGMFtk/histories.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 2b34d94..5924f27 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -971,7 +971,7 @@ class Histories:
 		UTKE -- excitation energy
 		spinTKE -- spin (J)
 		"""
-		xTKE = np.arange(np.min(self.TKEpre),np.max(self.TKEpre))
+		xTKE = np.min(self.TKEpre)+np.arange(int(np.max(self.TKEpre)-np.min(self.TKEpre))+1)
 		nTKE = np.size(xTKE)
 		yTKE = np.zeros(nTKE)
 		if (quantity=='nuTKE'):
@@ -996,8 +996,8 @@ class Histories:
 				TKE.append(x)
 				TKE.append(x)
 			TKE = np.array(TKE)
-		for i in range(nTKE-1):
-			r=q[np.logical_and(TKE>=xTKE[i],TKE<xTKE[i+1])]
+		for i in range(nTKE):
+			r=q[np.logical_and(TKE>=xTKE[i],TKE<xTKE[i]+1)]
 			if (r.size):
 				yTKE[i]=np.mean(r)
 			else:
-- 
2.43.0


From e991c2d089b984a57b122eec90a5f3ae022293a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:37 +0000
Subject: [PATCH 14/22] fix: do not pair a neutron with itself in the n-n
 opening angles

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 5924f27..44eb689 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1328,13 +1328,13 @@ class Histories:
 		c = 0
 		for i in range(len(nLF)):
 			for j in range(nLF[i]):
-				for k in range(j,nLF[i]):
+				for k in range(j+1,nLF[i]):
 					tempcos = ncos[c][j][0]*ncos[c][k][0]+ncos[c][j][1]*ncos[c][k][1]+ncos[c][j][2]*ncos[c][k][2]
 					nncosLF.append(tempcos)
 					nncosAll.append(tempcos)
 			c=c+1
 			for j in range(nHF[i]):
-				for k in range(j,nHF[i]):
+				for k in range(j+1,nHF[i]):
 					tempcos = ncos[c][j][0]*ncos[c][k][0]+ncos[c][j][1]*ncos[c][k][1]+ncos[c][j][2]*ncos[c][k][2]
 					nncosHF.append(tempcos)
 					nncosAll.append(tempcos)
-- 
2.43.0


From a0e146123753d342d28229ab877405c7a68941ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:37 +0000
Subject: [PATCH 15/22] fix: neutron angles when a group of fragments emits no
 neutron

---
 tools/CGMFtk/histories.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 44eb689..3dd562e 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1187,9 +1187,9 @@ class Histories:
 		nELight = np.array(nELight)
 		nEHeavy = np.array(nEHeavy)
 		nEAll = np.array(nEAll)
-		ncosLight = np.array(ncosLight)
-		ncosHeavy = np.array(ncosHeavy)
-		ncosAll = np.array(ncosAll)
+		ncosLight = np.array(ncosLight).reshape(-1,3)
+		ncosHeavy = np.array(ncosHeavy).reshape(-1,3)
+		ncosAll = np.array(ncosAll).reshape(-1,3)
 
 		ncosAll = ncosAll[nEAll>=Eth][:,2]
 		ncosLight = ncosLight[nELight>=Eth][:,2]
@@ -1284,12 +1284,12 @@ class Histories:
 		nELight = np.array(nELight)
 		nEHeavy = np.array(nEHeavy)
 		nEAll = np.array(nEAll)
-		ncosLight = np.array(ncosLight)
-		ncosHeavy = np.array(ncosHeavy)
-		ncosAll = np.array(ncosAll)
-		FcosLight = np.array(FcosLight)
-		FcosHeavy = np.array(FcosHeavy)
-		FcosAll = np.array(FcosAll)
+		ncosLight = np.array(ncosLight).reshape(-1,3)
+		ncosHeavy = np.array(ncosHeavy).reshape(-1,3)
+		ncosAll = np.array(ncosAll).reshape(-1,3)
+		FcosLight = np.array(FcosLight).reshape(-1,3)
+		FcosHeavy = np.array(FcosHeavy).reshape(-1,3)
+		FcosAll = np.array(FcosAll).reshape(-1,3)
 
 		nFcosAll = ncosAll[nEAll>=Eth]*FcosAll[nEAll>=Eth]
 		nFcosAll = np.sum(nFcosAll,axis=1)
-- 
2.43.0


From d063afc458a0146d85a3cbad9419ab6432b39c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:37 +0000
Subject: [PATCH 16/22] fix: accept lists of photon energies and resolutions in
 gammaSpec

---
 tools/CGMFtk/histories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 3dd562e..1d61ee4 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1370,7 +1370,7 @@ class Histories:
 		eglist = np.array(Egamma)
 		deglist = np.array(dEgamma)
 
-		if np.any(eglist<0.) or np.any(dEgamma<0.):
+		if np.any(eglist<0.) or np.any(deglist<0.):
 			print("Gamma-ray energies and/or resolutions should be positive...")
 			return
 
-- 
2.43.0


From 67e58ab6fa8ae3f83d607b37815b439b4f8a9260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:12 +0000
Subject: [PATCH 17/22] fix: normalise the initial spin population when the
 distribution is not cut off within MAX_J

statPopinitLevden normalised only up to the spin where the distribution fell
below SPIN_CUTOFF; for a broad distribution that never happens, jmax stayed 0
and every spin but the lowest kept its unnormalised value.
---
 libcgmf/src/popinit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/popinit.cpp b/libcgmf/src/popinit.cpp
index 02cec64..02f70dc 100644
--- a/libcgmf/src/popinit.cpp
+++ b/libcgmf/src/popinit.cpp
@@ -112,7 +112,7 @@ void statWriteInitPopoulation(int jmax, Parity *p)
 /**********************************************************/
 void statPopinitLevden(int k0, double sf, Nucleus *n)
 {
-  int jmax = 0;
+  int jmax = MAX_J-1;
   double sd, se=0.0, so=0.0;
 
   ldLevelDensity(n->excitation[0],(double)n->za.getA(),&n->ldp);
-- 
2.43.0


From d7bd363166761aa293135e22ab114fffe46e964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:12 +0000
Subject: [PATCH 18/22] fix: do not read beyond the nuclide index when a
 nuclide has no level data

getDiscreteLevels incremented id after testing id<MAX_NUCLEI and so looked at
zaidIndex[MAX_NUCLEI] for every nuclide missing from the database.
---
 libcgmf/src/ripl2levels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index d8c8b95..8e2510f 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -224,7 +224,7 @@ void getDiscreteLevels (Nucleus *ncl, int nemit) {
 		zaid = 1000*ncl[k].za.getZ()+ncl[k].za.getA();
 		found=false;
 		id=-1;
-		while (!found && id<MAX_NUCLEI) {
+		while (!found && id<MAX_NUCLEI-1) {
 			id++;
 			if (zaidIndex[id]==zaid) found=true;
 		}
-- 
2.43.0


From 4aca0f022fc93dc120274853ae11ebf3621fdb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:28 +0000
Subject: [PATCH 19/22] fix: look up the discrete levels of every nucleus of
 the chain, without reading before the index

---
 libcgmf/src/ripl2levels.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index 8e2510f..8c08b59 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -265,21 +265,23 @@ void getRiplDiscreteLevels (Nucleus *ncl, int nemit) {
 
 	MaxLevelCtl ml = reassign;
 
-	int zaid = 1000*ncl[0].za.getZ()+ncl[0].za.getA();
+	for (int k=0; k<=nemit; k++) {
 
-	bool found =false;
-	int id=-1;
-	while (!found && id<MAX_NUCLEI-1) {
-		id++;
-		if (zaidIndex[id]==zaid) found=true;
-	}
+		int zaid = 1000*ncl[k].za.getZ()+ncl[k].za.getA();
 
-	for (int k=0; k<=nemit; k++) {
-		found = false;
-		if (zaidIndex[id-k]==zaid-k) found = true;
-		ncl[k].ndisc = numberLevels[id-k];
-		for (int i=0; i<ncl[k].ndisc; i++) {
-			ncl[k].lev[i] = allLevels[id-k][i];
+		// each nucleus of the chain is looked up, since the data file has gaps
+		bool found = false;
+		int id=-1;
+		while (!found && id<MAX_NUCLEI-1) {
+			id++;
+			if (zaidIndex[id]==zaid) found=true;
+		}
+
+		if (found) {
+			ncl[k].ndisc = numberLevels[id];
+			for (int i=0; i<ncl[k].ndisc; i++) {
+				ncl[k].lev[i] = allLevels[id][i];
+			}
 		}
 		fixLevels (&ncl[k], found, ml);
 	}
-- 
2.43.0


From 69c6979c6b1cbe1bfad2546bdcb11eb0204a9362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:46 +0000
Subject: [PATCH 20/22] fix: list as many lines as particles of a
 single-nucleus decay fall into an energy bin

---
 libcgmf/src/output.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libcgmf/src/output.cpp b/libcgmf/src/output.cpp
index 5a2bad9..f17e9eb 100644
--- a/libcgmf/src/output.cpp
+++ b/libcgmf/src/output.cpp
@@ -45,13 +45,15 @@ void cgmGetSpectra(double de, double **spc)
     double d    =  emax-emin;
 
     if (lowfilter(spc[0][k]) > 0.0) {
-      if(mcl_nlines < 30 ) {
+      /*** as many lines as particles in this bin */
+      for(int n=0 ; (n == 0 || n+0.5 < spc[0][k]) && mcl_nlines < 30 ; n++) {
         mcl_glines[mcl_nlines] = (emin+emax)/2.0;
         mcl_nlines++;
       }
     }
     if (lowfilter(spc[1][k]) > 0.0) {
-      if(mcl_nlinesn < 30 ) {
+      /*** as many lines as particles in this bin */
+      for(int n=0 ; (n == 0 || n+0.5 < spc[1][k]) && mcl_nlinesn < 30 ; n++) {
         mcl_elinesn[mcl_nlinesn] = (emin+emax)/2.0;
         mcl_nlinesn++;
       }
-- 
2.43.0


From f2b00b5ec5b81f238a2ee2833978d3960b3c3497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:46 +0000
Subject: [PATCH 21/22] fix: do not count converted transitions in the photon
 spectrum of a single-nucleus decay

---
 libcgmf/src/specmc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index 971b29f..5366b2a 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -685,7 +685,7 @@ void mcStoreHistory(bool ic, MCPoint m0, MCPoint m1, double **spc)
   k = specFindEnergyBin(ecms,ncl[0].de);
 #endif
 
-  if(k > 0){
+  if(k > 0 && !ic){
     if(m0.getN() == m1.getN()) spc[2][k] += 1.0;
     else                       spc[3][k] += 1.0;
   }
-- 
2.43.0


From 81c0389f3afd313ebe25297909b734eac44ef95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:23 +0000
Subject: [PATCH 22/22] fix: weight the end points of the exciton transition
 rates with the matrix element

---
 libcgmf/src/excilambda.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libcgmf/src/excilambda.cpp b/libcgmf/src/excilambda.cpp
index 432995c..747b440 100644
--- a/libcgmf/src/excilambda.cpp
+++ b/libcgmf/src/excilambda.cpp
@@ -72,7 +72,7 @@ double preqLambdaPlusZ(Preeq *q, Exconf *e)
    double f2 = 4.0*f0;
 
    lambda += ( densinteg(e1,q,&xw[k],&xp[k],&xr[k])
-              +densinteg(e2,q,&xw[k],&xp[k],&xr[k]) )*f0;
+              +densinteg(e2,q,&xw[k],&xp[k],&xr[k]) )*f0 * ((k<2) ? c1 : c2);
 
    for(int i=1 ; i<ndiv ; i++){
      lambda += ((i%2==0) ? f1 : f2) * ((k<2) ? c1 : c2)
@@ -130,7 +130,7 @@ double preqLambdaPlusN(Preeq *q, Exconf *e)
    double f2 = 4.0*f0;
 
    lambda += ( densinteg(e1,q,&xw[k],&xp[k],&xr[k])
-              +densinteg(e2,q,&xw[k],&xp[k],&xr[k]) )*f0;
+              +densinteg(e2,q,&xw[k],&xp[k],&xr[k]) )*f0 * ((k<2) ? c1 : c2);
 
    for(int i=1 ; i<ndiv ; i++){
      lambda += ((i%2==0) ? f1 : f2) * ((k<2) ? c1 : c2)
@@ -206,7 +206,7 @@ double preqLambdaZeroZ(Preeq *q, Exconf *e)
  double f2 = 4.0*f0;
 
  lambda += ( densinteg(e1,q,&xw,&xp,&xr)
-            +densinteg(e2,q,&xw,&xp,&xr) )*f0;
+            +densinteg(e2,q,&xw,&xp,&xr) )*f0 * c1;
 
  for(int i=1 ; i<ndiv ; i++){
    lambda += ((i%2==0) ? f1 : f2) * c1
@@ -242,7 +242,7 @@ double preqLambdaZeroN(Preeq *q, Exconf *e)
  double f2 = 4.0*f0;
 
  lambda += ( densinteg(e1,q,&xw,&xp,&xr)
-            +densinteg(e2,q,&xw,&xp,&xr) )*f0;
+            +densinteg(e2,q,&xw,&xp,&xr) )*f0 * c1;
 
  for(int i=1 ; i<ndiv ; i++){
    lambda += ((i%2==0) ? f1 : f2) * c1
-- 
2.43.0

