From 08c1afab545319780618adffbe46ece58ca5ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 01/56] fix: give every field of a new atom a defined value

---
 src/pyscal/atom.cpp | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index f2eb90d..d10d8cd 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -33,6 +33,33 @@ Atom::Atom( vector<double> pos, int idd, int typ){
     avg_entropy = 0;
     energy = 0;
     avg_energy = 0;
+    condition = 0;
+    mask = false;
+    cutoff = 0;
+    sii = 0;
+    disorder = 0;
+    avgdisorder = 0;
+    frenkelnumber = 0;
+    avq6q6 = 0;
+    structure = 0;
+    n3 = 0;
+    n4 = 0;
+    n5 = 0;
+    n6 = 0;
+    volume = 0;
+    avgvolume = 0;
+    angular = 0;
+    avg_angular = 0;
+    centrosymmetry = 0;
+    lcutsmall = 0;
+    lcutlarge = 0;
+    lneigh = 0;
+    sigma = 0;
+    rho = 0;
+    rstart = 0;
+    rstop = 0;
+    h = 0;
+    kb = 0;
 
 
     for (int tn = 0; tn<MAXNUMBEROFNEIGHBORS; tn++){
@@ -44,6 +71,12 @@ Atom::Atom( vector<double> pos, int idd, int typ){
         faceperimeters[tn] = -1.0;
         sij[tn] = -1.0;
         masks[tn] = -1;
+        n_diffx[tn] = 0;
+        n_diffy[tn] = 0;
+        n_diffz[tn] = 0;
+        n_r[tn] = 0;
+        n_phi[tn] = 0;
+        n_theta[tn] = 0;
         //edgelengths[tn] = -1.0;
 
     }
@@ -60,6 +93,15 @@ Atom::Atom( vector<double> pos, int idd, int typ){
         }
     }
 
+    for (int tn = 0; tn<13; tn++){
+        realQ6[tn] = 0;
+        imgQ6[tn] = 0;
+    }
+
+    for (int tn = 0; tn<4; tn++){
+        nn1[tn] = 0;
+    }
+
 }
 
 Atom::~Atom(){ }
-- 
2.43.0


From 35c6b0f171fb0570e94504cc3e98079dff5ca2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:19 +0000
Subject: [PATCH 02/56] fix: refuse lists that do not fit the storage of an
 atom

---
 src/pyscal/atom.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index d10d8cd..8d99984 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -13,6 +13,10 @@
 //-------------------------------------------------------
 Atom::Atom( vector<double> pos, int idd, int typ){
 
+    if (pos.size() < 3){
+        throw invalid_argument("position should have three components");
+    }
+
     posx = pos[0];
     posy = pos[1];
     posz = pos[2];
@@ -121,6 +125,9 @@ vector<double> Atom::gx(){
 }
 
 void Atom::sx(vector<double> rls){
+    if (rls.size() < 3){
+        throw invalid_argument("position should have three components");
+    }
     posx = rls[0];
     posy = rls[1];
     posz = rls[2];
@@ -153,6 +160,10 @@ vector<double> Atom::gneighdist(){
 
 void Atom::sneighbors(vector<int> nns){
 
+    if (nns.size() > MAXNUMBEROFNEIGHBORS){
+        throw invalid_argument("too many neighbors");
+    }
+
     //first reset all neighbors
     for (int i = 0;i<MAXNUMBEROFNEIGHBORS;i++){
         neighbors[i] = NILVALUE;
@@ -172,6 +183,9 @@ void Atom::sneighbors(vector<int> nns){
 }
 
 void Atom::sneighborweights(vector<double> nss){
+    if (nss.size() > MAXNUMBEROFNEIGHBORS){
+        throw invalid_argument("too many neighbor weights");
+    }
     for(int i=0; i<nss.size(); i++){
         neighborweight[i] = nss[i];
     }
@@ -253,12 +267,18 @@ vector<double> Atom::gallaq(){
 }
 
 void Atom::sallq(vector<double> allq){
+    if (allq.size() != 11){
+        throw invalid_argument("11 q values should be given");
+    }
     for(int i=0; i<11; i++){
         q[i] = allq[i];
     }
 }
 
 void Atom::sallaq(vector<double> allaq){
+    if (allaq.size() != 11){
+        throw invalid_argument("11 q values should be given");
+    }
     for(int i=0; i<11; i++){
         aq[i] = allaq[i];
     }
@@ -315,6 +335,10 @@ vector<double> Atom::gq_big(vector<int> qval, bool averaged ){
 //overloaded version which takes a vector
 void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
 
+    if (qval.size() != setvals.size()){
+        throw invalid_argument("one value should be given for each q");
+    }
+
     if(averaged == true) {
 
         for(int i=0; i<qval.size(); i++){
@@ -339,6 +363,9 @@ void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
 
 vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
 
+  if ((qq < 2) || (qq > 12)){
+    throw invalid_argument("q value should be between 2-12");
+  }
   vector<complex<double>> qlms;
   qlms.reserve(2*qq+1);
   if (!averaged){
@@ -368,6 +395,9 @@ vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
 // Voronoi related properties
 //-------------------------------------------------------
 void Atom::sfacevertices(vector<int> nss){
+    if (nss.size() > MAXNUMBEROFNEIGHBORS){
+        throw invalid_argument("too many faces");
+    }
     for(int i=0; i<nss.size(); i++){
         facevertices[i] = nss[i];
     }
@@ -382,6 +412,9 @@ vector<int> Atom::gfacevertices(){
 }
 
 void Atom::sfaceperimeters(vector<double> nss){
+    if (nss.size() > MAXNUMBEROFNEIGHBORS){
+        throw invalid_argument("too many faces");
+    }
     for(int i=0; i<nss.size(); i++){
         faceperimeters[i] = nss[i];
     }
@@ -424,6 +457,9 @@ vector<int> Atom::gvorovector(){
 
 void Atom::svorovector(vector<int> voro){
 
+    if (voro.size() < 4){
+        throw invalid_argument("vorovector should have four components");
+    }
     n3 = voro[0];
     n4 = voro[1];
     n5 = voro[2];
-- 
2.43.0


From 831ea9cb282b59b929d826d4713736f633dd6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 03/56] fix: give every field of a new system a defined value

---
 src/pyscal/system.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7ba835f..fe0957f 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -35,8 +35,32 @@ System::System(){
     for(int i=0; i<3; i++){
         for(int j=0; j<3; j++){
             box[i][j] = 0.0;
-        }
-    }
+            rot[i][j] = 0.0;
+            rotinv[i][j] = 0.0;
+        }
+        boxdims[i][0] = 0.0;
+        boxdims[i][1] = 0.0;
+    }
+    boxx = 0;
+    boxy = 0;
+    boxz = 0;
+
+    nx = 0;
+    ny = 0;
+    nz = 0;
+    total_cells = 0;
+    cells = NULL;
+
+    reqdqs = NULL;
+    lenqs = 0;
+    reqdaqs = NULL;
+    lenaqs = 0;
+
+    minfrenkel = 0;
+    threshold = 0;
+    avgthreshold = 0;
+    face_cutoff = 0;
+    lattice_constant = 0;
 
 }
 
-- 
2.43.0


From d3c1dbfe466306df8a22db1ded93645fc6bd4436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:53 +0000
Subject: [PATCH 04/56] fix: store every assigned or added atom under its own
 index, real atoms before ghosts

---
 src/pyscal/system.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index fe0957f..4fd9291 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -143,21 +143,28 @@ void System::set_atoms( vector<Atom> atomitos){
     atoms.clear();
     nop = atomitos.size();
     atoms.reserve(nop);
-    atoms.assign(atomitos.begin(), atomitos.end());
 
-    //now assign ghost and real atoms
+    //now assign ghost and real atoms, real atoms are always first
     int tg = 0;
     int tl = 0;
 
     for(int i=0; i<nop; i++){
-        if(atoms[i].ghost==0){
+        if(atomitos[i].ghost==0){
+            atoms.emplace_back(atomitos[i]);
             tl++;
         }
-        else{
+    }
+    for(int i=0; i<nop; i++){
+        if(atomitos[i].ghost!=0){
+            atoms.emplace_back(atomitos[i]);
             tg++;
         }
     }
 
+    for(int i=0; i<nop; i++){
+        atoms[i].loc = i;
+    }
+
     ghost_nop = tg;
     real_nop = tl;
     //cout<<"Assigned real "<<tl<<" ghost "<<tg<<endl;
@@ -195,14 +202,12 @@ void System::add_atoms(vector<Atom> atomitos){
     }
 
     //if there is are no ghosts in system and list, just add and forget
-    if(ghost_nop==0){
-        if(tg==0){
-            for (int i=0; i<atomitos.size(); i++){
-                atoms.emplace_back(atomitos[i]);
-            }            
+    if((ghost_nop==0) && (tg==0)){
+        for (int i=0; i<atomitos.size(); i++){
+            atoms.emplace_back(atomitos[i]);
         }
     }
-    else if (ghost_nop>0){
+    else{
         //now the atoms need to be reordered
         vector<Atom> real_atoms;
         vector<Atom> ghost_atoms;        
@@ -243,6 +248,10 @@ void System::add_atoms(vector<Atom> atomitos){
     ghost_nop = ghost_nop + tg;
     real_nop = real_nop + tl;
     nop = nop + atomitos.size();
+
+    for(int i=0; i<nop; i++){
+        atoms[i].loc = i;
+    }
 }
 
 
-- 
2.43.0


From de41600bbd21d721d8af7bc1515131912b6f0d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:28 +0000
Subject: [PATCH 05/56] fix: refuse to get or set an atom that does not exist

---
 src/pyscal/system.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 4fd9291..a9d0425 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -265,9 +265,17 @@ vector<Atom> System::get_all_atoms( ){
 
 }
 
-Atom System::gatom(int i) { return atoms[i]; }
+Atom System::gatom(int i) {
+    if ((i < 0) || (i >= nop)){
+        throw out_of_range("no atom with this index");
+    }
+    return atoms[i];
+}
 void System::satom(Atom atom1) {
     int idd = atom1.loc;
+    if ((idd < 0) || (idd >= nop)){
+        throw out_of_range("no atom with this index");
+    }
     atoms[idd] = atom1;
 }
 
-- 
2.43.0


From 65848b56e821e117b405426264a0585fea40bdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:01 +0000
Subject: [PATCH 06/56] fix: a newly assigned box replaces the former one and
 its triclinic setting

---
 src/pyscal/core.py | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 7a7f900..ee5ee4f 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -109,19 +109,29 @@ class System(pc.System):
         """
         Box setter 
         """
+        #a newly assigned box replaces a former one, also if that was repeated
+        self.actual_box = None
+        self._assign_box(userbox)
+
+    def _assign_box(self, userbox):
+        """
+        Assign the box of the engine
+        """
         #we should automatically check for triclinic cells here
         summ = 0
         for i in range(3):
             box1 = np.array(userbox[i-1])
             box2 = np.array(userbox[i])
-            summ += np.dot(box1, box2)/(np.linalg.norm(box1)*np.linalg.norm(box2))
+            summ += np.abs(np.dot(box1, box2)/(np.linalg.norm(box1)*np.linalg.norm(box2)))
 
         #check if the summ is zero
-        if (np.abs(summ) > 1E-6):
+        if (summ > 1E-6):
             #this is a triclinic box
             rot = np.array(userbox).T
             rotinv = np.linalg.inv(rot)
             self.assign_triclinic_params(rot, rotinv)
+        else:
+            self.triclinic = 0
 
         self._box = userbox
 
@@ -555,19 +565,22 @@ class System(pc.System):
             
             self.voroexp = int(voroexp)
 
+            if self.triclinic and not self.ghosts_created:
+                atoms  = self.get_atoms()
+                atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
+                self.set_atoms(atoms)
+
             #copy the simulation cell
             backupbox = self._box.copy()
             if self.triclinic:
-                if not self.ghosts_created:
-                    atoms  = self.get_atoms()
-                    atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
-                    self.set_atoms(atoms)
-                    self.embed_in_cubic_box()
-            #self.embed_in_cubic_box()
+                self.embed_in_cubic_box()
+                #distances are still those of the triclinic cell
+                self.triclinic = 1
+
             self.get_all_neighbors_voronoi()
 
             #replace box
-            self.box = backupbox
+            self._assign_box(backupbox)
 
         self.neighbors_found = True
 
@@ -1922,8 +1935,8 @@ class System(pc.System):
             If True, assign the new atoms as ghost instead of actual atoms
         """
         
-        box = self.box        
-        self.actual_box = box.copy()
+        actual_box = self.box
+        box = actual_box.copy()
 
         if atoms is None:
             atoms = self.atoms
@@ -1963,7 +1976,9 @@ class System(pc.System):
             box[0] = xs*np.array(box[0])
             box[1] = ys*np.array(box[1])
             box[2] = zs*np.array(box[2])
-            self.box = box
+            self._assign_box(box)
+            #only ghosts leave the actual box as it was
+            self.actual_box = actual_box if ghost else None
         if ghost:
             self.ghosts_created = True
 
@@ -2021,7 +2036,7 @@ class System(pc.System):
 
 
         self.newbox = newbox
-        self.box = newbox
+        self._assign_box(newbox)
         #self.atoms = atoms
 
     def extract_cubic_box(self, repeat=(3,3,3)):
-- 
2.43.0


From d81e97ea5b6638042f1277ddc9b43c2fdfc01d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:43 +0000
Subject: [PATCH 07/56] fix: refuse unknown neighbor methods and filters,
 forget the neighbors before a new search

---
 src/pyscal/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index ee5ee4f..11ba41c 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -500,8 +500,13 @@ class System(pc.System):
         .. [3] Haeberle, J, Sperl, M, Born, P, arxiv 2019
 
         """
+        if method not in ['cutoff', 'number', 'voronoi']:
+            raise ValueError("method should be cutoff, number or voronoi")
+        if filter not in [None, 'type', 'type_r']:
+            raise ValueError("filter should be None, type or type_r")
+
         #first reset all neighbors
-        self.reset_allneighbors()
+        self.reset_neighbors()
         self.filter = 0
 
         if filter == 'type':
-- 
2.43.0


From 4857ad319d73e2e75366d6c724ada0fd6555bfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 08/56] fix: count solid bonds on one side of the threshold
 only

---
 src/pyscal/system.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index a9d0425..08c0b19 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1755,11 +1755,13 @@ void System::calculate_frenkel_numbers(){
 
             scalar = get_number_from_bond(ti,atoms[ti].neighbors[c]);
             atoms[ti].sij[c] = scalar;
-            if (comparecriteria == 0)
+            if (comparecriteria == 0){
                 if (scalar > threshold) frenkelcons += 1;
-            else
+            }
+            else{
                 if (scalar < threshold) frenkelcons += 1;
-            
+            }
+
             atoms[ti].avq6q6 += scalar;
         }
 
-- 
2.43.0


From e67222e215721d80a61952f4ea7248fd84290cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:27 +0000
Subject: [PATCH 09/56] fix: calculate disorder from the neighbors of the atom

---
 src/pyscal/system.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 08c0b19..b80d8a8 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1657,13 +1657,14 @@ void System::calculate_disorder(){
     //now find cross terms
     for(int ti=0; ti<nop; ti++){
 
-        sumSquareti = 0.0;
-        sumSquaretj = 0.0;
-        realdotproduct = 0.0;
-        imgdotproduct = 0.0;
         dis = 0;
 
-        for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
+        for(int c=0; c<atoms[ti].n_neighbors; c++){
+            int tj = atoms[ti].neighbors[c];
+            sumSquareti = 0.0;
+            sumSquaretj = 0.0;
+            realdotproduct = 0.0;
+            imgdotproduct = 0.0;
             for (int mi = 0;mi < 2*solidq+1 ;mi++){
                 sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
                 sumSquaretj += atoms[tj].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi] + atoms[tj].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
-- 
2.43.0


From df0fdc2951a9ad1d48d590022eed419b677eaf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:02 +0000
Subject: [PATCH 10/56] fix: use the local density of each atom for its entropy

---
 src/pyscal/system.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index b80d8a8..e62ea99 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2569,10 +2569,10 @@ void System::entropy(double sigma, double rho, double rstart, double rstop, doub
     for(int i=0; i<nop; i++){
         
         atoms[i].sigma = sigma;
+        atoms[i].rho = rho;
         if (rho == 0){
-            rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
+            atoms[i].rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
         }
-        atoms[i].rho = rho;
         atoms[i].rstart = rstart;
         atoms[i].rstop = rstop;
         atoms[i].h = h;
-- 
2.43.0


From 3d5e91dbfade9370174ef2710c80655260f137d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:38 +0000
Subject: [PATCH 11/56] fix: join connected clusters in find_clusters

---
 src/pyscal/system.cpp | 31 ++-----------------------------
 1 file changed, 2 insertions(+), 29 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index e62ea99..64173c6 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1798,35 +1798,8 @@ void System::find_solid_atoms(){
 
 
 void System::find_clusters(double clustercutoff){
-        //Clustering methods should only run over real atoms
-        if (clustercutoff != 0){
-          for(int ti=0; ti<real_nop;ti++){
-              atoms[ti].cutoff = clustercutoff;
-          }
-        }
-        for(int ti=0; ti<real_nop;ti++){
-            atoms[ti].belongsto = -1;
-        }
-
-        for (int ti= 0;ti<real_nop;ti++){
-
-            if (!atoms[ti].condition) continue;
-            if (atoms[ti].ghost) continue;
-
-            if (atoms[ti].belongsto==-1) {atoms[ti].belongsto = atoms[ti].id; }
-            for (int c = 0;c<atoms[ti].n_neighbors;c++){
-
-                if(!atoms[atoms[ti].neighbors[c]].condition) continue;
-                if(!(atoms[ti].neighbordist[atoms[ti].neighbors[c]] <= atoms[ti].cutoff)) continue;
-                if (atoms[atoms[ti].neighbors[c]].ghost) continue;
-                if (atoms[atoms[ti].neighbors[c]].belongsto==-1){
-                    atoms[atoms[ti].neighbors[c]].belongsto = atoms[ti].belongsto;
-                }
-                else{
-                    atoms[ti].belongsto = atoms[atoms[ti].neighbors[c]].belongsto;
-                }
-            }
-        }
+        //a single pass cannot join clusters that turn out to be connected
+        find_clusters_recursive(clustercutoff);
 }
 
 //we have to test with a recursive algorithm - to match the values that is presented
-- 
2.43.0


From 9d262b75f5721d76242b39f2e3f96a179cc252f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:15 +0000
Subject: [PATCH 12/56] fix: no atom is in the largest cluster if there are no
 clusters

---
 src/pyscal/system.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 64173c6..97e3988 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1863,6 +1863,7 @@ int System::largest_cluster(){
         }
 
         int max=0;
+        maxclusterid = -1;
         for (int ti= 0;ti<real_nop;ti++)
         {
             if (freq[ti]>max){
@@ -1872,6 +1873,7 @@ int System::largest_cluster(){
 
         }
 
+        delete[] freq;
         get_largest_cluster_atoms();
 
         return max;
@@ -1882,7 +1884,7 @@ void System::get_largest_cluster_atoms(){
             atoms[ti].issurface = 1;
             atoms[ti].lcluster = 0;
             //if its in same cluster as max cluster assign it as one
-            if(atoms[ti].belongsto == maxclusterid){
+            if((maxclusterid != -1) && (atoms[ti].belongsto == maxclusterid)){
                 atoms[ti].lcluster = 1;
             }
            //if its solid- identfy if it has liquid
-- 
2.43.0


From ffe1112184ba3dc0fa2cad42e6b620f39ec1e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:54 +0000
Subject: [PATCH 13/56] fix: start structure analysis from fresh neighbors and
 refuse incomplete ones

---
 src/pyscal/system.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 97e3988..8c5ad9b 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2059,6 +2059,11 @@ void System::get_diamond_neighbors(){
     latest identification.
     */
     reset_main_neighbors();
+    for (int ti=0; ti<nop; ti++){
+        if (atoms[ti].temp_neighbors.size() < 4){
+            throw runtime_error("could not find enough neighbors");
+        }
+    }
     for (int ti=0; ti<nop; ti++){
         //cout<<"ti = "<<ti<<endl;
         //start loop
@@ -2459,7 +2464,10 @@ vector<int> System::calculate_cna(int method){
     
     //first get lump neighbors
     //neighbor method is same
-    get_all_neighbors_bynumber(3, 14, 0);
+    reset_all_neighbors();
+    if (!get_all_neighbors_bynumber(3, 14, 0)){
+        throw runtime_error("could not find enough neighbors");
+    }
 
     //first we start by checking for 12 CN 
     //CNA method
@@ -2598,7 +2606,9 @@ void System::calculate_centrosymmetry_atom(int ti, int nmax){
 void System::calculate_centrosymmetry(int nmax){
 
     reset_all_neighbors();
-    get_all_neighbors_bynumber(3, nmax, 1);
+    if (!get_all_neighbors_bynumber(3, nmax, 1)){
+        throw runtime_error("could not find enough neighbors");
+    }
 
     //now loop over atoms and call
     for(int ti=0; ti<nop; ti++){
-- 
2.43.0


From 90178d323ce18fb51dfac6035d7d1ffceed0d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:15 +0000
Subject: [PATCH 14/56] fix: weights of an adaptive search are not voronoi
 weights

---
 src/pyscal/system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 8c5ad9b..7808398 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1236,6 +1236,9 @@ int System::get_all_neighbors_sann(double prefactor){
 
 int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padding){
 
+    //reset voronoi flag
+    voronoiused = 0;
+
     double d, dcut;
     double diffx,diffy,diffz;
     double r,theta,phi;
-- 
2.43.0


From 4da458549c7ddfee4a71f7e0ca65e5a03900b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:52 +0000
Subject: [PATCH 15/56] fix: same candidates from the direct and the cell
 search

---
 src/pyscal/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7808398..921f6c9 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -864,7 +864,7 @@ void System::get_temp_neighbors_brute(){
         for (int tj=ti; tj<nop; tj++){
             if(ti==tj) { continue; }
             d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-            if (d <= neighbordistance){
+            if (d < neighbordistance){
                 datom x = {d, tj};
                 atoms[ti].temp_neighbors.emplace_back(x);
                 datom y = {d, ti};
-- 
2.43.0


From 8c7fd36914b5fe56c78fc54e6b269b67d8095e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:29 +0000
Subject: [PATCH 16/56] fix: store the cutoff that results from a search by
 number

---
 src/pyscal/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 921f6c9..0bef6dd 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -991,6 +991,7 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
             for(int i=0; i<nns; i++){
                 int tj = atoms[ti].temp_neighbors[i].index;
                 process_neighbor(ti, tj);
+                atoms[ti].cutoff = atoms[ti].temp_neighbors[i].dist;
             }
         }
 
-- 
2.43.0


From ac9bb012dc3e9bcf2cebd9bb2f6c6c2f6acf7071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:20 +0000
Subject: [PATCH 17/56] fix: use cell lists only where they find the same
 neighbors, and release them

---
 src/pyscal/system.cpp | 28 ++++++++++++++++++++++++++++
 src/pyscal/system.h   |  1 +
 2 files changed, 29 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 0bef6dd..58f14c1 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -528,6 +528,12 @@ int System::cell_index(int cx, int cy, int cz){
 }
 
 
+//cells cannot be used if the box is triclinic or does not have three cells in each direction
+bool System::cells_possible(){
+    if (triclinic == 1) return false;
+    return (boxx >= 3*neighbordistance) && (boxy >= 3*neighbordistance) && (boxz >= 3*neighbordistance);
+}
+
 //if number of particles are small, use brute force
 //if box is triclinic, use brute force
 void System::set_up_cells(){
@@ -599,6 +605,11 @@ void System::set_up_cells(){
           cy = dy/ly;
           cz = dz/lz;
 
+          //the upper edge belongs to the last cell, also after rounding
+          cx = min(max(cx, 0), nx-1);
+          cy = min(max(cy, 0), ny-1);
+          cz = min(max(cz, 0), nz-1);
+
           //now get cell index
           ind = cell_index(cx, cy, cz);
           //got cell index
@@ -689,6 +700,12 @@ void System::get_all_neighbors_cells(){
 
     voronoiused = 0;
 
+    //cells only work if the neighbor cells of a cell are distinct
+    if (!cells_possible()){
+        get_all_neighbors_normal();
+        return;
+    }
+
     double d;
     double diffx,diffy,diffz;
     double r,theta,phi;
@@ -758,6 +775,8 @@ void System::get_all_neighbors_cells(){
         }
     }
 
+    delete[] cells;
+    cells = NULL;
 
 }
 
@@ -881,6 +900,12 @@ about 2000 atoms.
 */
 void System::get_temp_neighbors_cells(){
 
+    //cells only work if the neighbor cells of a cell are distinct
+    if (!cells_possible()){
+        get_temp_neighbors_brute();
+        return;
+    }
+
     //first create cells
     set_up_cells();
 
@@ -919,6 +944,9 @@ void System::get_temp_neighbors_cells(){
         }
     }
 
+    delete[] cells;
+    cells = NULL;
+
 }
 int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
     /*
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 9f6558f..ef652aa 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -93,6 +93,7 @@ class System{
         void susecells(int);
         int gusecells();
         int cell_index(int, int, int);
+        bool cells_possible();
         void set_up_cells();
         vector<int> cell_periodic(int, int, int);
         void get_all_neighbors_cells();
-- 
2.43.0


From 3e19498af3f89794ee4356cd86a1eb23466f5dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 18/56] fix: stop the sann search at the end of the candidates
 and store its cutoff

---
 src/pyscal/system.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 58f14c1..f64678a 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1233,6 +1233,7 @@ int System::get_all_neighbors_sann(double prefactor){
         while( (m < maxneighs) && (dcut >= atoms[ti].temp_neighbors[m].dist)){
             //increase m
             m = m+1;
+            if (m == maxneighs) break;
 
             //here now we can add this to the list neighbors and process things
             int tj = atoms[ti].temp_neighbors[m].index;
@@ -1241,8 +1242,8 @@ int System::get_all_neighbors_sann(double prefactor){
             //find new dcut
             summ = summ + atoms[ti].temp_neighbors[m].dist;
             dcut = summ/float(m-2);
-            atoms[ti].cutoff = dcut;
         }
+        atoms[ti].cutoff = dcut;
 
         //find if there was an error
         if (m==maxneighs){
-- 
2.43.0


From 12ee59842c385be6d7e8fa53e1d4a96c15d525c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:58 +0000
Subject: [PATCH 19/56] fix: filter voronoi neighbors by their own species,
 without gaps

---
 src/pyscal/system.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index f64678a..9b1cd08 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2008,6 +2008,7 @@ void System::get_all_neighbors_voronoi(){
             atoms[ti].cutoff = cbrt(3*vol/(4*3.141592653589793));
             
             //clean up and add vertex positions
+            atoms[ti].vertex_positions.clear();
             nverts = int(v.size())/3;
             pos = atoms[ti].gx();
             for(int si=0; si<nverts; si++){
@@ -2031,27 +2032,29 @@ void System::get_all_neighbors_voronoi(){
             for (int tj=0; tj<neigh.size(); tj++){
 
                 //if filter doesnt work continue
-                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                if ((filter == 1) && (atoms[ti].type != atoms[neigh[tj]].type)){
                     continue;
                 }
-                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                else if ((filter == 2) && (atoms[ti].type == atoms[neigh[tj]].type)){
                     continue;
                 }
-                atoms[ti].neighbors[tj] = neigh[tj];
+                //faces which are left out do not leave a gap
+                int nn = atoms[ti].n_neighbors;
+                atoms[ti].neighbors[nn] = neigh[tj];
                 atoms[ti].n_neighbors += 1;
                 d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
-                atoms[ti].neighbordist[tj] = d;
+                atoms[ti].neighbordist[nn] = d;
                 //weight is set to 1.0, unless manually reset
-                atoms[ti].neighborweight[tj] = pow(facearea[tj], alpha)/weightsum;
-                atoms[ti].facevertices[tj] = f_vert[tj];
-                atoms[ti].faceperimeters[tj] = faceperimeters[tj];
-                atoms[ti].n_diffx[tj] = diffx;
-                atoms[ti].n_diffy[tj] = diffy;
-                atoms[ti].n_diffz[tj] = diffz;
+                atoms[ti].neighborweight[nn] = pow(facearea[tj], alpha)/weightsum;
+                atoms[ti].facevertices[nn] = f_vert[tj];
+                atoms[ti].faceperimeters[nn] = faceperimeters[tj];
+                atoms[ti].n_diffx[nn] = diffx;
+                atoms[ti].n_diffy[nn] = diffy;
+                atoms[ti].n_diffz[nn] = diffz;
                 convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                atoms[ti].n_r[tj] = r;
-                atoms[ti].n_phi[tj] = phi;
-                atoms[ti].n_theta[tj] = theta;
+                atoms[ti].n_r[nn] = r;
+                atoms[ti].n_phi[nn] = phi;
+                atoms[ti].n_theta[nn] = theta;
 
             }
 
-- 
2.43.0


From eb2c019780d24742c96cb145ff3db4d088a03521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:31 +0000
Subject: [PATCH 20/56] fix: refuse more neighbors than an atom can store

---
 src/pyscal/system.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 9b1cd08..b7815bf 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -738,6 +738,9 @@ void System::get_all_neighbors_cells(){
                         else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                             continue;
                         }
+                        if ((atoms[ti].n_neighbors >= MAXNUMBEROFNEIGHBORS) || (atoms[tj].n_neighbors >= MAXNUMBEROFNEIGHBORS)){
+                            throw out_of_range("too many neighbors");
+                        }
                         //process_neighbor(ti, tj);
                         atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                         atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
@@ -804,6 +807,9 @@ void System::get_all_neighbors_normal(){
                 else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                     continue;
                 }
+                if ((atoms[ti].n_neighbors >= MAXNUMBEROFNEIGHBORS) || (atoms[tj].n_neighbors >= MAXNUMBEROFNEIGHBORS)){
+                    throw out_of_range("too many neighbors");
+                }
                 //process_neighbor(ti, tj);
                 atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                 atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
@@ -851,6 +857,10 @@ void System::process_neighbor(int ti, int tj){
     double d, diffx, diffy, diffz;
     double r, phi, theta;
 
+    if (atoms[ti].n_neighbors >= MAXNUMBEROFNEIGHBORS){
+        throw out_of_range("too many neighbors");
+    }
+
     d = get_abs_distance(ti, tj, diffx,diffy,diffz);
 
     atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
@@ -1344,6 +1354,9 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
                 else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                     continue;
                 }
+                if (atoms[ti].n_neighbors >= MAXNUMBEROFNEIGHBORS){
+                    throw out_of_range("too many neighbors");
+                }
                 d = get_abs_distance(ti,tj,diffx,diffy,diffz);
                 atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                 atoms[ti].neighbordist[atoms[ti].n_neighbors] =d;
@@ -2040,6 +2053,9 @@ void System::get_all_neighbors_voronoi(){
                 }
                 //faces which are left out do not leave a gap
                 int nn = atoms[ti].n_neighbors;
+                if (nn >= MAXNUMBEROFNEIGHBORS){
+                    throw out_of_range("too many neighbors");
+                }
                 atoms[ti].neighbors[nn] = neigh[tj];
                 atoms[ti].n_neighbors += 1;
                 d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
-- 
2.43.0


From 2b6fb989ba1c72d4234edb6ea55e72c9c76992ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:13 +0000
Subject: [PATCH 21/56] fix: searches by number and sann honour the species
 filter

---
 src/pyscal/system.cpp | 30 ++++++++++++++++++++++++++++++
 src/pyscal/system.h   |  1 +
 2 files changed, 31 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index b7815bf..d5f2662 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -958,6 +958,29 @@ void System::get_temp_neighbors_cells(){
     cells = NULL;
 
 }
+
+void System::filter_temp_neighbors(){
+    /*
+    Remove the candidates that the species filter does not admit
+    */
+    if (filter == 0) return;
+
+    for (int ti=0; ti<nop; ti++){
+        vector<datom> admitted;
+        for(int i=0; i<atoms[ti].temp_neighbors.size(); i++){
+            int tj = atoms[ti].temp_neighbors[i].index;
+            if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                continue;
+            }
+            else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                continue;
+            }
+            admitted.emplace_back(atoms[ti].temp_neighbors[i]);
+        }
+        atoms[ti].temp_neighbors = admitted;
+    }
+}
+
 int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
     /*
     A new neighbor algorithm that finds a specified number of 
@@ -1017,6 +1040,8 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
     else{
         get_temp_neighbors_brute();
     }
+    filter_temp_neighbors();
+
     for (int ti=0; ti<nop; ti++){
         if (atoms[ti].temp_neighbors.size() < nns){
             return 0;
@@ -1219,6 +1244,7 @@ int System::get_all_neighbors_sann(double prefactor){
     else{
         get_temp_neighbors_brute();
     }
+    filter_temp_neighbors();
 
     for (int ti=0; ti<nop; ti++){
         if (atoms[ti].temp_neighbors.size() < 3){
@@ -2516,6 +2542,8 @@ vector<int> System::calculate_cna(int method){
     
     //first get lump neighbors
     //neighbor method is same
+    //neighbors of all species count
+    filter = 0;
     reset_all_neighbors();
     if (!get_all_neighbors_bynumber(3, 14, 0)){
         throw runtime_error("could not find enough neighbors");
@@ -2657,6 +2685,8 @@ void System::calculate_centrosymmetry_atom(int ti, int nmax){
 
 void System::calculate_centrosymmetry(int nmax){
 
+    //neighbors of all species count
+    filter = 0;
     reset_all_neighbors();
     if (!get_all_neighbors_bynumber(3, nmax, 1)){
         throw runtime_error("could not find enough neighbors");
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index ef652aa..d15d79c 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -79,6 +79,7 @@ class System{
         void process_neighbor(int, int);
         int get_all_neighbors_sann(double);
         int get_all_neighbors_bynumber(double, int, int);
+        void filter_temp_neighbors();
         int get_neighbors_from_temp(int);
         int get_all_neighbors_adaptive(double, int, double);
         void get_all_neighbors_voronoi();
-- 
2.43.0


From bfd6cb1ee801ead42929ae01b04d3e29850f971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:51 +0000
Subject: [PATCH 22/56] fix: release cells also after an interrupted search

---
 src/pyscal/system.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index d5f2662..975107d 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -65,6 +65,7 @@ System::System(){
 }
 
 System::~System(){
+    delete[] cells;
 }
 
 //-----------------------------------------------------
@@ -551,6 +552,7 @@ void System::set_up_cells(){
       //find the total number of cells
       total_cells = nx*ny*nz;
       //create a vector of cells
+      delete[] cells;
       cells = new cell[total_cells];
       //now run over and for each cell create its neighbor cells
       //all neighbor cells are also added
-- 
2.43.0


From 9d17148d7eca6da5076008628550afcd68eccef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 23/56] fix: keep ghost atoms when computed properties are put
 back

---
 src/pyscal/core.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 11ba41c..15edd4c 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -158,7 +158,24 @@ class System(pc.System):
             if np.sum(self.box) == 0:
                 raise ValueError("Simulation box should be initialized before atoms")
             atoms = self.repeat((nx, nx, nx), atoms=atoms, ghost=True, scale_box=True)
+        else:
+            self.ghosts_created = False
+
+        self.set_atoms(atoms)
 
+    def _store_atoms(self, atoms):
+        """
+        Put back atoms after their properties were changed. Ghost atoms are
+        kept, and take over the condition and energy of the atom they repeat.
+        """
+        natoms = len(atoms)
+        if natoms < self.ntotal:
+            ghosts = self.get_all_atoms()[natoms:]
+            if len(ghosts) % natoms == 0:
+                for count, ghost in enumerate(ghosts):
+                    ghost.condition = atoms[count % natoms].condition
+                    ghost.energy = atoms[count % natoms].energy
+            atoms = atoms + ghosts
         self.set_atoms(atoms)
 
     def add_atoms(self, atoms):
@@ -729,7 +746,7 @@ class System(pc.System):
 
             atom.edge_lengths = edge_lengths
             atom.vorovector = vorovector
-        self.atoms = atoms
+        self._store_atoms(atoms)
 
 
     def calculate_q(self, q, averaged = False, only_averaged=False, condition=None, clear_condition=False):
@@ -828,13 +845,13 @@ class System(pc.System):
                 for atom in atoms:
                     cval = condition(atom)
                     atom.condition = cval
-            self.atoms = atoms
+            self._store_atoms(atoms)
 
         if clear_condition:
             atoms = self.atoms
             for atom in atoms:
                 atom.condition = 0
-            self.atoms = atoms
+            self._store_atoms(atoms)
 
         if not only_averaged:
             self.ccalculate_q(qq)
@@ -1067,7 +1084,7 @@ class System(pc.System):
                 cval = condition(atom)
                 atom.condition = cval
         
-        self.atoms = atoms
+        self._store_atoms(atoms)
         self.cfind_clusters_recursive(cutoff)
 
         #done!
@@ -1181,7 +1198,7 @@ class System(pc.System):
                 costhetasum += (costheta +(1./3.))**2
             atom.angular = costhetasum
 
-        self.atoms = atoms
+        self._store_atoms(atoms)
 
     def calculate_chiparams(self, angles=False):
         """
@@ -1248,7 +1265,7 @@ class System(pc.System):
             atom.chiparams = chivector[0]
             if angles:
                 atom.custom['cosines'] = costhetas
-        self.atoms = atoms
+        self._store_atoms(atoms)
 
     
     def calculate_cna(self, lattice_constant=None):
@@ -1530,7 +1547,7 @@ class System(pc.System):
                     atom.sro = [shell1]
 
         #add atoms
-        self.atoms = atoms
+        self._store_atoms(atoms)
         #now if avg is reqd, find it
         if average:
             vec = np.zeros(2)
@@ -1646,7 +1663,7 @@ class System(pc.System):
                         atom.sro = [shell1]
 
         #add atoms
-        self.atoms = atoms
+        self._store_atoms(atoms)
         #now if avg is reqd, find it
         if average:
             vec = np.zeros(2)
@@ -1921,7 +1938,7 @@ class System(pc.System):
             neteng = np.sum([atoms[x].energy for x in atom.neighbors])
             atom.avg_energy = (neteng + atom.energy)/(len(atom.neighbors) + 1.)
 
-        self.atoms = atoms
+        self._store_atoms(atoms)
 
 
     def repeat(self, reps, atoms=None, ghost=False, scale_box=True):
-- 
2.43.0


From b41fa66ef482128e769533add18109f4afda3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 24/56] fix: angular criterion also with ghost neighbors

---
 src/pyscal/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 15edd4c..2ffbaf8 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1167,7 +1167,8 @@ class System(pc.System):
         .. [1] Uttormark, MJ, Thompson, MO, Clancy, P, Phys. Rev. B 47, 1993
         """
 
-        atoms = self.atoms
+        #neighbors could also be ghosts
+        atoms = self.get_all_atoms()
 
         for atom in atoms:
             dists = []
-- 
2.43.0


From 72f178e9317583f266ae310bf09ed9c6f2a16dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 25/56] fix: calculate_energy uses the mass, finds neighbors
 first and always removes its file

---
 src/pyscal/core.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 2ffbaf8..d76aa46 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1917,24 +1917,28 @@ class System(pc.System):
         with an adaptive cutoff method.
         """
         outfile = os.path.join(os.getcwd(), str(uuid.uuid4().hex))
-        aseobject = self.to_file(outfile, format='lammps-data', species=species)
-
-        indict = routines.get_energy_atom(outfile, species=species,
-            pair_style=pair_style, pair_coeff=pair_coeff,
-            mass=1.0)
-
-        atoms = self.atoms
-    
-        for atom in atoms:
-            atom.energy = indict[str(atom.id)]
+        try:
+            aseobject = self.to_file(outfile, format='lammps-data', species=species)
 
-        #clean up
-        os.remove(outfile)
+            indict = routines.get_energy_atom(outfile, species=species,
+                pair_style=pair_style, pair_coeff=pair_coeff,
+                mass=mass)
+        finally:
+            #clean up
+            if os.path.exists(outfile):
+                os.remove(outfile)
 
         if averaged:
             if not self.neighbors_found:
                 self.find_neighbors(method="cutoff", cutoff=0)
 
+        #neighbors could also be ghosts, which have the energy of the atom they repeat
+        atoms = self.get_all_atoms()
+        natoms = self.natoms
+
+        for count, atom in enumerate(atoms):
+            atom.energy = indict[str(atoms[count % natoms].id)]
+
         for atom in atoms:
             neteng = np.sum([atoms[x].energy for x in atom.neighbors])
             atom.avg_energy = (neteng + atom.energy)/(len(atom.neighbors) + 1.)
-- 
2.43.0


From 380fd026c73d449dd0f4f0f307975d8bbf7eee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:02 +0000
Subject: [PATCH 26/56] fix: find_solids compares in the requested direction

---
 src/pyscal/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index d76aa46..7d955d9 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -968,6 +968,9 @@ class System(pc.System):
         else:
              raise TypeError("bonds should be interger/float value")
 
+        #set the direction of the comparison
+        self.comparecriteria = 0 if right else 1
+
         #Set the vlaue of q
         self.solidq = q
         #first calculate q
-- 
2.43.0


From 213c8f8bb608f3cec12ce63acf3688f69fb759ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 27/56] fix: chi parameters return the cosines on request

---
 src/pyscal/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 7d955d9..be380b2 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1241,6 +1241,7 @@ class System(pc.System):
 
         bins = [-1.0, -0.945, -0.915, -0.755, -0.705, -0.195, 0.195, 0.245, 0.795, 1.0]
         atoms = self.atoms
+        allcosthetas = []
 
         for atom in atoms:
             dists = []
@@ -1269,8 +1270,12 @@ class System(pc.System):
             atom.chiparams = chivector[0]
             if angles:
                 atom.custom['cosines'] = costhetas
+                allcosthetas.extend(costhetas)
         self._store_atoms(atoms)
 
+        if angles:
+            return np.array(allcosthetas)
+
     
     def calculate_cna(self, lattice_constant=None):
         """
-- 
2.43.0


From 3516e47dd3700fad08d8e702fea9e0f9ad918c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:03 +0000
Subject: [PATCH 28/56] fix: short range order uses the concentration of the
 species and the requested shells

---
 src/pyscal/core.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index be380b2..7c1574f 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1515,6 +1515,9 @@ class System(pc.System):
         if not reference_type in [1,2]:
             raise ValueError("reference atom type should be either 1 or 2")
 
+        if not shells in [1, 2]:
+            raise ValueError("shells should be either 1 or 2")
+
         atoms = self.get_all_atoms()
 
         try:
@@ -1559,7 +1562,7 @@ class System(pc.System):
         self._store_atoms(atoms)
         #now if avg is reqd, find it
         if average:
-            vec = np.zeros(2)
+            vec = np.zeros(shells)
             count = 0
             for atom in atoms:
                 if atom.type == reference_type:
@@ -1633,8 +1636,12 @@ class System(pc.System):
         if not compare_type in types[0]:
             raise ValueError("Compare atom type is invalid")
     
-        mref  = types[1][reference_type-1]/float(np.sum(types[1]))
-        mcomp = types[1][compare_type-1]/float(np.sum(types[1]))
+        if not shells in [1, 2]:
+            raise ValueError("shells should be either 1 or 2")
+
+        counts = dict(zip(types[0], types[1]))
+        mref  = counts[reference_type]/float(np.sum(types[1]))
+        mcomp = counts[compare_type]/float(np.sum(types[1]))
 
         for atom in atoms:
             if atom.type == reference_type:
@@ -1675,7 +1682,7 @@ class System(pc.System):
         self._store_atoms(atoms)
         #now if avg is reqd, find it
         if average:
-            vec = np.zeros(2)
+            vec = np.zeros(shells)
             count = 0
             for atom in atoms:
                 if atom.type == reference_type:
-- 
2.43.0


From 4e4d1d6edf732609146720a24ebcbaa105de13d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 29/56] fix: volumes and densities are positive and refer to
 the same atoms

---
 src/pyscal/core.py    | 9 +++++----
 src/pyscal/system.cpp | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 7c1574f..8ccafb0 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -329,9 +329,10 @@ class System(pc.System):
         r = bin_edges[:-1]
 
         #get box density
-        boxvecs = self.box
-        vol = np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2])
-        natoms = self.nop
+        #the distances are between all atoms, including ghosts
+        boxvecs = self._box
+        vol = np.abs(np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2]))
+        natoms = self.ntotal
         rho = int(natoms*(natoms-1)*0.5)/vol
 
         shell_vols = (4./3.)*np.pi*((r+edgewidth)**3 - r**3)
@@ -1802,7 +1803,7 @@ class System(pc.System):
 
         #calculate rho
         box = self.box
-        vol = np.dot(np.cross(box[0], box[1]), box[2])
+        vol = np.abs(np.dot(np.cross(box[0], box[1]), box[2]))
         if local:
             rho = 0
         else:
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 975107d..77b1ac9 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1020,7 +1020,7 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
         c1 = rot[0][2];
         c2 = rot[1][2];
         c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+        boxvol = fabs(c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1));
     }
     else{
         boxvol = boxx*boxy*boxz;
@@ -1223,7 +1223,7 @@ int System::get_all_neighbors_sann(double prefactor){
         c1 = rot[0][2];
         c2 = rot[1][2];
         c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+        boxvol = fabs(c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1));
     }
     else{
         boxvol = boxx*boxy*boxz;
@@ -1328,7 +1328,7 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
         c1 = rot[0][2];
         c2 = rot[1][2];
         c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+        boxvol = fabs(c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1));
     }
     else{
         boxvol = boxx*boxy*boxz;
-- 
2.43.0


From 406ac65827222079f6ea9d21265a4ce12ae33a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:33 +0000
Subject: [PATCH 30/56] fix: extracting a cubic box leaves the box of the
 system as it was

---
 src/pyscal/core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 8ccafb0..b3b2863 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2099,7 +2099,19 @@ class System(pc.System):
         atoms: list of Atom objects
             atoms in the cubic box
         """
+        #distances are those in the repeated box, which is only needed here
+        engine_box, actual_box = self._box, self.actual_box
         ratoms = self.repeat(repeat)
+        try:
+            return self._find_cubic_box(ratoms)
+        finally:
+            self._assign_box(engine_box)
+            self.actual_box = actual_box
+
+    def _find_cubic_box(self, ratoms):
+        """
+        Find a cubic box between the first atom and its images
+        """
         anchor = ratoms[0]
 
         nb = []
-- 
2.43.0


From 79b8a7229370961fcfd3616c9b6f82ad81b9ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 31/56] fix: remap along the cell vectors, and only change the
 system if requested

---
 src/pyscal/core.py | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index b3b2863..2aa70ee 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2201,8 +2201,32 @@ class System(pc.System):
         """
         box = self.box
         atoms = self.atoms
+        engine_box, actual_box = self._box, self.actual_box
         self.box = box
-        newatoms = []
+
+        try:
+            newatoms = self._find_remapped_atoms(box, atoms, remove_images, remove_atoms, dtol)
+        finally:
+            if not assign:
+                self._assign_box(engine_box)
+                self.actual_box = actual_box
+
+        if assign:
+            self.atoms = newatoms
+            return None
+        else:
+            return newatoms
+
+    def _find_remapped_atoms(self, box, atoms, remove_images, remove_atoms, dtol):
+        """
+        Remap atoms into the given box, and remove atoms if requested
+        """
+        #in a triclinic cell, remap in units of the cell vectors
+        if self.triclinic:
+            cell = np.array(box)
+            for atom in atoms:
+                atom.pos = np.dot(atom.pos, np.linalg.inv(cell))
+            box = np.identity(3)
 
         for atom in atoms:
             pos = atom.pos
@@ -2229,8 +2253,13 @@ class System(pc.System):
                         if (0 <= pos[2] < box[2][2]):
                             temp.append(atom)
             atoms = temp
-        
+
+        if self.triclinic:
+            for atom in atoms:
+                atom.pos = np.dot(atom.pos, cell)
+
         if remove_images:
+            newatoms = []
             pairs = []
             for i in range(len(atoms)):
                 for j in range(i+1, len(atoms)):
@@ -2241,17 +2270,9 @@ class System(pc.System):
             for count, atom in enumerate(atoms):
                 if count not in pairs:
                     newatoms.append(atom)
-            if assign:
-                self.set_atoms(newatoms)
-                return None
-            else:
-                return newatoms
+            return newatoms
 
-        if assign:
-            self.set_atoms(atoms)
-            return None
-        else:
-            return atoms
+        return atoms
 
 
 
-- 
2.43.0


From 1d532ab4d233ddf6ac06ee3a825d17a5aa596b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 32/56] fix: the bonds of an atom are its number of solid bonds

---
 src/pyscal/atom_binding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/atom_binding.cpp b/src/pyscal/atom_binding.cpp
index b334cab..888e07e 100644
--- a/src/pyscal/atom_binding.cpp
+++ b/src/pyscal/atom_binding.cpp
@@ -417,7 +417,7 @@ py::class_<Atom>(m,"Atom", R"mydelimiter(
     .def_readwrite("common", &Atom::common, R"mydelimiter(
     )mydelimiter")
 
-    .def_readwrite("bonds", &Atom::bonds, R"mydelimiter(
+    .def_readwrite("common_bonds", &Atom::bonds, R"mydelimiter(
     )mydelimiter")
 
     //-------------------------------------------------------
-- 
2.43.0


From ed6af96138da58becbf562c73444911997e86313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:24 +0000
Subject: [PATCH 33/56] fix: remap an atom into a triclinic box, not around its
 corner

---
 src/pyscal/system.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 77b1ac9..f677d92 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -642,13 +642,12 @@ vector<double> System::remap_atom(vector<double> pos){
         dz = az*boxz;
 
         //now check pbc
-        //nearest image
-        if (dx> boxx/2.0) {dx-=boxx;};
-        if (dx<-boxx/2.0) {dx+=boxx;};
-        if (dy> boxy/2.0) {dy-=boxy;};
-        if (dy<-boxy/2.0) {dy+=boxy;};
-        if (dz> boxz/2.0) {dz-=boxz;};
-        if (dz<-boxz/2.0) {dz+=boxz;};
+        if (dx < 0) dx+=boxx;
+        else if (dx >= boxx) dx-=boxx;
+        if (dy < 0) dy+=boxy;
+        else if (dy >= boxy) dy-=boxy;
+        if (dz < 0) dz+=boxz;
+        else if (dz >= boxz) dz-=boxz;
 
         //now divide by box vals - scale down the size
         dx = dx/boxx;
-- 
2.43.0


From 6232b2841ddba536caea35ee44a8c40a5a60dc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:49 +0000
Subject: [PATCH 34/56] fix: complex conjugate in the spherical harmonics of
 negative m

---
 src/pyscal/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index f677d92..6778fc6 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1510,7 +1510,7 @@ void System::QLM(int l,int m,double theta,double phi,double &realYLM, double &im
     if (m < 0) {
         YLM(l, abs(m), theta, phi, realYLM, imgYLM);
         realYLM = pow(-1.0,m)*realYLM;
-        imgYLM = pow(-1.0,m)*imgYLM;
+        imgYLM = -pow(-1.0,m)*imgYLM;
     }
     else{
         YLM(l, m, theta, phi, realYLM, imgYLM);
-- 
2.43.0


From cf6bdbc21b63412e241f149617013bf019c9ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 35/56] fix: a neighbor search stores its cutoff for atoms
 without neighbors, too

---
 src/pyscal/system.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 6778fc6..3926f90 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -711,6 +711,10 @@ void System::get_all_neighbors_cells(){
     double diffx,diffy,diffz;
     double r,theta,phi;
     int ti, tj;
+    for(int ti=0; ti<nop; ti++){
+        atoms[ti].cutoff = neighbordistance;
+    }
+
     //first create cells
     set_up_cells();
     int maincell, subcell;
@@ -797,6 +801,7 @@ void System::get_all_neighbors_normal(){
     double r,theta,phi;
 
     for (int ti=0; ti<nop; ti++){
+        atoms[ti].cutoff = neighbordistance;
         for (int tj=ti; tj<nop; tj++){
             if(ti==tj) { continue; }
 
@@ -1369,6 +1374,7 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
             summ += atoms[ti].temp_neighbors[i].dist;
         }
         dcut = padding*(1.0/float(nlimit))*summ;
+        atoms[ti].cutoff = dcut;
 
         //now we are ready to loop over again, but over the lists
         for(int j=0; j<atoms[ti].temp_neighbors.size(); j++){
-- 
2.43.0


From 90948f98bdfb8f387890b29c880cc35faa7cdec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:03 +0000
Subject: [PATCH 36/56] fix: origin of triclinic and scaled lammps snapshots,
 index of the atoms

---
 src/pyscal/formats/lammps.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 970c78c..499ad2a 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -155,7 +155,7 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
             atom.pos = [x, y, z]
             atom.id = idd
             atom.type = typ
-            atom.loc = count-8
+            atom.loc = count-9
 
             customdict = {}
             #if customkeys need to be read, do it
@@ -190,12 +190,14 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
 
         rot = np.array([a, b, c]).T
         rotinv = np.linalg.inv(rot)
-        ortho_origin = np.array([boxx[0], boxy[0], boxz[0]])
-
-        for atom in atoms:
-            #correct zero of the atomic positions (shift box to origin)
-            dist = np.array(atom.pos) - ortho_origin
-            atom.pos = dist
+        origin = np.array([xlo, ylo, zlo])
+
+        #scaled coordinates are relative to the origin already
+        if not scaled:
+            for atom in atoms:
+                #correct zero of the atomic positions (shift box to origin)
+                dist = np.array(atom.pos) - origin
+                atom.pos = dist
 
         #finally change boxdims - to triclinic box size
         box = np.array([a, b, c])
-- 
2.43.0


From dce58ffbfa4c09e2697c54dbd1739fd1faf49726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:31 +0000
Subject: [PATCH 37/56] fix: a single custom key of a lammps snapshot can be a
 string

---
 src/pyscal/formats/lammps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 499ad2a..afceda2 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -250,6 +250,10 @@ def write_snap(sys, outfile, compressed = False,
     """
     if customkeys == None:
         customkeys = []
+    elif isinstance(customkeys, str):
+        customkeys = [customkeys]
+        if (customvals is not None) and (np.ndim(customvals) == 1):
+            customvals = [[val] for val in customvals]
 
     box = sys.box
     boxx = np.sqrt(np.sum(np.array(box[0])**2))
-- 
2.43.0


From 36c5b35f57b18c7e05ad92e9b894462a86321354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:58 +0000
Subject: [PATCH 38/56] fix: write the tilt of triclinic cells to lammps
 snapshots

---
 src/pyscal/formats/lammps.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index afceda2..ef6f654 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -262,6 +262,18 @@ def write_snap(sys, outfile, compressed = False,
 
     atoms = sys.atoms
 
+    #a triclinic cell is written in the orientation lammps uses
+    cell = np.array(box, dtype=float)
+    triclinic = np.abs(cell - np.diag(np.diag(cell))).sum() > 1E-6
+    if triclinic:
+        xy = np.dot(cell[1], cell[0])/boxx
+        xz = np.dot(cell[2], cell[0])/boxx
+        boxy = np.sqrt(boxy**2 - xy**2)
+        yz = (np.dot(cell[1], cell[2]) - xy*xz)/boxy
+        boxz = np.sqrt(boxz**2 - xz**2 - yz**2)
+        lammps_cell = np.array([[boxx, 0, 0], [xy, boxy, 0], [xz, yz, boxz]])
+        rotation = np.dot(np.linalg.inv(cell), lammps_cell)
+
     if len(customkeys) > 0:
         if customvals is None:
             cvals = [sys.get_custom(atom, customkeys) for atom in atoms]
@@ -290,10 +302,16 @@ def write_snap(sys, outfile, compressed = False,
     dump.write("%d\n" % timestep)
     dump.write("ITEM: NUMBER OF ATOMS\n")
     dump.write("%d\n" % len(atoms))
-    dump.write("ITEM: BOX BOUNDS\n")
-    dump.write("%f %f\n" % (0, boxx))
-    dump.write("%f %f\n" % (0, boxy))
-    dump.write("%f %f\n" % (0, boxz))
+    if triclinic:
+        dump.write("ITEM: BOX BOUNDS xy xz yz\n")
+        dump.write("%f %f %f\n" % (min(0, xy, xz, xy+xz), boxx + max(0, xy, xz, xy+xz), xy))
+        dump.write("%f %f %f\n" % (min(0, yz), boxy + max(0, yz), xz))
+        dump.write("%f %f %f\n" % (0, boxz, yz))
+    else:
+        dump.write("ITEM: BOX BOUNDS\n")
+        dump.write("%f %f\n" % (0, boxx))
+        dump.write("%f %f\n" % (0, boxy))
+        dump.write("%f %f\n" % (0, boxz))
 
     #now write header
     if len(customkeys) > 0:
@@ -306,6 +324,8 @@ def write_snap(sys, outfile, compressed = False,
 
     for cc, atom in enumerate(atoms):
         pos = atom.pos
+        if triclinic:
+            pos = np.dot(pos, rotation)
         if len(customkeys) > 0:
             cval_atom = " ".join(np.array(list(cvals[cc])).astype(str))
             atomline = ("%d %d %f %f %f %s\n")%(atom.id, atom.type, pos[0], pos[1], pos[2], cval_atom)
-- 
2.43.0


From ad9d7056a9497f42edb8e7ce47fd82e9486b1120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:07 +0000
Subject: [PATCH 39/56] fix: restore the box when atoms that need no ghosts
 replace a small system

---
 src/pyscal/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 2aa70ee..a7713f3 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -158,8 +158,12 @@ class System(pc.System):
             if np.sum(self.box) == 0:
                 raise ValueError("Simulation box should be initialized before atoms")
             atoms = self.repeat((nx, nx, nx), atoms=atoms, ghost=True, scale_box=True)
-        else:
+        elif not any(atom.ghost for atom in atoms):
             self.ghosts_created = False
+            #a box that was repeated for the former atoms is not needed anymore
+            if self.actual_box is not None:
+                self._assign_box(self.actual_box)
+                self.actual_box = None
 
         self.set_atoms(atoms)
 
-- 
2.43.0


From 921aae2a986d4e7ccf1ded8bf3bea65ea4e1178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:32 +0000
Subject: [PATCH 40/56] fix: formats handled by the ase backend are not refused

---
 src/pyscal/traj_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/traj_process.py b/src/pyscal/traj_process.py
index c7f7abd..012c796 100644
--- a/src/pyscal/traj_process.py
+++ b/src/pyscal/traj_process.py
@@ -66,7 +66,7 @@ def read_file(filename, format="lammps-dump",
             #try to use ASE backend
             aseobject = read(filename, format=format)
             atoms, box = ptase.read_snap(aseobject)
-            warnings.info("Using ase backend to read file")
+            warnings.warn("Using ase backend to read file")
         except:
             raise TypeError("format recieved an unknown option %s"%format)
 
@@ -129,7 +129,7 @@ def write_file(sys, outfile, format="lammps-dump", compressed = False,
         try:
             aseobject = ptase.convert_snap(sys, species=species)
             write(outfile, aseobject, format=format)
-            warnings.info("Using ase backend to write file")
+            warnings.warn("Using ase backend to write file")
         except:
             raise TypeError("format recieved an unknown option %s"%format)
 
-- 
2.43.0


From 6cb0ff0d57717d11f8644650f8d8e04a43c474b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:01 +0000
Subject: [PATCH 41/56] fix: read and write compressed poscar files

---
 src/pyscal/formats/vasp.py | 23 +++++++++++++++++------
 src/pyscal/traj_process.py |  2 +-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/formats/vasp.py b/src/pyscal/formats/vasp.py
index ff42399..e723699 100644
--- a/src/pyscal/formats/vasp.py
+++ b/src/pyscal/formats/vasp.py
@@ -38,12 +38,16 @@ def read_snap(infile, compressed = False):
     >>> atoms, box = read_poscar('POSCAR.dat', compressed=True)
 
     """
-    aseobj = read(infile, format="vasp")
+    if compressed or str(infile).split('.')[-1] == 'gz':
+        with gzip.open(infile, 'rt') as fin:
+            aseobj = read(fin, format="vasp")
+    else:
+        aseobj = read(infile, format="vasp")
     atoms, box = ptase.read_snap(aseobj)
     return atoms, box
 
 
-def write_snap(sys, outfile, comments="pyscal", species=None):
+def write_snap(sys, outfile, comments="pyscal", species=None, compressed=False):
     """
     Function to read a POSCAR format.
 
@@ -56,10 +60,14 @@ def write_snap(sys, outfile, comments="pyscal", species=None):
     """
     if species is None:
         warnings.warn("Using legacy poscar writer, to use ASE backend specify species")
-        write_poscar(sys, outfile, comments=comments)
+        write_poscar(sys, outfile, comments=comments, compressed=compressed)
     else:
         aseobj = ptase.convert_snap(sys, species=species)
-        write(outfile, aseobj, format="vasp")
+        if compressed:
+            with gzip.open(outfile, 'wt') as fout:
+                write(fout, aseobj, format="vasp")
+        else:
+            write(outfile, aseobj, format="vasp")
 
 
 def split_snaps(**kwargs):
@@ -68,7 +76,7 @@ def split_snaps(**kwargs):
 def convert_snap(**kwargs):
     raise NotImplementedError("convert method for mdtraj is not implemented")
 
-def write_poscar(sys, outfile, comments="pyscal"):
+def write_poscar(sys, outfile, comments="pyscal", compressed=False):
     """
     Function to read a POSCAR format.
     Parameters
@@ -77,7 +85,10 @@ def write_poscar(sys, outfile, comments="pyscal"):
         name of the input file
     """
 
-    fout = open(outfile, 'w')
+    if compressed:
+        fout = gzip.open(outfile, 'wt')
+    else:
+        fout = open(outfile, 'w')
 
     fout.write(comments+"\n")
     fout.write("   1.00000000000000\n")
diff --git a/src/pyscal/traj_process.py b/src/pyscal/traj_process.py
index 012c796..abeddcd 100644
--- a/src/pyscal/traj_process.py
+++ b/src/pyscal/traj_process.py
@@ -120,7 +120,7 @@ def write_file(sys, outfile, format="lammps-dump", compressed = False,
         write(outfile, aseobject, format='lammps-data')
     
     elif format == 'poscar':
-        ptvasp.write_snap(sys, outfile, species=species)
+        ptvasp.write_snap(sys, outfile, species=species, compressed=compressed)
         #aseobject = ptase.convert_snap(sys, species=species)
         #write(outfile, aseobject, format='vasp')
 
-- 
2.43.0


From d9f416d56ac7a17402cbc4d3c8131fea66fdb4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:01 +0000
Subject: [PATCH 42/56] fix: conversion to ase does not change the atoms of the
 system

---
 src/pyscal/formats/ase.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/formats/ase.py b/src/pyscal/formats/ase.py
index 2d7b358..25f293c 100644
--- a/src/pyscal/formats/ase.py
+++ b/src/pyscal/formats/ase.py
@@ -105,11 +105,8 @@ def convert_snap(sys, species=None):
         unique_types = np.unique(types)
         if not (len(unique_types) == len(species)):
             raise ValueError("Length of species and number of types found in system are different. Maybe you specified \"Au\" instead of [\"Au\"]")
-        #now assign the species to custom
-        
-        for atom in atoms:
-            custom = atom.custom
-            custom['species'] = species[int(atom.type-1)]
+        #now assign the species, the atoms of the system are left as they are
+        symbols = [species[int(atom.type-1)] for atom in atoms]
         #we should also get the unique species key
         specieskey = "".join(species)
     else:
@@ -125,6 +122,7 @@ def convert_snap(sys, species=None):
                     species.append(atom.custom['species'])
                     break
         specieskey = "".join(species)
+        symbols = [atom.custom['species'] for atom in atoms]
       
     cell = sys.box
     pbc = [1, 1, 1]
@@ -136,8 +134,8 @@ def convert_snap(sys, species=None):
     
     #thats everything pretty much
     #now create ase Atom
-    for atom in atoms:
-        aseatom = Atom(atom.custom['species'], atom.pos)
+    for symbol, atom in zip(symbols, atoms):
+        aseatom = Atom(symbol, atom.pos)
         aseobject.append(aseatom)
     #done
     return aseobject
-- 
2.43.0


From 0c01c53c397fca42d4fc4315747b8b80898e6d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:32 +0000
Subject: [PATCH 43/56] fix: descending iteration over a trajectory starts at
 its last slice

---
 src/pyscal/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 377436f..d37735e 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -379,7 +379,7 @@ class Trajectory:
                 yield self._yield(i, output)
         elif method == "descending":
             for i in range(n_slices):
-                yield self._yield(self.nblocks-i, output)
+                yield self._yield(self.nblocks-1-i, output)
         
         elif method == "random":
             slice_list = np.arange(0, self.nblocks, 1).astype(int)
-- 
2.43.0


From 37f4ce635a223f2b68004b6725bef65dde69f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:56 +0000
Subject: [PATCH 44/56] fix: adding time slices does not change the summands

---
 src/pyscal/trajectory.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index d37735e..bed384a 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -90,13 +90,10 @@ class Timeslice:
         """
         Add a method for summing
         """
-        for traj in ntraj.trajectories:
-            self.trajectories.append(traj)
-
-        for block in ntraj.blocklists:
-            self.blocklists.append(block)
-
-        return self
+        total = Timeslice(self.trajectory, self.blocklist)
+        total.trajectories = self.trajectories + ntraj.trajectories
+        total.blocklists = self.blocklists + ntraj.blocklists
+        return total
 
 
     def __radd__(self, ntraj):
-- 
2.43.0


From 760f812215f0e8ddbe8783e48296a16ac6f6dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:27 +0000
Subject: [PATCH 45/56] fix: to_dict keeps loaded and modified blocks

---
 src/pyscal/trajectory.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index bed384a..d761eed 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -154,9 +154,13 @@ class Timeslice:
         data = []
         for count, traj in enumerate(self.trajectories):
             for x in self.blocklists[count]:
-                self.trajectories[count].load(x)
+                #keep blocks loaded by the user, those could be modified
+                loaded = self.trajectories[count].loadlist[x]
+                if not loaded:
+                    self.trajectories[count].load(x)
                 data.append(self.trajectories[count].data[x])
-                self.trajectories[count].unload(x)
+                if not loaded:
+                    self.trajectories[count].unload(x)
         return data
 
     def to_file(self, outfile, mode="w"):
-- 
2.43.0


From 3f75155faa6029de5ab7db344afbc62e7d5e31ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:53 +0000
Subject: [PATCH 46/56] fix: load time slices with a single atom

---
 src/pyscal/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index d761eed..82e3036 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -442,7 +442,7 @@ class Trajectory:
         """
         data = self.get_block(blockno)
         box =  np.loadtxt(data[5:8])
-        columns = np.loadtxt(data[9:])
+        columns = np.loadtxt(data[9:], ndmin=2)
         header = np.loadtxt(data[8:9], dtype=str)[2:]
         outdict = {}
         outdict["box"] = box
-- 
2.43.0


From fb17fd562eb9c13cc16c8f6bcc862ea5b92d81b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 47/56] fix: negative and out of range indices of a trajectory

---
 src/pyscal/trajectory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 82e3036..1d65aee 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -280,7 +280,8 @@ class Trajectory:
             timeslice = Timeslice(self, blocklist)
             return timeslice
         else:
-            blocklist = [blockno]
+            #negative indices count from the end, others raise an IndexError
+            blocklist = [range(self.nblocks)[blockno]]
             timeslice = Timeslice(self, blocklist)
             return timeslice
 
-- 
2.43.0


From e9ff8b0caa16c7ef8237b7baf823f3da1a9f8c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:44 +0000
Subject: [PATCH 48/56] fix: loaded time slices keep their time step and type
 of box

---
 src/pyscal/trajectory.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 1d65aee..a7c9ba8 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -487,12 +487,8 @@ class Trajectory:
         """
         dd = self.data[blockno]
 
-        data = []
-        data.append("ITEM: TIMESTEP\n")
-        data.append("".join([str(0), os.linesep]))
-        data.append("ITEM: NUMBER OF ATOMS\n")
-        data.append("".join([str(self.natoms), os.linesep]))
-        data.append("ITEM: BOX BOUNDS pp pp pp\n")
+        #time step, number of atoms and type of the box are those of the block
+        data = self.get_block(blockno)[:5]
         for b in dd["box"]:
             dstr = " ".join(b.astype(str))
             data.append("".join([dstr, os.linesep]))
-- 
2.43.0


From b19e6e0f8768862366b7425cf3d8eaa5b53c2c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:36 +0000
Subject: [PATCH 49/56] fix: close trajectory files, also if reading or writing
 fails

---
 src/pyscal/trajectory.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index a7c9ba8..ac5c547 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -182,10 +182,9 @@ class Timeslice:
         None
 
         """
-        fout = open(outfile, mode)
-        for count, traj in enumerate(self.trajectories):
-            self.trajectories[count]._get_blocks_to_file(fout, self.blocklists[count])
-        fout.close()
+        with open(outfile, mode) as fout:
+            for count, traj in enumerate(self.trajectories):
+                self.trajectories[count]._get_blocks_to_file(fout, self.blocklists[count])
 
 
     #def to_hdf(self, outfile, keys=None, mode='w', compression="gzip"):
@@ -317,10 +316,11 @@ class Trajectory:
         line_offset = []
         offset = 0
         nlines = 0
-        for line in open(self.filename, 'rb'):
-            line_offset.append(offset)
-            offset += len(line)
-            nlines += 1
+        with open(self.filename, 'rb') as fin:
+            for line in fin:
+                line_offset.append(offset)
+                offset += len(line)
+                nlines += 1
         
         self.nlines = nlines
         self.line_offset = line_offset
@@ -408,14 +408,12 @@ class Trajectory:
         start = blockno*self.blocksize
         stop = (blockno+1)*self.blocksize
 
-        fin = open(self.filename, "rb")
-        fin.seek(0)
-        fin.seek(self.line_offset[start])
-
         data = []
-        for i in range(self.blocksize):
-            line = fin.readline().decode("utf-8")
-            data.append(line)
+        with open(self.filename, "rb") as fin:
+            fin.seek(self.line_offset[start])
+            for i in range(self.blocksize):
+                line = fin.readline().decode("utf-8")
+                data.append(line)
         return data
 
     def load(self, blockno):
-- 
2.43.0


From fbc85788c587bec2d990530b45db5460b227cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:11 +0000
Subject: [PATCH 50/56] fix: close files of snapshots, also if reading or
 writing fails

---
 src/pyscal/formats/lammps.py | 251 +++++++++++++++++------------------
 src/pyscal/formats/vasp.py   |  61 +++++----
 2 files changed, 153 insertions(+), 159 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index ef6f654..8d2d8c0 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -1,5 +1,6 @@
 import numpy as np
 import gzip
+import contextlib
 import pyscal.catom as pca
 from ase import Atom, Atoms
 import gzip
@@ -94,81 +95,79 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
         customread = True
 
     nblock = 0
-    for count, line in enumerate(f):
-        #print(count, line)
-        if not paramsread:
-            #atom numer is at line 3
-            if count == 3:
-                natoms = int(line.strip())
-                nblock = natoms+9
-            #box dims in lines 5,6,7
-            elif count == 5:
-                raw = line.strip().split()
-                boxx = [float(raw[0]), float(raw[1])]
-                if len(raw) == 3:
-                    xy = float(raw[2])
-            elif count == 6:
+    #files are closed after reading, also if that fails
+    with (contextlib.nullcontext() if islist else f):
+        for count, line in enumerate(f):
+            #print(count, line)
+            if not paramsread:
+                #atom numer is at line 3
+                if count == 3:
+                    natoms = int(line.strip())
+                    nblock = natoms+9
+                #box dims in lines 5,6,7
+                elif count == 5:
+                    raw = line.strip().split()
+                    boxx = [float(raw[0]), float(raw[1])]
+                    if len(raw) == 3:
+                        xy = float(raw[2])
+                elif count == 6:
+                    raw = line.strip().split()
+                    boxy = [float(raw[0]), float(raw[1])]
+                    if len(raw) == 3:
+                        xz = float(raw[2])
+                elif count == 7:
+                    raw = line.strip().split()
+                    boxz = [float(raw[0]), float(raw[1])]
+                    if len(raw) == 3:
+                        yz = float(raw[2])
+                        triclinic = True
+                        tilts = [xy, xz, yz]
+                    #boxdims = [boxx, boxy, boxz]
+
+                #header is here
+                elif count == 8:
+                    raw = line.strip().split()
+                    headerdict = { raw[x]:x-2 for x in range(0, len(raw)) }
+                    paramsread = True
+                    if customread:
+                        if not np.prod([(x in headerdict) for x in customkeys]):
+                            raise KeyError("some values in custokeys was not found in the file")
+                    #add a new keyword for scaled coordinates
+                    if "x" in headerdict.keys():
+                        scaled = False
+                    elif "xs" in headerdict.keys():
+                        scaled = True
+                        headerdict["x"] = headerdict.pop("xs")
+                        headerdict["y"] = headerdict.pop("ys")
+                        headerdict["z"] = headerdict.pop("zs")
+                    else:
+                        raise ValueError("only x/xs, y/ys andz/zs keys are allowed for traj file")
+
+
+            else:
+                if count == nblock:
+                    break
                 raw = line.strip().split()
-                boxy = [float(raw[0]), float(raw[1])]
-                if len(raw) == 3:
-                    xz = float(raw[2])
-            elif count == 7:
-                raw = line.strip().split()
-                boxz = [float(raw[0]), float(raw[1])]
-                if len(raw) == 3:
-                    yz = float(raw[2])
-                    triclinic = True
-                    tilts = [xy, xz, yz]
-                #boxdims = [boxx, boxy, boxz]
-
-            #header is here
-            elif count == 8:
-                raw = line.strip().split()
-                headerdict = { raw[x]:x-2 for x in range(0, len(raw)) }
-                paramsread = True
+                idd = int(raw[headerdict["id"]])
+                typ = int(raw[headerdict["type"]])
+                x = float(raw[headerdict["x"]])
+                y = float(raw[headerdict["y"]])
+                z = float(raw[headerdict["z"]])
+
+                atom = pca.Atom()
+                atom.pos = [x, y, z]
+                atom.id = idd
+                atom.type = typ
+                atom.loc = count-9
+
+                customdict = {}
+                #if customkeys need to be read, do it
                 if customread:
-                    if not np.prod([(x in headerdict) for x in customkeys]):
-                        raise KeyError("some values in custokeys was not found in the file")
-                #add a new keyword for scaled coordinates
-                if "x" in headerdict.keys():
-                    scaled = False
-                elif "xs" in headerdict.keys():
-                    scaled = True
-                    headerdict["x"] = headerdict.pop("xs")
-                    headerdict["y"] = headerdict.pop("ys")
-                    headerdict["z"] = headerdict.pop("zs")
-                else:
-                    raise ValueError("only x/xs, y/ys andz/zs keys are allowed for traj file")
+                    for cc, kk in enumerate(customkeys):
+                        customdict[kk] = raw[headerdict[kk]]
 
-
-        else:
-            if count == nblock:
-                break
-            raw = line.strip().split()
-            idd = int(raw[headerdict["id"]])
-            typ = int(raw[headerdict["type"]])
-            x = float(raw[headerdict["x"]])
-            y = float(raw[headerdict["y"]])
-            z = float(raw[headerdict["z"]])
-
-            atom = pca.Atom()
-            atom.pos = [x, y, z]
-            atom.id = idd
-            atom.type = typ
-            atom.loc = count-9
-
-            customdict = {}
-            #if customkeys need to be read, do it
-            if customread:
-                for cc, kk in enumerate(customkeys):
-                    customdict[kk] = raw[headerdict[kk]]
-
-            atom.custom = customdict
-            atoms.append(atom)
-
-    #close files
-    if not islist:
-        f.close()
+                atom.custom = customdict
+                atoms.append(atom)
 
     if triclinic:
         #process triclinic box
@@ -297,45 +296,43 @@ def write_snap(sys, outfile, compressed = False,
             gz = open(outfile,'w')
             dump = gz
 
-    #now write
-    dump.write("ITEM: TIMESTEP\n")
-    dump.write("%d\n" % timestep)
-    dump.write("ITEM: NUMBER OF ATOMS\n")
-    dump.write("%d\n" % len(atoms))
-    if triclinic:
-        dump.write("ITEM: BOX BOUNDS xy xz yz\n")
-        dump.write("%f %f %f\n" % (min(0, xy, xz, xy+xz), boxx + max(0, xy, xz, xy+xz), xy))
-        dump.write("%f %f %f\n" % (min(0, yz), boxy + max(0, yz), xz))
-        dump.write("%f %f %f\n" % (0, boxz, yz))
-    else:
-        dump.write("ITEM: BOX BOUNDS\n")
-        dump.write("%f %f\n" % (0, boxx))
-        dump.write("%f %f\n" % (0, boxy))
-        dump.write("%f %f\n" % (0, boxz))
-
-    #now write header
-    if len(customkeys) > 0:
-        ckey = " ".join(customkeys)
-        title_str = "ITEM: ATOMS id type x y z %s\n"% ckey
-    else:
-        title_str = "ITEM: ATOMS id type x y z\n"
-
-    dump.write(title_str)
-
-    for cc, atom in enumerate(atoms):
-        pos = atom.pos
+    with (contextlib.nullcontext() if isinstance(outfile, io.IOBase) else dump):
+        #now write
+        dump.write("ITEM: TIMESTEP\n")
+        dump.write("%d\n" % timestep)
+        dump.write("ITEM: NUMBER OF ATOMS\n")
+        dump.write("%d\n" % len(atoms))
         if triclinic:
-            pos = np.dot(pos, rotation)
+            dump.write("ITEM: BOX BOUNDS xy xz yz\n")
+            dump.write("%f %f %f\n" % (min(0, xy, xz, xy+xz), boxx + max(0, xy, xz, xy+xz), xy))
+            dump.write("%f %f %f\n" % (min(0, yz), boxy + max(0, yz), xz))
+            dump.write("%f %f %f\n" % (0, boxz, yz))
+        else:
+            dump.write("ITEM: BOX BOUNDS\n")
+            dump.write("%f %f\n" % (0, boxx))
+            dump.write("%f %f\n" % (0, boxy))
+            dump.write("%f %f\n" % (0, boxz))
+
+        #now write header
         if len(customkeys) > 0:
-            cval_atom = " ".join(np.array(list(cvals[cc])).astype(str))
-            atomline = ("%d %d %f %f %f %s\n")%(atom.id, atom.type, pos[0], pos[1], pos[2], cval_atom)
+            ckey = " ".join(customkeys)
+            title_str = "ITEM: ATOMS id type x y z %s\n"% ckey
         else:
-            atomline = ("%d %d %f %f %f\n")%(atom.id, atom.type, pos[0], pos[1], pos[2])
+            title_str = "ITEM: ATOMS id type x y z\n"
+
+        dump.write(title_str)
 
-        dump.write(atomline)
+        for cc, atom in enumerate(atoms):
+            pos = atom.pos
+            if triclinic:
+                pos = np.dot(pos, rotation)
+            if len(customkeys) > 0:
+                cval_atom = " ".join(np.array(list(cvals[cc])).astype(str))
+                atomline = ("%d %d %f %f %f %s\n")%(atom.id, atom.type, pos[0], pos[1], pos[2], cval_atom)
+            else:
+                atomline = ("%d %d %f %f %f\n")%(atom.id, atom.type, pos[0], pos[1], pos[2])
 
-    if not isinstance(outfile, io.IOBase):
-        dump.close()
+            dump.write(atomline)
 
 
 def split_snaps(infile, compressed = False):
@@ -366,11 +363,11 @@ def split_snaps(infile, compressed = False):
 
 
     #pre-read to find the number of atoms
-    for count, line in enumerate(f):
+    with f:
+        for count, line in enumerate(f):
             if count == 3:
                 natoms = int(line.strip())
                 break
-    f.close()
 
     #now restart f()
     if raw[-1] == 'gz' or  compressed:
@@ -386,28 +383,26 @@ def split_snaps(infile, compressed = False):
 
 
 
-    for line in f:
-        if(count==1):
-            ff = ".".join([infile, 'snap', str(startblock), 'dat'])
-            lines = []
-            lines.append(line)
+    with f:
+        for line in f:
+            if(count==1):
+                ff = ".".join([infile, 'snap', str(startblock), 'dat'])
+                lines = []
+                lines.append(line)
 
-        elif(count<nblock):
-            lines.append(line)
+            elif(count<nblock):
+                lines.append(line)
 
-        else:
-            lines.append(line)
-            snaps.append(ff)
-            fout = open(ff,'w')
-            for wline in lines:
-                fout.write(wline)
-            fout.close()
-
-            count=0
-            startblock+=1
-        count+=1
-
-    f.close()
+            else:
+                lines.append(line)
+                snaps.append(ff)
+                with open(ff,'w') as fout:
+                    for wline in lines:
+                        fout.write(wline)
+
+                count=0
+                startblock+=1
+            count+=1
 
     return snaps
 
diff --git a/src/pyscal/formats/vasp.py b/src/pyscal/formats/vasp.py
index e723699..b953a88 100644
--- a/src/pyscal/formats/vasp.py
+++ b/src/pyscal/formats/vasp.py
@@ -90,37 +90,36 @@ def write_poscar(sys, outfile, comments="pyscal", compressed=False):
     else:
         fout = open(outfile, 'w')
 
-    fout.write(comments+"\n")
-    fout.write("   1.00000000000000\n")
-
-    #write box
-    vecs = sys.box
-    fout.write("      %1.14f %1.14f %1.14f\n"%(vecs[0][0], vecs[0][1], vecs[0][2]))
-    fout.write("      %1.14f %1.14f %1.14f\n"%(vecs[1][0], vecs[1][1], vecs[1][2]))
-    fout.write("      %1.14f %1.14f %1.14f\n"%(vecs[2][0], vecs[2][1], vecs[2][2]))
-
-    atoms = sys.atoms
-    atypes = [atom.type for atom in atoms]
+    with fout:
+        fout.write(comments+"\n")
+        fout.write("   1.00000000000000\n")
+
+        #write box
+        vecs = sys.box
+        fout.write("      %1.14f %1.14f %1.14f\n"%(vecs[0][0], vecs[0][1], vecs[0][2]))
+        fout.write("      %1.14f %1.14f %1.14f\n"%(vecs[1][0], vecs[1][1], vecs[1][2]))
+        fout.write("      %1.14f %1.14f %1.14f\n"%(vecs[2][0], vecs[2][1], vecs[2][2]))
+
+        atoms = sys.atoms
+        atypes = [atom.type for atom in atoms]
     
-    tt, cc  = np.unique(atypes, return_counts=True)
+        tt, cc  = np.unique(atypes, return_counts=True)
     
-    atomgroups = [[] for x in range(len(tt))]
+        atomgroups = [[] for x in range(len(tt))]
     
-    for count, t in enumerate(tt):
-        for atom in atoms:
-            if int(atom.type) == t:
-                atomgroups[count].append(atom)
-
-    fout.write("  ")
-    for c in cc:
-        fout.write("%d   "%int(c))
-    fout.write("\n")
-
-    fout.write("Cartesian\n")
-
-    for i in range(len(atomgroups)):
-        for atom in atomgroups[i]:
-            pos = atom.pos
-            fout.write(" %1.14f %1.14f %1.14f\n"%(pos[0], pos[1], pos[2]))
-
-    fout.close()
+        for count, t in enumerate(tt):
+            for atom in atoms:
+                if int(atom.type) == t:
+                    atomgroups[count].append(atom)
+
+        fout.write("  ")
+        for c in cc:
+            fout.write("%d   "%int(c))
+        fout.write("\n")
+
+        fout.write("Cartesian\n")
+
+        for i in range(len(atomgroups)):
+            for atom in atomgroups[i]:
+                pos = atom.pos
+                fout.write(" %1.14f %1.14f %1.14f\n"%(pos[0], pos[1], pos[2]))
-- 
2.43.0


From 0d42cfc24d64fe32649c6160a49e5b067ed86498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:01 +0000
Subject: [PATCH 51/56] fix: direct coordinates of tetrahedral voids, and voids
 in small cells

---
 src/pyscal/misc.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/misc.py b/src/pyscal/misc.py
index 3ccdf97..0e3247d 100644
--- a/src/pyscal/misc.py
+++ b/src/pyscal/misc.py
@@ -134,10 +134,9 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
     pos = []
     types = []
 
-    box = sys.box
-    boxx = box[0][1] - box[0][0]
-    boxy = box[1][1] - box[1][0]
-    boxz = box[2][1] - box[2][0]
+    #neighbors can also be ghost atoms
+    allatoms = sys.get_all_atoms()
+    rotinv = np.linalg.inv(np.array(sys.box, dtype=float))
 
     if len(atoms) < 21:
         warnings.warn("Very less number of atoms, results maybe wrong. See https://github.com/srmnitc/pyscal/issues/63 ")
@@ -146,7 +145,7 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
         if atom.vorovector[1] == 4:
             #first to prevent small cells we need to filter
             neighs = np.unique(atom.neighbors)
-            dists = np.array([sys.get_distance(atom, atoms[x]) for x in neighs])
+            dists = np.array([sys.get_distance(atom, allatoms[x]) for x in neighs])
             mindist = dists[np.argsort(dists)][0]
             mindistcount = 0
             for i in range(len(dists)):
@@ -157,7 +156,7 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
                 volumes.append(atom.volume)
                 if direct_coordinates:
                     p = atom.pos
-                    pos.append([p[0]/boxx, p[1]/boxy, p[2]/boxz])
+                    pos.append(list(np.dot(p, rotinv)))
                 else:
                     pos.append(atom.pos)
                 types.append(atom.type)
-- 
2.43.0


From 83e37eb4da439c33108543f7b14ff55232843ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:35 +0000
Subject: [PATCH 52/56] fix: Voronoi vertices were shifted by uninitialised
 values

---
 src/pyscal/system.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 3926f90..271ef3c 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2002,7 +2002,9 @@ void System::get_all_neighbors_voronoi(){
     int i;
     int ti,id,tnx,tny,tnz, nverts;
 
-    double rx,ry,rz,tsum, fa, x, y, z, vol;
+    double rx,ry,rz,tsum, fa, vol;
+    //vertices are relative to the atom
+    double x = 0, y = 0, z = 0;
     vector<int> neigh,f_vert, vert_nos;
     vector<double> facearea, v, faceperimeters;
     voronoicell_neighbor c;
-- 
2.43.0


From 3fb5d317c9d0aaf257e1cf77b5e1fa7e2959133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:51 +0000
Subject: [PATCH 53/56] fix: no file is left open when a LAMMPS snapshot is
 malformed

---
 src/pyscal/formats/lammps.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 8d2d8c0..8192139 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -69,20 +69,9 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
     else:
         islist = False
 
-    if not islist:
-        if not os.path.exists(infile):
-            raise FileNotFoundError("Filename %s not found"%infile)
-        #first depending on if the extension is .gz - use zipped read
-        raw = infile.split('.')
-        if raw[-1] == 'gz' or  compressed:
-            f = gzip.open(infile,'rt')
-        else:
-            f = open(infile,'r')
-
     if customkeys == None:
         customkeys = []
 
-    #now go through the file line by line
     paramsread = False
     atoms = []
     triclinic = False
@@ -94,6 +83,17 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
     if customlength > 0:
         customread = True
 
+    if not islist:
+        if not os.path.exists(infile):
+            raise FileNotFoundError("Filename %s not found"%infile)
+        #first depending on if the extension is .gz - use zipped read
+        raw = infile.split('.')
+        if raw[-1] == 'gz' or  compressed:
+            f = gzip.open(infile,'rt')
+        else:
+            f = open(infile,'r')
+
+    #now go through the file line by line
     nblock = 0
     #files are closed after reading, also if that fails
     with (contextlib.nullcontext() if islist else f):
@@ -369,19 +369,16 @@ def split_snaps(infile, compressed = False):
                 natoms = int(line.strip())
                 break
 
-    #now restart f()
-    if raw[-1] == 'gz' or  compressed:
-        f = gzip.open(infile,'rt')
-    else:
-        f = open(infile,'r')
-
-
     nblock = natoms+9
     startblock = 0
     count=1
     snaps = []
 
-
+    #now restart f()
+    if raw[-1] == 'gz' or  compressed:
+        f = gzip.open(infile,'rt')
+    else:
+        f = open(infile,'r')
 
     with f:
         for line in f:
-- 
2.43.0


From d95f29786a047f7370d281c78b2bd2aa9a2d2a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:29 +0000
Subject: [PATCH 54/56] fix: the default type of an atom is 1 as documented

---
 src/pyscal/atom_binding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/atom_binding.cpp b/src/pyscal/atom_binding.cpp
index 888e07e..9825189 100644
--- a/src/pyscal/atom_binding.cpp
+++ b/src/pyscal/atom_binding.cpp
@@ -73,7 +73,7 @@ py::class_<Atom>(m,"Atom", R"mydelimiter(
     //-------------------------------------------------------
     // Constructor, Destructor
     //-------------------------------------------------------
-    .def(py::init < vector<double>, int , int >(), py::arg("pos")=vv, py::arg("id")=0, py::arg("type")=0)
+    .def(py::init < vector<double>, int , int >(), py::arg("pos")=vv, py::arg("id")=0, py::arg("type")=1)
 
     //-------------------------------------------------------
     // Basic Atom properties
-- 
2.43.0


From 5aa9c1da93d49c100545e25083699f7449ed0322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:12 +0000
Subject: [PATCH 55/56] fix: separations and cells of atoms more than a cell
 length apart or outside

---
 src/pyscal/system.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 271ef3c..64a7416 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -10,6 +10,11 @@
 
 using namespace voro;
 
+//whole lengths of the cell are removed, so that a single wrap is sufficient
+static double less_than_cell(double d, double length){
+    return (length > 0) ? d - length*trunc(d/length) : d;
+}
+
 //-----------------------------------------------------
 // Constructor, Destructor and Access functions
 //-----------------------------------------------------
@@ -305,6 +310,9 @@ double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,doub
 
         //now check pbc
         //nearest image
+        diffx = less_than_cell(diffx, boxx);
+        diffy = less_than_cell(diffy, boxy);
+        diffz = less_than_cell(diffz, boxz);
         if (diffx> boxx/2.0) {diffx-=boxx;};
         if (diffx<-boxx/2.0) {diffx+=boxx;};
         if (diffy> boxy/2.0) {diffy-=boxy;};
@@ -333,6 +341,9 @@ double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,doub
     }
     else{
         //nearest image
+        diffx = less_than_cell(diffx, boxx);
+        diffy = less_than_cell(diffy, boxy);
+        diffz = less_than_cell(diffz, boxz);
         if (diffx> boxx/2.0) {diffx-=boxx;};
         if (diffx<-boxx/2.0) {diffx+=boxx;};
         if (diffy> boxy/2.0) {diffy-=boxy;};
@@ -366,6 +377,9 @@ double System::get_abs_distance(Atom atom1 , Atom atom2 ){
 
         //now check pbc
         //nearest image
+        diffx = less_than_cell(diffx, boxx);
+        diffy = less_than_cell(diffy, boxy);
+        diffz = less_than_cell(diffz, boxz);
         if (diffx> boxx/2.0) {diffx-=boxx;};
         if (diffx<-boxx/2.0) {diffx+=boxx;};
         if (diffy> boxy/2.0) {diffy-=boxy;};
@@ -395,6 +409,9 @@ double System::get_abs_distance(Atom atom1 , Atom atom2 ){
     else{
 
         //nearest image
+        diffx = less_than_cell(diffx, boxx);
+        diffy = less_than_cell(diffy, boxy);
+        diffz = less_than_cell(diffz, boxz);
         if (diffx> boxx/2.0) {diffx-=boxx;};
         if (diffx<-boxx/2.0) {diffx+=boxx;};
         if (diffy> boxy/2.0) {diffy-=boxy;};
@@ -430,6 +447,9 @@ vector<double> System::get_distance_vector(Atom atom1 , Atom atom2 ){
 
         //now check pbc
         //nearest image
+        diffx = less_than_cell(diffx, boxx);
+        diffy = less_than_cell(diffy, boxy);
+        diffz = less_than_cell(diffz, boxz);
         if (diffx> boxx/2.0) {diffx-=boxx;};
         if (diffx<-boxx/2.0) {diffx+=boxx;};
         if (diffy> boxy/2.0) {diffy-=boxy;};
@@ -456,6 +476,9 @@ vector<double> System::get_distance_vector(Atom atom1 , Atom atom2 ){
     else{
 
         //nearest image
+        diffx = less_than_cell(diffx, boxx);
+        diffy = less_than_cell(diffy, boxy);
+        diffz = less_than_cell(diffz, boxz);
         if (diffx> boxx/2.0) {diffx-=boxx;};
         if (diffx<-boxx/2.0) {diffx+=boxx;};
         if (diffy> boxy/2.0) {diffy-=boxy;};
@@ -595,6 +618,9 @@ void System::set_up_cells(){
           if( abs(dz-0) < 1E-6)
               dz = 0;
 
+          dx = less_than_cell(dx, boxx);
+          dy = less_than_cell(dy, boxy);
+          dz = less_than_cell(dz, boxz);
           if (dx < 0) dx+=boxx;
           else if (dx >= boxx) dx-=boxx;
           if (dy < 0) dy+=boxy;
@@ -642,6 +668,9 @@ vector<double> System::remap_atom(vector<double> pos){
         dz = az*boxz;
 
         //now check pbc
+        dx = less_than_cell(dx, boxx);
+        dy = less_than_cell(dy, boxy);
+        dz = less_than_cell(dz, boxz);
         if (dx < 0) dx+=boxx;
         else if (dx >= boxx) dx-=boxx;
         if (dy < 0) dy+=boxy;
@@ -665,6 +694,9 @@ vector<double> System::remap_atom(vector<double> pos){
         dz = az;
     }
     else{
+        dx = less_than_cell(dx, boxx);
+        dy = less_than_cell(dy, boxy);
+        dz = less_than_cell(dz, boxz);
         if (dx < 0) dx+=boxx;
         else if (dx >= boxx) dx-=boxx;
         if (dy < 0) dy+=boxy;
-- 
2.43.0


From 73fa5117a87d2bb0eb6472768af91b09d4d5977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:49 +0000
Subject: [PATCH 56/56] fix: atoms more than a cell length outside are remapped
 into the cell

---
 src/pyscal/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index a7713f3..a7efd96 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2234,6 +2234,8 @@ class System(pc.System):
 
         for atom in atoms:
             pos = atom.pos
+            #whole cell lengths first, a single wrap is sufficient then
+            pos = [x - box[i][i]*np.trunc(x/box[i][i]) for i, x in enumerate(pos)]
             if pos[0] < 0:
                 pos[0] = pos[0]+box[0][0]
             elif pos[0] >= box[0][0]:
-- 
2.43.0

