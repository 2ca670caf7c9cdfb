From db5f4a004570e1d30aaef2350d6c86a2fd30ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 01/14] fix: CglLiftAndProject tests integrality of the column
 it is cutting on

The loop over columns j tested intVar[i], where i is a stale index left over
from an earlier loop over rows (an out of bounds read when rows > columns), so
columns were selected or skipped by an unrelated entry.
---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index fccfb35..c0e18a0 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -244,7 +244,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   const char * intVar = si.getColType();
 
   for (j=0;j<n;j++){
-    if (intVar[i]!=1) continue; // Better to ask coneSi? No! 
+    if (intVar[j]!=1) continue; // Better to ask coneSi? No! 
                                    // coneSi has no binInfo.
     equalObj1=eq(x[j],0);
     equalObj2=eq(x[j],1);
-- 
2.43.0


From 7ec6872965b630909c76da2a04901b821e074f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 02/14] fix: CglSimpleRounding rounds the right-hand side down
 with a tolerance

Netting out fixed and continuous variables leaves a right-hand side such as
14.999999999999998; flooring that without a tolerance gives a cut one unit too
tight, which removes integer feasible points.
---
 src/CglSimpleRounding/CglSimpleRounding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglSimpleRounding/CglSimpleRounding.cpp b/src/CglSimpleRounding/CglSimpleRounding.cpp
index 92687db..2ade501 100644
--- a/src/CglSimpleRounding/CglSimpleRounding.cpp
+++ b/src/CglSimpleRounding/CglSimpleRounding.cpp
@@ -130,7 +130,7 @@ CglSimpleRounding::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     for (k=0; k<irow.getNumElements(); k++){
         cut.insert(irow.getIndices()[k],xInt[k]/gcd);
     }
-    double cutRhs = floor((b*pow(10.0,power))/gcd);
+    double cutRhs = floor((b*pow(10.0,power))/gcd + epsilon_);
 
     // un-negate the negated variables in the cut
     {
-- 
2.43.0


From 893e69049b5dd34844e5ecd092138b31f0b8deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 03/14] fix: CglSimpleRounding detects overflow at the common
 scaling power

Each coefficient was only checked against INT_MAX at its own power of 10, but
all of them are then scaled by the largest power, so the conversion to int
could overflow and give arbitrary cut coefficients.
---
 src/CglSimpleRounding/CglSimpleRounding.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CglSimpleRounding/CglSimpleRounding.cpp b/src/CglSimpleRounding/CglSimpleRounding.cpp
index 2ade501..b912e5c 100644
--- a/src/CglSimpleRounding/CglSimpleRounding.cpp
+++ b/src/CglSimpleRounding/CglSimpleRounding.cpp
@@ -410,6 +410,12 @@ CglSimpleRounding::power10ToMakeDoubleAnInt(
     if (maxPower < power) maxPower=power;
   }
 
+  // every element is going to be scaled by the common power
+  for (i=0; i<size; i++){
+    if (fabs(x[i])*multiplier[maxPower]>2147483647)
+      return -1;
+  }
+
   return maxPower;
 }
 
-- 
2.43.0


From ba297482d95affea60ddf0a23ef78b5472dc2039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 04/14] fix: CglAllDifferent maps each distinct variable to its
 own column

generateCuts reads originalWhich_ by compressed variable number, but the
constructor left it as the raw list of set members, so bounds were read from
and tightened on the wrong columns when sets overlap or are not sorted.
---
 src/CglAllDifferent/CglAllDifferent.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index 6f4a8c7..f4a492c 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -473,6 +473,8 @@ originalWhich_(NULL)
       iColumn = translate[iColumn];
       assert (iColumn>=0);
       which_[i]=iColumn;
+      // original column of each distinct variable
+      originalWhich_[iColumn]=which[i];
     }
     delete [] translate;
   }
-- 
2.43.0


From f05866794150366672558ff1a5900387eca0c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 05/14] fix: CglClique only takes rows whose other variables
 are nonnegative

A row with nonnegative coefficients and right-hand side 1 makes its binaries
pairwise exclusive only if the remaining variables cannot be negative.
---
 src/CglClique/CglCliqueHelper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CglClique/CglCliqueHelper.cpp b/src/CglClique/CglCliqueHelper.cpp
index 2fadaab..620a401 100644
--- a/src/CglClique/CglCliqueHelper.cpp
+++ b/src/CglClique/CglCliqueHelper.cpp
@@ -115,6 +115,7 @@ CglClique::selectRowCliques(const OsiSolverInterface& si,int numOriginalRows)
    // coefficients 
    const CoinPackedMatrix& mrow = *si.getMatrixByRow();
    const double* rub = si.getRowUpper();
+   const double* clb = si.getColLower();
    for (i = 0; i < numrows; ++i) {
       if (rub[i] != 1.0||i>=numOriginalRows) {
 	 clique[i] = 0;
@@ -122,9 +123,10 @@ CglClique::selectRowCliques(const OsiSolverInterface& si,int numOriginalRows)
       }
       if (clique[i] == 1) {
 	 const CoinShallowPackedVector& vec = mrow.getVector(i);
+	 const int* ind = vec.getIndices();
 	 const double* elem = vec.getElements();
 	 for (j = vec.getNumElements() - 1; j >= 0; --j) {
-	    if (elem[j] < 0) {
+	    if (elem[j] < 0 || clb[ind[j]] < 0) {
 	       clique[i] = 0;
 	       break;
 	    }
-- 
2.43.0


From c5273d4f4962becfe5d67bc79fc3e6626e4ab349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:46 +0000
Subject: [PATCH 06/14] fix: CglRedSplitParam::getMAXDYN returns MAXDYN, not
 MAXDYN_LUB

---
 src/CglRedSplit/CglRedSplitParam.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglRedSplit/CglRedSplitParam.hpp b/src/CglRedSplit/CglRedSplitParam.hpp
index 3cbb4bb..1bb073c 100644
--- a/src/CglRedSplit/CglRedSplitParam.hpp
+++ b/src/CglRedSplit/CglRedSplitParam.hpp
@@ -99,7 +99,7 @@ public:
   // coefficients in a cut. Default: 1e8.
   virtual void setMAXDYN(double value);
   /** Get the value of MAXDYN */
-  inline double getMAXDYN() const {return MAXDYN_LUB;}
+  inline double getMAXDYN() const {return MAXDYN;}
 
   // Set the maximum ratio between largest and smallest non zero 
   // coefficient in a cut involving structural variables with
-- 
2.43.0


From 35905bd66e19d20ad2636ab99cffc83b1524a157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:49 +0000
Subject: [PATCH 07/14] fix: CglRedSplit2Param::setMAX_SUPP_REL sets the
 relative support, not MINVIOL

---
 src/CglRedSplit2/CglRedSplit2Param.cpp | 6 +++---
 src/CglRedSplit2/CglRedSplit2Param.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CglRedSplit2/CglRedSplit2Param.cpp b/src/CglRedSplit2/CglRedSplit2Param.cpp
index 82cedad..2ef51cb 100644
--- a/src/CglRedSplit2/CglRedSplit2Param.cpp
+++ b/src/CglRedSplit2/CglRedSplit2Param.cpp
@@ -72,11 +72,11 @@ void CglRedSplit2Param::setMINVIOL(double value)
 /***********************************************************************/
 void CglRedSplit2Param::setMAX_SUPP_REL(double value)
 {
-  if (value > 0.0 && value <= 0.1) {
-    MINVIOL = value;
+  if (value >= 0.0 && value <= 1.0) {
+    MAX_SUPP_REL = value;
   }
   else {
-    printf("### WARNING: CglRedSplit2Param::setMINVIOL(): value: %f ignored\n", 
+    printf("### WARNING: CglRedSplit2Param::setMAX_SUPP_REL(): value: %f ignored\n", 
 	   value);
   }
 } /* setMAX_SUPP_REL */
diff --git a/src/CglRedSplit2/CglRedSplit2Param.hpp b/src/CglRedSplit2/CglRedSplit2Param.hpp
index 6444951..a96af7f 100644
--- a/src/CglRedSplit2/CglRedSplit2Param.hpp
+++ b/src/CglRedSplit2/CglRedSplit2Param.hpp
@@ -213,7 +213,7 @@ public:
 
   /** Maximum relative support of the cutting planes. Default: 0.0.
       The maximum support is MAX_SUPP_ABS + MAX_SUPPREL*ncols. */
-  inline void setMAX_SUPP_REL(double value); 
+  void setMAX_SUPP_REL(double value); 
   inline double getMAX_SUPP_REL() const {return MAX_SUPP_REL;}
 
   /** Set the value of USE_INTSLACKS. Default: 0 */
-- 
2.43.0


From cdbd58b575d2c8da5806dce5cd1b7e5269965574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:56 +0000
Subject: [PATCH 08/14] fix: count cuts rejected at once for too small a
 violation in the lift-and-project validator

---
 src/CglLandP/CglLandPValidator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CglLandP/CglLandPValidator.cpp b/src/CglLandP/CglLandPValidator.cpp
index b00b52f..0278dab 100644
--- a/src/CglLandP/CglLandPValidator.cpp
+++ b/src/CglLandP/CglLandPValidator.cpp
@@ -54,7 +54,10 @@ Validator::cleanCut(OsiRowCut & aCut, const double * solCut, const OsiSolverInte
     /** First compute violation if it is too small exit */
     double violation = aCut.violated(solCut);
     if (violation < minViolation_)
-        return 1;
+    {
+        numRejected_[SmallViolation]++;
+        return SmallViolation;
+    }
 
     /** Now relax get dynamic and remove tiny elements */
     int offset = 0;
@@ -181,7 +184,10 @@ Validator::cleanCut2(OsiRowCut & aCut, const double * solCut, const OsiSolverInt
     /** First compute violation if it is too small exit */
     double violation = aCut.violated(solCut);
     if (violation < minViolation_)
-        return 1;
+    {
+        numRejected_[SmallViolation]++;
+        return SmallViolation;
+    }
 
     /** Now relax get dynamic and remove tiny elements */
     int offset = 0;
-- 
2.43.0


From 00bd6f6dae7d7ff9fcbfa149e35052fcbda8e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:59 +0000
Subject: [PATCH 09/14] fix: assigning over a CglZeroHalf that has separated
 cuts no longer aborts

---
 src/CglZeroHalf/Cgl012cut.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglZeroHalf/Cgl012cut.cpp b/src/CglZeroHalf/Cgl012cut.cpp
index 3fedc6f..6bcf8c9 100644
--- a/src/CglZeroHalf/Cgl012cut.cpp
+++ b/src/CglZeroHalf/Cgl012cut.cpp
@@ -4472,7 +4472,7 @@ Cgl012Cut::operator=(
 #ifdef CGL_ZH_ADVANCED_DEBUG_CONSTRAINT_PROFILING
     cglZeroHalfConstraintProfileStates().erase(this);
 #endif
-    if (rhs.p_ilp||rhs.vlog||inp_ilp)
+    if (rhs.p_ilp||rhs.vlog||rhs.inp_ilp)
       abort();  
     free_log_var();
     free_parity_ilp();
-- 
2.43.0


From 441b7bf80570c80afa875a025a966151a31f005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:22 +0000
Subject: [PATCH 10/14] fix: CglKnapsackCover::setTestedRowIndices leaves no
 dangling row list when given no rows

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 873fcc2..28ddfd0 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -807,6 +807,8 @@ CglKnapsackCover::setTestedRowIndices(int num, const int* ind)
    if (num > 0) {
       rowsToCheck_ = new int[num];
       CoinCopyN(ind, num, rowsToCheck_);
+   } else {
+      rowsToCheck_ = 0;
    }
 }
 
-- 
2.43.0


From 598670ed4bd2995452274274b1d18dd647337b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:36 +0000
Subject: [PATCH 11/14] fix: an assigned CglOddHole without a row list
 considers all rows, like its source

---
 src/CglOddHole/CglOddHole.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index cb9b0f5..fd2a934 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -720,7 +720,7 @@ onetol_(source.onetol_)
 {  
   // copy list of suitable rows
   numberRows_=source.numberRows_;
-  if (numberRows_) {
+  if (source.suitableRows_) {
     suitableRows_=new int[numberRows_];
     memcpy(suitableRows_,source.suitableRows_,numberRows_*sizeof(int));
   } else {
@@ -777,8 +777,12 @@ CglOddHole::operator=(
     delete [] suitableRows_;
     // copy list of suitable rows
     numberRows_=rhs.numberRows_;
-    suitableRows_=new int[numberRows_];
-    memcpy(suitableRows_,rhs.suitableRows_,numberRows_*sizeof(int));
+    if (rhs.suitableRows_) {
+      suitableRows_=new int[numberRows_];
+      memcpy(suitableRows_,rhs.suitableRows_,numberRows_*sizeof(int));
+    } else {
+      suitableRows_=NULL;
+    }
     delete [] startClique_;
     delete [] member_;
     // copy list of cliques
-- 
2.43.0


From 12391847730799bf2842101d68bc0d192fa4bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:29 +0000
Subject: [PATCH 12/14] fix: CglOddHole writes past the row list when a cycle
 uses a row more than once

---
 src/CglOddHole/CglOddHole.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index fd2a934..674bff2 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -169,7 +169,8 @@ void CglOddHole::generateCuts(const OsiRowCutDebugger * /*debugger*/,
 
   // we need only look at suitable rows and variables with unsatisfied 0-1
   // lookup from true row to compressed matrix
-  int * mrow = new int[nRows];
+  // (later rows of a cycle - a row may be used by several of its arcs)
+  int * mrow = new int[std::max(nRows,nCols)];
   // lookup from true column to compressed
   int * lookup = new int[nCols];
   // number of columns in compressed matrix
-- 
2.43.0


From 857a73e4740f8c311e2e89746fe6ea4796cc32e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:58 +0000
Subject: [PATCH 13/14] fix: CglRedSplit: wrap the row index at nrow when
 starting from a later row

With start > 0 the index start+i reached nrow and basis_index was read
past its end; row 0 was never considered.
---
 src/CglRedSplit/CglRedSplit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglRedSplit/CglRedSplit.cpp b/src/CglRedSplit/CglRedSplit.cpp
index 9eb89d6..90fdc62 100644
--- a/src/CglRedSplit/CglRedSplit.cpp
+++ b/src/CglRedSplit/CglRedSplit.cpp
@@ -1450,7 +1450,7 @@ double *slack_val = new double[nrow];
     }
 
     int ind_row = start + i;
-    if(ind_row > nrow) {
+    if(ind_row >= nrow) {
       ind_row -= nrow;
     }
 
-- 
2.43.0


From a7b4cef9311289d685036e29af52c6bffc97c02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 14/14] fix: CglOddHole keeps fixed columns out of the cut and
 uses the right-hand side they leave

---
 src/CglOddHole/CglOddHole.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index 674bff2..42d0944 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -62,6 +62,7 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   const int * column = rowCopy->getIndices();
   const CoinBigIndex * rowStart = rowCopy->getVectorStarts();
   const int * rowLength = rowCopy->getVectorLengths(); 
+  const double * rowElements = rowCopy->getElements();
   const double * collower = si.getColLower();
   const double * colupper = si.getColUpper();
   int * suitable = temp.suitableRows_;
@@ -95,11 +96,14 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     if (suitable[i]) {
       CoinBigIndex k;
       double sum=0.0;
-      if (rowupper[i]>1.001) suitable[i]=-1;
+      double upper=rowupper[i];
       for (k=rowStart[i]; k<rowStart[i]+rowLength[i];k++) {
 	int icol=column[k];
 	if (!fixed[icol]) sum += solution[icol];
+	// fixed columns are taken to the right-hand side
+	if (fixed[icol]>1) upper -= collower[icol]*rowElements[k];
       }
+      if (upper>1.001) suitable[i]=-1;
       if (sum<0.9) suitable[i]=-1; //say no good
     }
   }
@@ -121,13 +125,15 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     if (suitable[i]) {
       CoinBigIndex k;
       double sum=0.0;
-      if (rowlower[i]<0.999) sum=2.0;
+      double lower=rowlower[i];
       if (rowupper[i]>1.001) doCover=true;
       for (k=rowStart[i]; k<rowStart[i]+rowLength[i];k++) {
 	int icol=column[k];
 	if (!fixed[icol]) sum += solution[icol];
 	if (fixed[icol]==1) sum=2.0; //don't use if any at 1
+	if (fixed[icol]>1) lower -= collower[icol]*rowElements[k];
       }
+      if (lower<0.999) sum=2.0;
       if (sum>1.1) {
 	suitable[i]=-1; //say no good
       } else {
@@ -443,6 +449,7 @@ void CglOddHole::generateCuts(const OsiRowCutDebugger * /*debugger*/,
 	    int irow=mrow[k];
 	    for (j=rowStart[irow];j<rowStart[irow]+rowLength[irow];j++) {
 	      int icol=column[j];
+	      if (fixedColumn[icol]>1) continue; // in right-hand side
 	      if (!countcol[icol]) candidate[nincut++]=icol;
 	      countcol[icol]++;
 	    }
-- 
2.43.0

