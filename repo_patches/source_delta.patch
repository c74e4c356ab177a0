From d365317de3376126acbac5ff13827daea4fd3e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:01 +0000
Subject: [PATCH 01/41] fix: write the element the value belongs to in Boost
 vector assign()

---
 orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
index 51d2f11..478ddf4 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
@@ -67,7 +67,7 @@ void MyColumnVector::assign(int num_rows, double value)
   BoostColumnVector & op1 = (*this);
   op1.resize(num_rows);
   for (unsigned int i=0; i<num_rows; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
@@ -275,7 +275,7 @@ void MyRowVector::assign(int num_columns, double value)
   BoostRowVector & op1 = (*this);
   op1.resize(num_columns);
   for (unsigned int i=0; i<num_columns; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
-- 
2.43.0


From 08abeb45e6debe3f4a6505fe6a138600bc327f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:16 +0000
Subject: [PATCH 02/41] fix: rowCopy and columnCopy count from 1 with the Eigen
 wrapper too

---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 533ca6f..f68ab2b 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -182,12 +182,12 @@ MyMatrix&
 
 MyRowVector MyMatrix::rowCopy(unsigned int r) const
 {
-  return (MyRowVector) (*this).row(r);
+  return (MyRowVector) (*this).row(r-1);
 }
 
 MyColumnVector MyMatrix::columnCopy(unsigned int c) const
 {
-  return (MyColumnVector) (*this).col(c);
+  return (MyColumnVector) (*this).col(c-1);
 }
 
 
-- 
2.43.0


From d186ec0291e64ced446133575bfb052413ff1b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:49 +0000
Subject: [PATCH 03/41] fix: join row vectors by their columns in the Eigen
 wrapper

---
 orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
index 0380eef..e9bf425 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
@@ -244,10 +244,10 @@ MyRowVector
 MyRowVector::vectorAdd(const MyRowVector& v2) const
 {
   const MyRowVector& v1 = *this;
-  MyRowVector res(v1.rows() + v2.rows());
+  MyRowVector res(v1.columns() + v2.columns());
   EigenRowVector& opl = res;
-  opl.head(v1.rows()) = (const EigenRowVector &)(v1);
-  opl.tail(v2.rows()) = (const EigenRowVector &)(v2);
+  opl.head(v1.columns()) = (const EigenRowVector &)(v1);
+  opl.tail(v2.columns()) = (const EigenRowVector &)(v2);
   return res;
 }
 
-- 
2.43.0


From bce3b0af66fe983499402d7dd4d7ca24ed148fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:04 +0000
Subject: [PATCH 04/41] fix: build the symmetric matrix from the lower triangle
 with Eigen, as documented

---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index f68ab2b..28d2851 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -224,7 +224,7 @@ MyMatrix::convertToSymmetricMatrix(MySymmetricMatrix& sym)
   assert(this->rows() == this->columns());
 
   const EigenMatrix & A = (EigenMatrix &) (*this);
-  sym = MySymmetricMatrix(A.selfadjointView<Eigen::Upper>());
+  sym = MySymmetricMatrix(EigenSymmetricMatrix(A.selfadjointView<Eigen::Lower>()));
   return 0;
 }
 
-- 
2.43.0


From b0a676df86b61aa894f2784de0ec3bd66c071496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 05/41] fix: honour the copy argument of resize() in the Eigen
 wrapper

---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 28d2851..d726d9f 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -232,7 +232,8 @@ void
 MyMatrix::resize(unsigned int i, unsigned int j, bool copy, bool initialize)
 {
   EigenMatrix & temp = (EigenMatrix &) (*this);
-  temp.resize(i,j);
+  if (copy) temp.conservativeResize(i,j);
+  else temp.resize(i,j);
 }
 
 // get sub matrix
@@ -505,7 +506,8 @@ void
 MySymmetricMatrix::resize(unsigned int i, bool copy, bool initialize)
 {
   EigenSymmetricMatrix & temp = (EigenSymmetricMatrix &) (*this);
-  temp.resize(i,i);
+  if (copy) temp.conservativeResize(i,i);
+  else temp.resize(i,i);
 }
 
 
-- 
2.43.0


From d54788b1932b6988f477a46bc605e226e6a6d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:37 +0000
Subject: [PATCH 06/41] fix: the determinant of a singular matrix is 0 with
 Boost, not an abort

---
 orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
index dbd1d2e..b55c94b 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
@@ -243,7 +243,7 @@ double MyMatrix::determinant() const
             boost::numeric::ublas::permutation_matrix<> ndx(r);
             noalias(LU) = A;
             int res = lu_factorize(LU,ndx);
-            assert(res == 0);
+            if (res != 0) return 0.0; // singular
 
             int s = 1;
             for (boost::numeric::ublas::matrix<double>::size_type i=0;i<LU.size1();++i) {
@@ -434,7 +434,7 @@ double MySymmetricMatrix::determinant() const
         boost::numeric::ublas::permutation_matrix<> ndx(r);
         noalias(LU) = A;
         int res = lu_factorize(LU,ndx);
-        assert(res == 0);
+        if (res != 0) return 0.0; // singular
 
         double result = 1.0;
         int s = 1;
-- 
2.43.0


From c3c7d1a0b5b538ddace2ae9f0dd4759022e0d1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:05 +0000
Subject: [PATCH 07/41] fix: a Uniform created without dimension can be sampled
 after UniformSet

---
 orocos_bfl/src/pdf/uniform.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orocos_bfl/src/pdf/uniform.cpp b/orocos_bfl/src/pdf/uniform.cpp
index 914cd7d..437b0dc 100644
--- a/orocos_bfl/src/pdf/uniform.cpp
+++ b/orocos_bfl/src/pdf/uniform.cpp
@@ -137,6 +137,7 @@ namespace BFL
         _Height = _Height / width(i);
     }
     if (this->DimensionGet() == 0) this->DimensionSet(center.rows());
+    _samples.resize(center.rows());
     assert(this->DimensionGet() == center.rows());
   }
 
-- 
2.43.0


From 057ee3dd3554da6617ad17676fb361a47649e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:47 +0000
Subject: [PATCH 08/41] fix: a uniform draw of exactly 0 selects a valid state
 in the discrete samplers

---
 orocos_bfl/src/pdf/discreteconditionalpdf.cpp | 10 +++---
 orocos_bfl/src/pdf/discretepdf.cpp            | 25 ++++++---------
 orocos_bfl/src/pdf/mcpdf.h                    | 23 +++++---------
 orocos_bfl/src/pdf/mixture.h                  | 31 +++++++------------
 4 files changed, 34 insertions(+), 55 deletions(-)

diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
index 250710e..960cb45 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
@@ -165,12 +165,10 @@ namespace BFL
     double unif_sample; unif_sample = runif();
     // Compare where we should be: THIS CAN BE MADE FASTER: TODO
     index = 0;
-    while ( unif_sample > _valuelist[index] )
-      {
-	assert(index <= NumStatesGet());
-	index++;
-      }
-    one_sample.ValueSet(index-1);
+    // state index covers [_valuelist[index], _valuelist[index+1])
+    while ( index+1 < NumStatesGet() && unif_sample >= _valuelist[index+1] )
+      index++;
+    one_sample.ValueSet(index);
     return true;
   }
 
diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index d47ebf3..9121b9b 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -144,7 +144,8 @@ namespace BFL
 	      unif_samples[i] = runif();
 
 	    /* take n-th racine of u_N */
-	    unif_samples[num_samples-1] = pow(unif_samples[num_samples-1],
+	    if (num_samples > 0)
+	      unif_samples[num_samples-1] = pow(unif_samples[num_samples-1],
 	  				   double (1.0/num_samples));
 	    /* rescale samples */
 	    for ( int i = num_samples-2; i >= 0 ; i--)
@@ -153,18 +154,14 @@ namespace BFL
 	    // CHECK WHERE THESE SAMPLES ARE IN _CUMPDF
 	    unsigned int index = 0;
 	    unsigned int num_states = NumStatesGet();
-	    vector<double>::const_iterator CumPDFit = _CumPDF.begin();
 	    vector<Sample<int> >::iterator sit = list_samples.begin();
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
-	        {
-	  	// check for internal error
-	  	assert(index <= num_states);
-	  	index++; CumPDFit++;
-	        }
-          int a = index - 1;
+	        // state index covers [_CumPDF[index], _CumPDF[index+1])
+	        while ( index+1 < num_states && unif_samples[i] >= _CumPDF[index+1] )
+	  	index++;
+          int a = index;
 	      sit->ValueSet(a);
 	      sit++;
 	      }
@@ -188,12 +185,10 @@ namespace BFL
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
 	  unsigned int index = 0;
-	  while ( unif_sample > _CumPDF[index] )
-	    {
-	      assert(index <= NumStatesGet());
-	      index++;
-	    }
-	  int a = index - 1;
+	  // state index covers [_CumPDF[index], _CumPDF[index+1])
+	  while ( index+1 < NumStatesGet() && unif_sample >= _CumPDF[index+1] )
+	    index++;
+	  int a = index;
 	  one_sample.ValueSet(a);
 	  return true;
 	}
diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index e2390ff..8c334b5 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -254,7 +254,8 @@ namespace BFL
 	      unif_samples[i] = runif();
 
 	    /* take n-th racine of u_N */
-	    unif_samples[numsamples-1] = pow(unif_samples[numsamples-1], double (1.0/numsamples));
+	    if (numsamples > 0)
+	      unif_samples[numsamples-1] = pow(unif_samples[numsamples-1], double (1.0/numsamples));
 	    /* rescale other samples */
 	    // only resample if more than one sample
 	    if (numsamples > 1)
@@ -266,19 +267,16 @@ namespace BFL
 	    unsigned int size;
 	    size = _listOfSamples.size();
 	    typename vector<WeightedSample<T> >::const_iterator it = _listOfSamples.begin();
-	    typename vector<double>::const_iterator CumPDFit = _CumPDF.begin();
 	    typename vector<Sample<T> >::iterator sit = list_samples.begin();
 
 	    for ( unsigned int i = 0; i < numsamples ; i++)
 	      {
-		while ( unif_samples[i] > *CumPDFit )
+		// sample index covers [_CumPDF[index], _CumPDF[index+1])
+		while ( index+1 < size && unif_samples[i] >= _CumPDF[index+1] )
 		  {
-		    assert(index <= size);
-		    index++; it++; CumPDFit++;
+		    index++; it++;
 		  }
-		it--;
 		*sit = *it;
-		it++;
 		sit++;
 	      }
 	    return true;
@@ -305,16 +303,11 @@ namespace BFL
 	    unsigned int size; size = _listOfSamples.size();
 	    typename vector<WeightedSample<T> >::const_iterator it;
 	    it = _listOfSamples.begin();
-	    typename vector<double>::const_iterator CumPDFit;
-	    CumPDFit = _CumPDF.begin();
-
-	    while ( unif_sample > *CumPDFit )
+	    // sample index covers [_CumPDF[index], _CumPDF[index+1])
+	    while ( index+1 < size && unif_sample >= _CumPDF[index+1] )
 	      {
-		// check for internal error
-		assert(index <= size);
-		index++; it++; CumPDFit++;
+		index++; it++;
 	      }
-	    it--;
 	    one_sample = *it;
 	    return true;
 	  }
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index d43118f..6d7064e 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -303,7 +303,8 @@ template<typename T>
 	      unif_samples[i] = runif();
 
 	    /* take n-th racine of u_N */
-	    unif_samples[num_samples-1] = pow(unif_samples[num_samples-1],
+	    if (num_samples > 0)
+	      unif_samples[num_samples-1] = pow(unif_samples[num_samples-1],
 	  				   double (1.0/num_samples));
 	    /* rescale samples */
 	    for ( int i = num_samples-2; i >= 0 ; i--)
@@ -312,20 +313,15 @@ template<typename T>
 	    // CHECK WHERE THESE SAMPLES ARE IN _CUMWEIGHTS
 	    unsigned int index = 0;
 	    unsigned int num_states = NumComponentsGet();
-	    vector<double>::const_iterator CumPDFit = _cumWeights.begin();
 	    typename vector<Sample<T> >::iterator sit = list_samples.begin();
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
-	        {
-	  	// check for internal error
-	  	assert(index <= num_states);
-	  	index++; CumPDFit++;
-	        }
-          // index-1 is a sample of the discrete pdf of the mixture weights
-          // get a sample from the index-1'th mixture component
-	      (*_componentPdfs)[index-1]->SampleFrom(*sit,method,args);
+	        while ( index+1 < num_states && unif_samples[i] >= _cumWeights[index+1] )
+	  	index++;
+          // index is a sample of the discrete pdf of the mixture weights
+          // get a sample from the index'th mixture component
+	      (*_componentPdfs)[index]->SampleFrom(*sit,method,args);
 	      sit++;
 	      }
 	    return true;
@@ -347,14 +343,11 @@ template<typename T>
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
 	  unsigned int index = 0;
-	  while ( unif_sample > _cumWeights[index] )
-	    {
-	      assert(index <= NumComponentsGet());
-	      index++;
-	    }
-         // index-1 is a sample of the discrete pdf of the mixture weights
-      // get a sample from the index-1'th mixture component
-	  (*_componentPdfs)[index-1]->SampleFrom(one_sample,method,args);
+	  while ( index+1 < NumComponentsGet() && unif_sample >= _cumWeights[index+1] )
+	    index++;
+         // index is a sample of the discrete pdf of the mixture weights
+      // get a sample from the index'th mixture component
+	  (*_componentPdfs)[index]->SampleFrom(one_sample,method,args);
 	  return true;
 	}
       default:
-- 
2.43.0


From bf1591ec00524b74765485668c492cf813ca137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:45 +0000
Subject: [PATCH 09/41] fix: ordered sampling of a mixture draws from its
 components

---
 orocos_bfl/src/pdf/mixture.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 6d7064e..876fc5a 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -321,7 +321,8 @@ template<typename T>
 	  	index++;
           // index is a sample of the discrete pdf of the mixture weights
           // get a sample from the index'th mixture component
-	      (*_componentPdfs)[index]->SampleFrom(*sit,method,args);
+	      // (single samples are drawn with the default method)
+	      (*_componentPdfs)[index]->SampleFrom(*sit,SampleMthd::DEFAULT,args);
 	      sit++;
 	      }
 	    return true;
-- 
2.43.0


From ea295c0b1fdea845e4855b44a101e693e27c0f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:16 +0000
Subject: [PATCH 10/41] fix: Mixture::ComponentsGet returns the vector, not the
 pointer to it

---
 orocos_bfl/src/pdf/mixture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 876fc5a..d4a4d2b 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -527,7 +527,7 @@ template<typename T>
   vector<Pdf<T>*> Mixture<T>::ComponentsGet() const
   {
     TestNotInit();
-    return _componentPdfs;
+    return *_componentPdfs;
   }
 
 template<typename T>
-- 
2.43.0


From 5d5463ad486cb34ef938e22e21886ba13990f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:38 +0000
Subject: [PATCH 11/41] fix: setting one probability or weight keeps the others
 normalised when they are tiny or absent

---
 orocos_bfl/src/pdf/discretepdf.cpp | 10 ++++++----
 orocos_bfl/src/pdf/mixture.h       |  8 +++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index 9121b9b..e9a591e 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -91,9 +91,11 @@ namespace BFL
     // renormalize other probabilities such that sum of probabilities will be
     // one after the probability of state is set to a
     // This should keep the probabilities normalized
-    Probability old_prob_state = ProbabilityGet(state);
-    if (old_prob_state!=1) {
-        double normalization_factor = (1-a)/(1-old_prob_state);
+    double sum_other_probs = 0.0;
+    for (int i=0; i<NumStatesGet();i++)
+        if (i != state) sum_other_probs += (*_Values_p)[i];
+    if (sum_other_probs > 0) {
+        double normalization_factor = (1-a)/sum_other_probs;
         for (int i=0; i<NumStatesGet();i++)
         {
             (*_Values_p)[i] = (Probability)( (double)( (*_Values_p)[i] )* normalization_factor);
@@ -102,7 +104,7 @@ namespace BFL
     else{
         for (int i=0; i<NumStatesGet();i++)
         {
-            (*_Values_p)[i] = (Probability)( (1-a)/(NumStatesGet()-1));
+            if (i != state) (*_Values_p)[i] = (Probability)( (1-a)/(NumStatesGet()-1));
         }
     }
     (*_Values_p)[state] = a;
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index d4a4d2b..d1df49a 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -421,9 +421,11 @@ template<typename T>
         // renormalize other weights such that sum of probabilities will be
         // one after the weight of the component is set to weight
         // This should keep the probabilities normalized
-        Probability old_weight = WeightGet(componentNumber);
-        if ((double)old_weight!=1.0) {
-            double normalization_factor = (1-weight)/(1-old_weight);
+        double sum_other_weights = 0.0;
+        for (int i=0; i<NumComponentsGet();i++)
+            if (i != componentNumber) sum_other_weights += (*_componentWeights)[i];
+        if (sum_other_weights > 0) {
+            double normalization_factor = (1-weight)/sum_other_weights;
             for (int i=0; i<NumComponentsGet();i++)
             {
                 (*_componentWeights)[i] = (Probability)( (double)( (*_componentWeights)[i] )* normalization_factor);
-- 
2.43.0


From 8524f779e9032a02acadcb92dc2c1528f0b1a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:11 +0000
Subject: [PATCH 12/41] fix: assigning discrete pdfs and mixtures copies their
 values

---
 orocos_bfl/src/pdf/discreteconditionalpdf.cpp | 26 +++++++++++++++++--
 orocos_bfl/src/pdf/discreteconditionalpdf.h   |  2 ++
 orocos_bfl/src/pdf/discretepdf.cpp            | 12 +++++++++
 orocos_bfl/src/pdf/discretepdf.h              |  3 +++
 orocos_bfl/src/pdf/mixture.h                  | 18 +++++++++++++
 5 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
index 960cb45..8aa1422 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
@@ -19,6 +19,7 @@
 #include "discreteconditionalpdf.h"
 #include "../wrappers/rng/rng.h"
 #include <vector>
+#include <algorithm>
 #include <iostream>
 
 namespace BFL
@@ -53,8 +54,8 @@ namespace BFL
 #ifdef __DCPDFDEBUG__
     cout << "DCPdf Destructor:" << endl;
 #endif // __DCPDFDEBUG__
-    //delete _probability_p;
-    //delete _cond_arg_dims_p;
+    delete [] _probability_p;
+    delete [] _cond_arg_dims_p;
   }
 
 
@@ -80,6 +81,27 @@ namespace BFL
       }
   }
 
+  DiscreteConditionalPdf & DiscreteConditionalPdf::operator=(const DiscreteConditionalPdf & pdf)
+  {
+    if (this != &pdf)
+      {
+	double * probability_p = new double[pdf._total_dimension];
+	std::copy(pdf._probability_p, pdf._probability_p + pdf._total_dimension, probability_p);
+	int * cond_arg_dims_p = new int[pdf.NumConditionalArgumentsGet()];
+	std::copy(pdf._cond_arg_dims_p, pdf._cond_arg_dims_p + pdf.NumConditionalArgumentsGet(), cond_arg_dims_p);
+	delete [] _probability_p;
+	delete [] _cond_arg_dims_p;
+	ConditionalPdf<int,int>::operator=(pdf);
+	_num_states = pdf._num_states;
+	_probability_p = probability_p;
+	_cond_arg_dims_p = cond_arg_dims_p;
+	_total_dimension = pdf._total_dimension;
+	_probs = pdf._probs;
+	_valuelist = pdf._valuelist;
+      }
+    return *this;
+  }
+
   //Clone function
   DiscreteConditionalPdf* DiscreteConditionalPdf::Clone() const
   {
diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.h b/orocos_bfl/src/pdf/discreteconditionalpdf.h
index 3f743d0..72e47b3 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.h
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.h
@@ -92,6 +92,8 @@ namespace BFL
 			     int cond_arg_dimensions[] = NULL);
       /// Copy constructor
       DiscreteConditionalPdf(const DiscreteConditionalPdf & pdf);
+      /// Assignment operator
+      DiscreteConditionalPdf & operator=(const DiscreteConditionalPdf & pdf);
       /// Destructor
       virtual ~DiscreteConditionalPdf();
 
diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index e9a591e..40c3eb7 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -56,6 +56,18 @@ namespace BFL
 #endif // __CONSTRUCTOR__
   }
 
+  DiscretePdf & DiscretePdf::operator=(const DiscretePdf & my_dpdf)
+  {
+    if (this != &my_dpdf)
+    {
+      Pdf<int>::operator=(my_dpdf);
+      _num_states = my_dpdf._num_states;
+      *_Values_p = *my_dpdf._Values_p;
+      _CumPDF = my_dpdf._CumPDF;
+    }
+    return *this;
+  }
+
   DiscretePdf::~DiscretePdf()
   {
 #ifdef __CONSTRUCTOR__
diff --git a/orocos_bfl/src/pdf/discretepdf.h b/orocos_bfl/src/pdf/discretepdf.h
index 92d55c9..5eb76af 100644
--- a/orocos_bfl/src/pdf/discretepdf.h
+++ b/orocos_bfl/src/pdf/discretepdf.h
@@ -58,6 +58,9 @@ namespace BFL
       /// Copy Constructor
       DiscretePdf(const DiscretePdf &);
 
+      /// Assignment operator
+      DiscretePdf & operator=(const DiscretePdf &);
+
       /// Destructor
       virtual ~DiscretePdf();
 
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index d1df49a..b71b78b 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -87,6 +87,9 @@ namespace BFL
 
       Mixture(const Mixture & my_mixture);
 
+      /// Assignment operator
+      Mixture & operator=(const Mixture & my_mixture);
+
       /// Destructor
       virtual ~Mixture();
 
@@ -243,6 +246,21 @@ Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet()
 #endif // __CONSTRUCTOR__
   }
 
+template<typename T>
+  Mixture<T> & Mixture<T>::operator=(const Mixture & my_mixture)
+  {
+    if (this != &my_mixture)
+    {
+      Mixture copy(my_mixture);
+      Pdf<T>::operator=(my_mixture);
+      std::swap(_numComponents, copy._numComponents);
+      std::swap(_componentWeights, copy._componentWeights);
+      std::swap(_componentPdfs, copy._componentPdfs);
+      std::swap(_cumWeights, copy._cumWeights);
+    }
+    return *this;
+  }
+
 template<typename T>
   Mixture<T>::~Mixture()
   {
-- 
2.43.0


From 54b18bdf08b59662172b68d5c6c4a4060ecb69ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:40 +0000
Subject: [PATCH 13/41] fix: a mixture without components can be copied

---
 orocos_bfl/src/pdf/mixture.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index b71b78b..a487fb4 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -231,9 +231,10 @@ Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet()
   {
     //create pointer to vector of component weights
     _componentWeights = new vector<Probability>(this->NumComponentsGet());
-    (*_componentWeights) = my_mixture.WeightsGet();
+    (*_componentWeights) = *my_mixture._componentWeights;
     _cumWeights.insert(_cumWeights.begin(),NumComponentsGet()+1,0.0);
-    CumWeightsUpdate();
+    if (NumComponentsGet() > 0) // a mixture without components has no weights
+        CumWeightsUpdate();
 
     //create pointer to vector of pointers to weights
     _componentPdfs = new vector< Pdf<T>* >(NumComponentsGet());
-- 
2.43.0


From 38c8ea3466b4769ff46c9155e506077ea56c8830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:08 +0000
Subject: [PATCH 14/41] fix: the square root filter uses the lower Cholesky
 factors as they are

---
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
index ade6dcd..b64a84b 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
@@ -50,7 +50,6 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
    // cout<<"post_covar\n"<<_post->CovarianceGet()<<endl;
 
     ((_post->CovarianceGet()).cholesky_semidefinite(JP));
-    JP = JP.transpose();
     // cout<<"JP3\n"<<JP<<endl;
 
   }
@@ -108,7 +107,6 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
          else
          {
                      R_i.cholesky_semidefinite(R_vf);
-                     R_vf = R_vf.transpose();
          }
 
 	// numerical limitations
@@ -195,7 +193,6 @@ void
 	S_temp1.convertToSymmetricMatrix(S_temp);
 
 	S_temp.cholesky_semidefinite(Sr);
-	Sr  = Sr.transpose();
 
 	invS = Sr.inverse();
 	K_i  = JP*(JP.transpose())*(H_i.transpose())*(invS.transpose())*invS;
-- 
2.43.0


From ddb916aec9f5ca8166e023200355df6103c16957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:18 +0000
Subject: [PATCH 15/41] fix: setting the belief of the square root filter keeps
 covariance and square root in step

---
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
index b64a84b..0f6b312 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
@@ -156,12 +156,17 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
  void SRIteratedExtendedKalmanFilter::SRCovarianceSet(Matrix JP_new)
  {
 		 JP=JP_new;
+		 SymmetricMatrix Sigma(JP.rows());
+		 Matrix Sigma_matrix = JP*(JP.transpose());
+		 Sigma_matrix.convertToSymmetricMatrix(Sigma);
+		 PostSigmaSet(Sigma);
  }
 
  void SRIteratedExtendedKalmanFilter::PriorSet(ColumnVector& X_prior,SymmetricMatrix& P_prior)
  {
  	PostMuSet( X_prior );
 	PostSigmaSet( P_prior );
+	P_prior.cholesky_semidefinite(JP);
  }
 void
   SRIteratedExtendedKalmanFilter::CalculateMeasUpdate(ColumnVector z, ColumnVector Z, Matrix H, SymmetricMatrix R)
-- 
2.43.0


From b279a20c39618cfbb2b219e800e00d04032438c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:18 +0000
Subject: [PATCH 16/41] fix: the SVD converges when singular values coincide

---
 orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp b/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp
index 4ed9fe3..edc8a8f 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp
@@ -161,6 +161,9 @@ namespace MatrixWrapper
           ++U(i,i);
         }
 
+        // rounding leaves elements of this size: smaller ones count as zero
+        const double negligible = std::numeric_limits<double>::epsilon()*anorm;
+
         // Diagonalization of the bidiagonal form:
         // Loop over singular values,and over allowed iterations
         for ( k=cols; k >= 1; k--) {
@@ -169,11 +172,11 @@ namespace MatrixWrapper
             //Test for splitting. Note that rv1[i] is always 0
             for (ppi=k; ppi >= 1; ppi--) {
               nm=ppi-1;
-              if ((fabs(rv1.at(ppi-1))+anorm) == anorm) {
+              if (fabs(rv1.at(ppi-1)) <= negligible) {
                 flag=false;
                 break;
               }
-              if ((fabs(w(nm)+anorm) == anorm)) {
+              if (fabs(w(nm)) <= negligible) {
                 break;
               }
             }
@@ -184,7 +187,7 @@ namespace MatrixWrapper
               for ( i=ppi; i <= k ;i++) {
                 f=s*rv1.at(i-1);
                 rv1.at(i-1)=c*rv1.at(i-1);
-                if ((fabs(f)+anorm) == anorm) {
+                if (fabs(f) <= negligible) {
                   break;
                 }
                 g=w(i);
-- 
2.43.0


From 7cc1bbb0de4eee4d2b26e5d5aae018b0fc591a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:12 +0000
Subject: [PATCH 17/41] fix: resetting a Kalman filter copies the new prior
 instead of adopting the user's object

---
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp | 6 ++++++
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h   | 2 ++
 orocos_bfl/src/filter/kalmanfilter.cpp                   | 8 ++++++++
 orocos_bfl/src/filter/kalmanfilter.h                     | 1 +
 orocos_bfl/src/pdf/filterproposaldensity.cpp             | 9 +++++++--
 5 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
index 0f6b312..09fa0f1 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
@@ -162,6 +162,12 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
 		 PostSigmaSet(Sigma);
  }
 
+ void SRIteratedExtendedKalmanFilter::Reset(Pdf<ColumnVector> * prior)
+ {
+	KalmanFilter::Reset(prior);
+	(_post->CovarianceGet()).cholesky_semidefinite(JP);
+ }
+
  void SRIteratedExtendedKalmanFilter::PriorSet(ColumnVector& X_prior,SymmetricMatrix& P_prior)
  {
  	PostMuSet( X_prior );
diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
index 0016778..f2243ad 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
@@ -77,6 +77,8 @@ namespace BFL
       MatrixWrapper::Matrix SRCovarianceGet() const;
       /// Set the square root covariance to a specific value
       void  	SRCovarianceSet( MatrixWrapper::Matrix JP_new);
+      /// Restart the filter from a new prior
+      virtual void Reset(Pdf<MatrixWrapper::ColumnVector> * prior);
       /// Set mean and covariance of the state estimation to a specific value
       void 	PriorSet(MatrixWrapper::ColumnVector& X, MatrixWrapper::SymmetricMatrix& P);
 
diff --git a/orocos_bfl/src/filter/kalmanfilter.cpp b/orocos_bfl/src/filter/kalmanfilter.cpp
index 04b11ed..154e9be 100644
--- a/orocos_bfl/src/filter/kalmanfilter.cpp
+++ b/orocos_bfl/src/filter/kalmanfilter.cpp
@@ -41,6 +41,14 @@ namespace BFL
     delete _post;
   }
 
+  void
+  KalmanFilter::Reset(Pdf<ColumnVector> * prior)
+  {
+    // the posterior belongs to the filter, the prior to the user: copy the values
+    this->_prior = prior;
+    dynamic_cast<Gaussian &>(*_post) = dynamic_cast<Gaussian &>(*prior);
+  }
+
   void
   KalmanFilter::AllocateMeasModel(const vector<unsigned int>& meas_dimensions)
   {
diff --git a/orocos_bfl/src/filter/kalmanfilter.h b/orocos_bfl/src/filter/kalmanfilter.h
index 8c62f2e..086caee 100644
--- a/orocos_bfl/src/filter/kalmanfilter.h
+++ b/orocos_bfl/src/filter/kalmanfilter.h
@@ -60,6 +60,7 @@ public:
 
   // implement virtual function
   virtual Gaussian* PostGet();
+  virtual void Reset(Pdf<MatrixWrapper::ColumnVector> * prior);
 
   /// Function to allocate memory needed during the measurement update,
   //  For realtime use, this function should be called before calling measUpdate
diff --git a/orocos_bfl/src/pdf/filterproposaldensity.cpp b/orocos_bfl/src/pdf/filterproposaldensity.cpp
index 32bad3f..6d4973d 100644
--- a/orocos_bfl/src/pdf/filterproposaldensity.cpp
+++ b/orocos_bfl/src/pdf/filterproposaldensity.cpp
@@ -55,10 +55,15 @@ namespace BFL
     */
   }
 
-  FilterPropDens::~FilterPropDens(){}
+  FilterPropDens::~FilterPropDens()
+  {
+    delete _TmpPrior;
+  }
 
   // BUG Copy constructor not implemented yet
-  FilterPropDens::FilterPropDens(const FilterPropDens & fpd){}
+  FilterPropDens::FilterPropDens(const FilterPropDens & fpd)
+    : _TmpPrior(NULL), _filter(NULL)
+  {}
 
   void
   FilterPropDens::SystemModelSet(AnalyticSystemModelGaussianUncertainty * SysModel)
-- 
2.43.0


From f62b004363aeac46af2f77c61fbb39d1347e50c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:34 +0000
Subject: [PATCH 18/41] fix: resetting a histogram filter copies the new prior
 instead of adopting the user's object

---
 orocos_bfl/src/filter/histogramfilter.cpp | 10 ++++++++++
 orocos_bfl/src/filter/histogramfilter.h   |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index c3f47ce..0c047c4 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -94,6 +94,16 @@
     return true;
   }
 
+  template <typename MeasVar>
+  void
+  HistogramFilter<MeasVar>::Reset(Pdf<int> * prior)
+  {
+    this->_prior = prior;
+    *((DiscretePdf*)this->_post) = *((DiscretePdf*)prior);
+    _old_prob = ((DiscretePdf*)prior)->ProbabilitiesGet();
+    _new_prob = _old_prob;
+  }
+
   template <typename MeasVar>
   DiscretePdf*
   HistogramFilter<MeasVar>::PostGet()
diff --git a/orocos_bfl/src/filter/histogramfilter.h b/orocos_bfl/src/filter/histogramfilter.h
index 5992b08..6468617 100644
--- a/orocos_bfl/src/filter/histogramfilter.h
+++ b/orocos_bfl/src/filter/histogramfilter.h
@@ -61,6 +61,9 @@ public:
   // implement virtual function
   virtual DiscretePdf* PostGet();
 
+  // the posterior belongs to the filter: a new prior is copied
+  virtual void Reset(Pdf<int> * prior);
+
 protected:
   /// While updating store list of old probabilities
   vector<Probability > _old_prob;
-- 
2.43.0


From 2d0d912a7feb359606b7af333eb74b973835da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:50 +0000
Subject: [PATCH 19/41] fix: the histogram filter reports a measurement that is
 impossible in every state

---
 orocos_bfl/src/filter/histogramfilter.cpp | 15 ++++++++-------
 orocos_bfl/src/filter/histogramfilter.h   |  4 ++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index 0c047c4..ed899c9 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -38,7 +38,7 @@
   }
 
   template <typename MeasVar>
-  void
+  bool
   HistogramFilter<MeasVar>::SysUpdate(SystemModel<int>* const sysmodel, const int& u)
   {
     bool without_inputs = sysmodel->SystemWithoutInputs();
@@ -64,11 +64,11 @@
         }
        _new_prob[to_state] = temp;
     }
-    ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_new_prob);
+    return ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_new_prob);
   }
 
   template <typename MeasVar>
-  void
+  bool
   HistogramFilter<MeasVar>::MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel, const MeasVar& z, const int& s)
   {
       int num_states = ( (DiscretePdf*)this->_post )->NumStatesGet();
@@ -79,7 +79,7 @@
           else _old_prob[state] = _old_prob[state] * measmodel->ProbabilityGet(z,state,s);
           _old_prob[state] = (Probability)((double)( _old_prob[state]) );
       }
-      ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_old_prob);
+      return ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_old_prob);
   }
 
   template <typename MeasVar>
@@ -89,9 +89,10 @@
 			       MeasurementModel<MeasVar,int>* const measmodel,
 			       const MeasVar& z, const int& s)
   {
-    if (sysmodel != NULL) 	SysUpdate(sysmodel,u);
-    if (measmodel != NULL)	MeasUpdate(measmodel,z,s);
-    return true;
+    bool result = true;
+    if (sysmodel != NULL) 	result = SysUpdate(sysmodel,u);
+    if (measmodel != NULL)	result = MeasUpdate(measmodel,z,s) && result;
+    return result;
   }
 
   template <typename MeasVar>
diff --git a/orocos_bfl/src/filter/histogramfilter.h b/orocos_bfl/src/filter/histogramfilter.h
index 6468617..b1759f5 100644
--- a/orocos_bfl/src/filter/histogramfilter.h
+++ b/orocos_bfl/src/filter/histogramfilter.h
@@ -74,7 +74,7 @@ protected:
     @param sysmodel pointer to the system model the filter should use
     @param u input to the system
   */
-  void SysUpdate(SystemModel<int>* const sysmodel,
+  bool SysUpdate(SystemModel<int>* const sysmodel,
 			 const int& u);
 
   /// Measurement Update
@@ -86,7 +86,7 @@ protected:
       @param s input to the system (must be of the same type as u
       for now, since this was not yet implemented in ConditionalPdf
   */
-  void MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel,
+  bool MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel,
 			  const MeasVar& z,
 			  const int& s);
 
-- 
2.43.0


From 22829091d1edcb4b45fcef624ce0f9fea7fd03db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:44 +0000
Subject: [PATCH 20/41] fix: particle weights account for the proposal also
 when the measurement has sensor parameters

---
 orocos_bfl/src/filter/particlefilter.cpp | 55 ++++++++++++------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 335b0bc..904f8d3 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -227,36 +227,37 @@ ParticleFilter<SV,MV>::UpdateWeightsInternal(SystemModel<SV> * const sysmodel,
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+
+	  if (sysmodel->SystemWithoutInputs() == false)
 	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
-	      if (sysmodel->SystemWithoutInputs() == false)
-		{
-		  _proposal->ConditionalArgumentSet(1,u);
-		  if (this->_proposal_depends_on_meas){
-                    #ifndef STATE_AND_MEAS_VAR_DIFFERENT
-                    _proposal->ConditionalArgumentSet(2,z);
-                    #endif
-		  }
-
-		  if (_proposal->ProbabilityGet(x_new) != 0)
-		    weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,x_old,u) / _proposal->ProbabilityGet(x_new) );
-		  else weightfactor = 0;
-		}
-	      else // we do have a system without inputs
-		{
-		  if (this->_proposal_depends_on_meas){
-                    #ifndef STATE_AND_MEAS_VAR_DIFFERENT
-		    _proposal->ConditionalArgumentSet(1,z);
-                    #endif
-		  }
-		  if ( _proposal->ProbabilityGet(x_new) != 0)
-		    weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,_os_it->ValueGet()) / _proposal->ProbabilityGet(x_new) );
-		  else weightfactor = 0;
-		}
+	      _proposal->ConditionalArgumentSet(1,u);
+	      if (this->_proposal_depends_on_meas){
+                #ifndef STATE_AND_MEAS_VAR_DIFFERENT
+                _proposal->ConditionalArgumentSet(2,z);
+                if (!measmodel->SystemWithoutSensorParams())
+                  _proposal->ConditionalArgumentSet(3,s);
+                #endif
+	      }
+
+	      if (_proposal->ProbabilityGet(x_new) != 0)
+		weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,x_old,u) / _proposal->ProbabilityGet(x_new) );
+	      else weightfactor = 0;
 	    }
-	  else // System with sensor Parameters
+	  else // we do have a system without inputs
 	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+	      if (this->_proposal_depends_on_meas){
+                #ifndef STATE_AND_MEAS_VAR_DIFFERENT
+		_proposal->ConditionalArgumentSet(1,z);
+                if (!measmodel->SystemWithoutSensorParams())
+                  _proposal->ConditionalArgumentSet(2,s);
+                #endif
+	      }
+	      if ( _proposal->ProbabilityGet(x_new) != 0)
+		weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,_os_it->ValueGet()) / _proposal->ProbabilityGet(x_new) );
+	      else weightfactor = 0;
 	    }
 	}
       _ns_it->WeightSet(_ns_it->WeightGet() * weightfactor);
-- 
2.43.0


From ce57e0894d6388e7213eb0d4780d9e5bbd1d8457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:31 +0000
Subject: [PATCH 21/41] fix: resetting a particle filter copies the samples of
 the new prior instead of adopting the user's object

---
 orocos_bfl/src/filter/particlefilter.cpp | 13 +++++++++++++
 orocos_bfl/src/filter/particlefilter.h   |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 904f8d3..6cd0938 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -129,6 +129,19 @@ ParticleFilter<SV,MV>::ParticleFilter(const ParticleFilter<SV,MV> & filter)
   this->_post = new MCPdf<SV>(dynamic_cast<MCPdf<SV> *>(filter._post));
 }
 
+template <typename SV, typename MV> void
+ParticleFilter<SV,MV>::Reset(Pdf<SV> * prior)
+{
+  MCPdf<SV> * mcprior = dynamic_cast<MCPdf<SV> *>(prior);
+  assert(mcprior != NULL);
+  this->_prior = prior;
+  // the posterior stays the same object: copy the samples of the prior
+  bool ret = (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesSet(mcprior->ListOfSamplesGet());
+  assert(ret);
+  _old_samples = (mcprior->ListOfSamplesGet());
+  _new_samples = _old_samples;
+}
+
 template <typename SV, typename MV> void
 ParticleFilter<SV,MV>::ProposalSet(ConditionalPdf<SV,SV> * const cpdf)
 {
diff --git a/orocos_bfl/src/filter/particlefilter.h b/orocos_bfl/src/filter/particlefilter.h
index 5ee0ce0..b20bb1c 100644
--- a/orocos_bfl/src/filter/particlefilter.h
+++ b/orocos_bfl/src/filter/particlefilter.h
@@ -310,6 +310,9 @@ namespace BFL
 
       // implement virtual function
       virtual MCPdf<StateVar> * PostGet();
+
+      /// Restart the filter from a new prior (which has to be an MCPdf)
+      virtual void Reset(Pdf<StateVar> * prior);
     };
 
 #include "particlefilter.cpp"
-- 
2.43.0


From beea4d59f09fcd54fb0d7217303f524772029190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:43 +0000
Subject: [PATCH 22/41] fix: a particle filter with a user's proposal does not
 depend on uninitialised memory

---
 orocos_bfl/src/filter/particlefilter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 6cd0938..a24f6a3 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -35,6 +35,7 @@ ParticleFilter<SV,MV>::ParticleFilter(MCPdf<SV> * prior,
   , _proposal(proposal)
   , _sample(WeightedSample<SV>(prior->DimensionGet()))
   , _resampleScheme(resamplescheme)
+  , _proposal_depends_on_meas(false)
   , _created_post(true)
 {
   /* Initialize Post, at time = 0, post = prior
@@ -80,6 +81,7 @@ ParticleFilter<SV,MV>::ParticleFilter(MCPdf<SV> * prior,
   : Filter<SV,MV>(prior),
     _proposal(proposal),
     _resampleScheme(resamplescheme),
+    _proposal_depends_on_meas(false),
     _created_post(false)
 {
   this->_post = post;
-- 
2.43.0


From bc49c625fa2ac20e3a0d1ce269c02abf455827f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:37 +0000
Subject: [PATCH 23/41] fix: the Rauch-Tung-Striebel smoother linearises at the
 filtered estimate

---
 orocos_bfl/src/smoother/rauchtungstriebel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.cpp b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
index 2142169..067984a 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.cpp
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
@@ -52,8 +52,8 @@ namespace BFL
   {
     _x = _post->ExpectedValueGet();
     _xf = filtered_post->ExpectedValueGet();
-    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_x);
-    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_x);
+    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_xf);
+    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_xf);
 
     _Ppred = _F * (Matrix)filtered_post->CovarianceGet() * _F.transpose() + (Matrix)_Q;
     _Pxx = (Matrix)filtered_post->CovarianceGet() * _F.transpose();
-- 
2.43.0


From f90fea50a47e2e1d6481b63d6b87f3e7be5544f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:45 +0000
Subject: [PATCH 24/41] fix: resetting a smoother copies the new prior instead
 of adopting the user's object

---
 orocos_bfl/src/smoother/particlesmoother.cpp  | 7 +++++++
 orocos_bfl/src/smoother/particlesmoother.h    | 3 +++
 orocos_bfl/src/smoother/rauchtungstriebel.cpp | 7 +++++++
 orocos_bfl/src/smoother/rauchtungstriebel.h   | 3 +++
 4 files changed, 20 insertions(+)

diff --git a/orocos_bfl/src/smoother/particlesmoother.cpp b/orocos_bfl/src/smoother/particlesmoother.cpp
index 43d9b43..c8555f1 100644
--- a/orocos_bfl/src/smoother/particlesmoother.cpp
+++ b/orocos_bfl/src/smoother/particlesmoother.cpp
@@ -41,6 +41,13 @@ ParticleSmoother<SV>::~ParticleSmoother()
     delete this->_post;
 }
 
+template <typename SV> void
+ParticleSmoother<SV>::Reset(Pdf<SV> * prior)
+{
+  this->_prior = prior;
+  (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesSet((dynamic_cast<MCPdf<SV> *>(prior))->ListOfSamplesGet());
+}
+
 template <typename SV> bool
 ParticleSmoother<SV>::UpdateInternal(SystemModel<StateVar>* const sysmodel, const StateVar& u,Pdf<StateVar>* const  filtered_post)
 {
diff --git a/orocos_bfl/src/smoother/particlesmoother.h b/orocos_bfl/src/smoother/particlesmoother.h
index 8ca3023..830a70f 100644
--- a/orocos_bfl/src/smoother/particlesmoother.h
+++ b/orocos_bfl/src/smoother/particlesmoother.h
@@ -76,6 +76,9 @@ namespace BFL
       /// Destructor
       virtual ~ParticleSmoother();
 
+      // the posterior belongs to the smoother: the samples of a new prior are copied
+      virtual void Reset(Pdf<StateVar> * prior);
+
     };
 #include "particlesmoother.cpp"
 
diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.cpp b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
index 067984a..1cee70f 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.cpp
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
@@ -47,6 +47,13 @@ namespace BFL
     delete _post;
   }
 
+  void
+  RauchTungStriebel::Reset(Pdf<ColumnVector> * prior)
+  {
+    _prior = prior;
+    *(dynamic_cast<Gaussian *>(_post)) = *(dynamic_cast<Gaussian *>(prior));
+  }
+
   void
   RauchTungStriebel::SysUpdate(SystemModel<ColumnVector>* const sysmodel, const ColumnVector& u,  Pdf<ColumnVector>* const filtered_post)
   {
diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.h b/orocos_bfl/src/smoother/rauchtungstriebel.h
index 52de535..6e5e7a1 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.h
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.h
@@ -51,6 +51,9 @@ public:
   /// Destructor
   virtual ~RauchTungStriebel();
 
+  // the posterior belongs to the smoother: a new prior is copied
+  virtual void Reset(Pdf<MatrixWrapper::ColumnVector> * prior);
+
 protected:
 
   /// Set covariance of posterior estimate
-- 
2.43.0


From 3d677ba1a150f70e8812560a07bddc9a4e9476d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:53 +0000
Subject: [PATCH 25/41] fix: the particle smoother normalises by the prediction
 of each smoothed particle

---
 orocos_bfl/src/smoother/particlesmoother.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/smoother/particlesmoother.cpp b/orocos_bfl/src/smoother/particlesmoother.cpp
index c8555f1..d6c20d9 100644
--- a/orocos_bfl/src/smoother/particlesmoother.cpp
+++ b/orocos_bfl/src/smoother/particlesmoother.cpp
@@ -86,10 +86,10 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
                 prob(i,j) = sysmodel->ProbabilityGet(x_smo,x_fil);
               }
               gamma_loc = gamma_loc + _fs_it->WeightGet() * prob(i,j);
-              // calculate correction factors
-              gamma[j-1] = gamma_loc;
               j++;
              }
+          // calculate correction factors
+          gamma[i-1] = gamma_loc;
       i++;
       }
       //cout << "probabilities " << prob << endl;
@@ -97,7 +97,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
       _new_samples = _filtered_samples;
       // new weights for filtered samples
       i = 1 ;
-      double tot_weight; // sum of weights needed to normalize
+      double tot_weight = 0.0; // sum of weights needed to normalize
       vector<double> weight (_new_samples.size()); // vector of weights of particles
       for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
         {
@@ -106,7 +106,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
           for (_os_it = _old_samples.begin(); _os_it !=_old_samples.end() ; _os_it++)
           {
               if (gamma[j-1]!=0){
-                  delta = delta + _os_it->WeightGet() * prob(i,j) / gamma[j-1];
+                  delta = delta + _os_it->WeightGet() * prob(j,i) / gamma[j-1];
               }
               else{}
               j++;
-- 
2.43.0


From 41944393511eaf14fd3943529f08550733ccdc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:20 +0000
Subject: [PATCH 26/41] fix: a system update of a mixture particle filter is
 one time step, whatever the number of components

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 54e675a..af1b4c8 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -185,6 +185,7 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternal(SystemModel<SV> * const sysmo
     {
         result = result && this->ProposalStepInternalOne(i,sysmodel,u,measmodel,z,s);
     }
+    (this->_timestep)++;
     return result;
 }
 
@@ -237,8 +238,6 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternalOne(int component, SystemModel
       _ns_it++;
     }
 
-  (this->_timestep)++;
-
   // Update the list of samples
   return (dynamic_cast<MCPdf<SV> *>(dynamic_cast<Mixture<SV> *>(this->_post)->ComponentGet(component)))->ListOfSamplesUpdate(_new_samplesVec[component]);
 
-- 
2.43.0


From f90feed8f18f08730971c88f5c63928f5e07c718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:12 +0000
Subject: [PATCH 27/41] fix: weights of a mixture particle filter account for
 the proposal also when the measurement has sensor parameters

---
 .../src/filter/mixtureParticleFilter.cpp      | 56 ++++++++++---------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index af1b4c8..8bea109 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -36,6 +36,7 @@ MixtureParticleFilter<SV,MV>::MixtureParticleFilter(Mixture<SV> * prior,
   , _proposal(proposal)
   , _sample(WeightedSample<SV>(prior->DimensionGet()))
   , _resampleScheme(resamplescheme)
+  , _proposal_depends_on_meas(false)
   , _created_post(true)
   , _newMixtureWeights(prior->NumComponentsGet())
   , _sumWeights(prior->NumComponentsGet())
@@ -307,36 +308,37 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+
+	  if (sysmodel->SystemWithoutInputs() == false)
 	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
-	      if (sysmodel->SystemWithoutInputs() == false)
-		{
-		  _proposal->ConditionalArgumentSet(1,u);
-		  if (this->_proposal_depends_on_meas){
-                    #ifndef STATE_AND_MEAS_VAR_DIFFERENT
-                    _proposal->ConditionalArgumentSet(2,z);
-                    #endif
-		  }
-
-		  if (_proposal->ProbabilityGet(x_new) != 0)
-		    weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,x_old,u) / _proposal->ProbabilityGet(x_new) );
-		  else weightfactor = 0;
-		}
-	      else // we do have a system without inputs
-		{
-		  if (this->_proposal_depends_on_meas){
-                    #ifndef STATE_AND_MEAS_VAR_DIFFERENT
-		    _proposal->ConditionalArgumentSet(1,z);
-                    #endif
-		  }
-		  if ( _proposal->ProbabilityGet(x_new) != 0)
-		    weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,_os_it->ValueGet()) / _proposal->ProbabilityGet(x_new) );
-		  else weightfactor = 0;
-		}
+	      _proposal->ConditionalArgumentSet(1,u);
+	      if (this->_proposal_depends_on_meas){
+                #ifndef STATE_AND_MEAS_VAR_DIFFERENT
+                _proposal->ConditionalArgumentSet(2,z);
+                if (!measmodel->SystemWithoutSensorParams())
+                  _proposal->ConditionalArgumentSet(3,s);
+                #endif
+	      }
+
+	      if (_proposal->ProbabilityGet(x_new) != 0)
+		weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,x_old,u) / _proposal->ProbabilityGet(x_new) );
+	      else weightfactor = 0;
 	    }
-	  else // System with sensor Parameters
+	  else // we do have a system without inputs
 	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+	      if (this->_proposal_depends_on_meas){
+                #ifndef STATE_AND_MEAS_VAR_DIFFERENT
+		_proposal->ConditionalArgumentSet(1,z);
+                if (!measmodel->SystemWithoutSensorParams())
+                  _proposal->ConditionalArgumentSet(2,s);
+                #endif
+	      }
+	      if ( _proposal->ProbabilityGet(x_new) != 0)
+		weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,_os_it->ValueGet()) / _proposal->ProbabilityGet(x_new) );
+	      else weightfactor = 0;
 	    }
 	}
       double new_weight = _ns_it->WeightGet() * weightfactor;
-- 
2.43.0


From f03f4250cd76948bab7c4928e208c954f5b9a09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:09 +0000
Subject: [PATCH 28/41] fix: a mixture component ruled out by a measurement
 does not stop the update of the others

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 8bea109..106c8da 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -348,6 +348,10 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 
       _os_it++;
     }
+  // None of the particles of this component explains the measurement: the
+  // mixture weight of the component becomes 0, its particles stay as they are
+  if ((double)_sumWeights[component] == 0)
+    return true;
   // Update the sample list of post the SumofWeights of the pdf
   // Update the mixture PDfs
   return (dynamic_cast<MCPdf<SV> *>(dynamic_cast<Mixture<SV> *>(this->_post)->ComponentGet(component)))->ListOfSamplesUpdate(_new_samplesVec[component]);
-- 
2.43.0


From cff12b1673dba33653ce58fbeeaa361b8ed9b69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:58 +0000
Subject: [PATCH 29/41] fix: a mixture particle filter can be reset to a prior
 of another size, also through the base class

---
 .../src/filter/mixtureParticleFilter.cpp      | 23 ++++++++++++++++---
 orocos_bfl/src/filter/mixtureParticleFilter.h |  3 +++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 106c8da..03084fb 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -154,11 +154,28 @@ MixtureParticleFilter<SV,MV>::MixtureParticleFilter(const MixtureParticleFilter<
 template <typename SV, typename MV> void
 MixtureParticleFilter<SV,MV>::Reset(Mixture<SV> * prior)
 {
+    Pdf<SV> * old_post = this->_post;
     this->_prior = prior;
-    delete this->_post;
     this->_post = prior->Clone();
-    this->_newMixtureWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
-    this->_sumWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
+    delete old_post;
+    int num_components = dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet();
+    this->_newMixtureWeights.resize(num_components);
+    this->_sumWeights.resize(num_components);
+    _old_samplesVec.resize(num_components);
+    _new_samples_unweightedVec.resize(num_components);
+    for(int i = 0 ; i < num_components; i++)
+    {
+      _old_samplesVec[i] = (dynamic_cast<MCPdf<SV> *>(dynamic_cast<Mixture<SV> *>(this->_post)->ComponentGet(i))->ListOfSamplesGet());
+    }
+    _new_samplesVec = _old_samplesVec;
+}
+
+template <typename SV, typename MV> void
+MixtureParticleFilter<SV,MV>::Reset(Pdf<SV> * prior)
+{
+    Mixture<SV> * mixture = dynamic_cast<Mixture<SV> *>(prior);
+    assert(mixture != NULL);
+    this->Reset(mixture);
 }
 
 template <typename SV, typename MV> void
diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.h b/orocos_bfl/src/filter/mixtureParticleFilter.h
index 011a142..fbea4b8 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.h
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.h
@@ -355,6 +355,9 @@ namespace BFL
       /// Reset Filter
       virtual void Reset(Mixture<StateVar> * prior);
 
+      /// Reset Filter (the prior has to be a mixture of Monte Carlo Pdfs)
+      virtual void Reset(Pdf<StateVar> * prior);
+
       /// Set the proposal density
       /** @param cpdf the new proposal density.  The order of the
 	  conditional arguments is fixed and should be: x (state), u
-- 
2.43.0


From edae8a8b71dd329322f59c8e39cf3141205ae7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:04 +0000
Subject: [PATCH 30/41] fix: a conditional Gaussian whose dimension is set
 after construction can be sampled

---
 orocos_bfl/src/pdf/conditionalgaussian.cpp | 11 +++++++++++
 orocos_bfl/src/pdf/conditionalgaussian.h   |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/orocos_bfl/src/pdf/conditionalgaussian.cpp b/orocos_bfl/src/pdf/conditionalgaussian.cpp
index e1d9631..7c6ec90 100644
--- a/orocos_bfl/src/pdf/conditionalgaussian.cpp
+++ b/orocos_bfl/src/pdf/conditionalgaussian.cpp
@@ -44,6 +44,17 @@ namespace BFL
       return new ConditionalGaussian(*this);
   }
 
+  void
+  ConditionalGaussian::DimensionSet(unsigned int dim)
+  {
+    ConditionalPdf<ColumnVector,ColumnVector>::DimensionSet(dim);
+    _diff.resize(dim);
+    _Mu.resize(dim);
+    _Low_triangle.resize(dim,dim);
+    _samples.resize(dim);
+    _SampleValue.resize(dim);
+  }
+
   Probability
   ConditionalGaussian::ProbabilityGet(const ColumnVector& input) const
   {
diff --git a/orocos_bfl/src/pdf/conditionalgaussian.h b/orocos_bfl/src/pdf/conditionalgaussian.h
index d1d2b52..c761cf1 100644
--- a/orocos_bfl/src/pdf/conditionalgaussian.h
+++ b/orocos_bfl/src/pdf/conditionalgaussian.h
@@ -56,6 +56,9 @@ namespace BFL
       ///Clone function
       virtual ConditionalGaussian* Clone() const;
 
+      // the scratch variables below have to follow the dimension
+      virtual void DimensionSet(unsigned int dim);
+
       // implemented virtuals!
       virtual Probability ProbabilityGet(const MatrixWrapper::ColumnVector& input) const;
       virtual bool SampleFrom (Sample<MatrixWrapper::ColumnVector>& sample, const SampleMthd method=SampleMthd::DEFAULT, void * args=NULL) const;
-- 
2.43.0


From cde562ffb3398c9242aa28a4b47c9ef8b087f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:18 +0000
Subject: [PATCH 31/41] fix: the EKF particle filter weights its particles with
 the samples of the last step, not those of the prior

---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 1 -
 orocos_bfl/src/filter/EKparticlefilter.h   | 1 -
 2 files changed, 2 deletions(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 2b017ec..781121a 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -39,7 +39,6 @@ namespace BFL
 
     _sampleCov.assign(_num_samples,prior->CovarianceGet());
     _tmpCov.assign(_num_samples,prior->CovarianceGet());
-    _old_samples.assign(_num_samples,WeightedSample<ColumnVector>(_dimension));
     _result_samples.assign(_num_samples,WeightedSample<ColumnVector>(_dimension));
     _unif_samples.assign(_num_samples,0.0);
     _CumPDF.assign(_num_samples,0.0);
diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index bf8b364..7487665 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -46,7 +46,6 @@ namespace BFL
       // helper variables for resampleing to prevent memory allocation on the heap
       const int _dimension;
       const int _num_samples;
-      std::vector<WeightedSample<ColumnVector> > _old_samples;
       std::vector<WeightedSample<ColumnVector> >::iterator _oit;
       std::vector<WeightedSample<ColumnVector> > _result_samples;
       std::vector<WeightedSample<ColumnVector> >::iterator _rit;
-- 
2.43.0


From 81961663b20f6d25753fcb99418517a5f76021ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:32 +0000
Subject: [PATCH 32/41] fix: the EKF particle filter weights every particle
 with the covariance its own proposal used

---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 44 ++++++++++++++++++++++
 orocos_bfl/src/filter/EKparticlefilter.h   |  7 ++++
 2 files changed, 51 insertions(+)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 781121a..118efe2 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -121,6 +121,9 @@ namespace BFL
   {
     _old_samples = (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesGet();
 
+    // the covariances the proposal starts from are needed again for the weights
+    _tmpCov = _sampleCov;
+
     _ns_it = _new_samples.begin();
     _cov_it = _sampleCov.begin();
 
@@ -170,4 +173,45 @@ namespace BFL
     return (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesUpdate(_new_samples);
 
   }
+
+  bool
+  EKParticleFilter::UpdateWeightsInternal(SystemModel<CV>* const sysmodel,
+					  const CV& u,
+					  MeasModel<CV,CV>* const measmodel,
+					  const CV& z,
+					  const CV& s)
+  {
+    _new_samples = (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesGet();
+    _os_it = _old_samples.begin();
+    _tmpCovit = _tmpCov.begin();
+
+    for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
+      {
+	const CV& x_new = _ns_it->ValueGet();
+	const CV& x_old = _os_it->ValueGet();
+	Probability weightfactor = 0;
+
+	// the proposal of this particle: inputs, measurement and sensor
+	// parameters are still those of the proposal step
+	dynamic_cast<FilterProposalDensity *>(this->_proposal)->SampleCovSet(*_tmpCovit);
+	_proposal->ConditionalArgumentSet(0,x_old);
+	Probability proposal = _proposal->ProbabilityGet(x_new);
+
+	if (proposal != 0)
+	  {
+	    if (measmodel->SystemWithoutSensorParams())
+	      weightfactor = measmodel->ProbabilityGet(z,x_new);
+	    else
+	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+	    if (sysmodel->SystemWithoutInputs())
+	      weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,x_old) / proposal );
+	    else
+	      weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,x_old,u) / proposal );
+	  }
+	_ns_it->WeightSet(_ns_it->WeightGet() * weightfactor);
+
+	_os_it++; _tmpCovit++;
+      }
+    return (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesUpdate(_new_samples);
+  }
 }
diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index 7487665..3771ff4 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -69,6 +69,13 @@ namespace BFL
 					const ColumnVector & z,
 					const ColumnVector & s);
 
+      /// The weights depend on the sample covariances as well
+      virtual bool UpdateWeightsInternal(SystemModel<ColumnVector> * const sysmodel,
+					 const ColumnVector & u,
+					 MeasurementModel<ColumnVector,ColumnVector> * const measmodel,
+					 const ColumnVector & z,
+					 const ColumnVector & s);
+
       /// Resample also redefined for the same reasons...
       virtual bool Resample();
 
-- 
2.43.0


From b037b8c60003b62e4134f87efad69c42cf399f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:28 +0000
Subject: [PATCH 33/41] fix: resampling in the EKF particle filter gives all
 samples the same weight and never leaves the list

---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 20 +++++++++-----------
 orocos_bfl/src/filter/EKparticlefilter.h   |  1 -
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 118efe2..5726d4f 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -63,10 +63,10 @@ namespace BFL
     dynamic_cast<FilterProposalDensity *>(_proposal)->SystemModelSet(dynamic_cast<AnalyticSystemModelGaussianUncertainty *>(sysmodel));
     dynamic_cast<FilterProposalDensity *>(_proposal)->MeasurementModelSet(dynamic_cast<AnalyticMeasurementModelGaussianUncertainty *>(measmodel));
     // Proposalstep is redefined here...
-    this->StaticResampleStep();
+    result = this->StaticResampleStep() && result;
     result = this->ProposalStepInternal(sysmodel,u,measmodel,z,s) && result;
     result = this->UpdateWeightsInternal(sysmodel,u,measmodel,z,s) && result;
-    this->DynamicResampleStep();
+    result = this->DynamicResampleStep() && result;
 
     return result;
   }
@@ -87,22 +87,20 @@ namespace BFL
     unsigned int index = 0;
     _oit = _old_samples.begin();
     _CumPDF = (dynamic_cast<MCPdf<CV> *>(this->_post))->CumulativePDFGet();
-    _CumPDFit = _CumPDF.begin();
     _rit = _result_samples.begin();
     _cov_it = _sampleCov.begin(); _tmpCovit = _tmpCov.begin();
 
     for ( int i = 0; i < numsamples ; i++)
       {
-	while ( _unif_samples[i] > *_CumPDFit )
+	// sample index covers [_CumPDF[index], _CumPDF[index+1])
+	while ( index+1 < (unsigned int)numsamples && _unif_samples[i] >= _CumPDF[index+1] )
 	  {
-	    assert(index <= (unsigned int)numsamples);
-	    index++; _oit++; _CumPDFit++; _cov_it++;
-
+	    index++; _oit++; _cov_it++;
 	  }
-	_oit--; _cov_it--;
-	*(_rit) = *(_oit);
-    *_tmpCovit = *_cov_it;
-	_oit++; _cov_it++;
+	_rit->ValueSet(_oit->ValueGet());
+	// after resampling, all samples have the same weight
+	_rit->WeightSet(1.0/numsamples);
+	*_tmpCovit = *_cov_it;
 
 	_rit++; _tmpCovit++;
       }
diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index 3771ff4..768a75c 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -51,7 +51,6 @@ namespace BFL
       std::vector<WeightedSample<ColumnVector> >::iterator _rit;
       std::vector<double> _unif_samples;
       std::vector<double> _CumPDF;
-      std::vector<double>::const_iterator _CumPDFit;
       ColumnVector _x_old;
       Sample<ColumnVector> _sample;
 
-- 
2.43.0


From ca7474a40babe2672a5c0ce0aa640a5d931dcae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:58 +0000
Subject: [PATCH 34/41] fix: Reset of the EKF particle filter restores the
 sample covariances and adapts to the number of samples

---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 12 ++++++++++++
 orocos_bfl/src/filter/EKparticlefilter.h   |  5 ++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 5726d4f..50cbe7d 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -50,6 +50,18 @@ namespace BFL
     delete _proposal;
   }
 
+  void
+  EKParticleFilter::Reset(Pdf<CV> * prior)
+  {
+    ParticleFilter<CV,CV>::Reset(prior);
+    _num_samples = (dynamic_cast<MCPdf<CV> *>(prior))->NumSamplesGet();
+    _sampleCov.assign(_num_samples,prior->CovarianceGet());
+    _tmpCov.assign(_num_samples,prior->CovarianceGet());
+    _result_samples.assign(_num_samples,WeightedSample<ColumnVector>(_dimension));
+    _unif_samples.assign(_num_samples,0.0);
+    _CumPDF.assign(_num_samples,0.0);
+  }
+
   // KG: 20040702:  This method will be exactly the same for.  Extra
   // class between?
   bool
diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index 768a75c..88b20f0 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -45,7 +45,7 @@ namespace BFL
 
       // helper variables for resampleing to prevent memory allocation on the heap
       const int _dimension;
-      const int _num_samples;
+      int _num_samples;
       std::vector<WeightedSample<ColumnVector> >::iterator _oit;
       std::vector<WeightedSample<ColumnVector> > _result_samples;
       std::vector<WeightedSample<ColumnVector> >::iterator _rit;
@@ -96,6 +96,9 @@ namespace BFL
 
       /// Destructor
       virtual ~EKParticleFilter();
+
+      /// Restart the filter from a new prior: its covariance is that of every sample again
+      virtual void Reset(Pdf<ColumnVector> * prior);
     };
 
 } // End namespace BFL
-- 
2.43.0


From e158a6afaef92555f6bf24a8bf68da4f05af2a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:28 +0000
Subject: [PATCH 35/41] fix: symbol getters of the GiNaC models ask their pdf,
 not a pdf cast to a model

---
 ...analyticmeasurementmodel_gaussianuncertainty_ginac.cpp | 8 ++++----
 ...inearanalyticsystemmodel_gaussianuncertainty_ginac.cpp | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
index ce0af27..edc6601 100644
--- a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
@@ -81,25 +81,25 @@ namespace BFL
   GiNaC::matrix
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::FunctionGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->FunctionGet();
+    return dynamic_cast<NonLinearAnalyticConditionalGaussian_Ginac *>(MeasurementPdfGet())->FunctionGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::StateGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *)MeasurementPdfGet())->StateGet();
+    return dynamic_cast<NonLinearAnalyticConditionalGaussian_Ginac *>(MeasurementPdfGet())->StateGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::InputGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->InputGet();
+    return dynamic_cast<NonLinearAnalyticConditionalGaussian_Ginac *>(MeasurementPdfGet())->InputGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::ConditionalGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->ConditionalGet();
+    return dynamic_cast<NonLinearAnalyticConditionalGaussian_Ginac *>(MeasurementPdfGet())->ConditionalGet();
   }
 
 } // End namespace BFL
diff --git a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
index bb0500f..a36f402 100644
--- a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
@@ -47,19 +47,19 @@ namespace BFL
   GiNaC::matrix
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::FunctionGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *) SystemPdfGet())->FunctionGet();
+    return dynamic_cast<NonLinearAnalyticConditionalGaussian_Ginac *>(SystemPdfGet())->FunctionGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::StateGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *)SystemPdfGet())->StateGet();
+    return dynamic_cast<NonLinearAnalyticConditionalGaussian_Ginac *>(SystemPdfGet())->StateGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::InputGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *) SystemPdfGet())->InputGet();
+    return dynamic_cast<NonLinearAnalyticConditionalGaussian_Ginac *>(SystemPdfGet())->InputGet();
   }
 
 
-- 
2.43.0


From fe991adfb14766ccfca601e9b78b5e3dd30ed8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:08 +0000
Subject: [PATCH 36/41] fix: copying a GiNaC conditional pdf keeps its
 arguments, and Clone does not slice it

---
 .../nonlinearanalyticconditionalgaussian_ginac.cpp    | 11 +++++++++++
 .../pdf/nonlinearanalyticconditionalgaussian_ginac.h  |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index 4199b91..ed50678 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -99,6 +99,10 @@ namespace BFL
     assert (func_sym.cols() == 1);
     if (cond_size!=0) assert (g.AdditiveNoiseSigmaGet().rows() == cond_size);
 
+    // keep the current arguments
+    for (unsigned int i=0; i < NumConditionalArgumentsGet(); i++)
+      ConditionalArgumentSet(i,g.ConditionalArgumentGet(i));
+
     // derive func to cond
     for (unsigned int i=0; i<cond_size; i++)
       dfunc_dcond[i] = func_sym.diff(cond_sym[i]);
@@ -108,6 +112,13 @@ namespace BFL
       dfunc_dx[i] = func_sym.diff(x_sym[i]);
   }
 
+  // Clone function
+  NonLinearAnalyticConditionalGaussian_Ginac*
+  NonLinearAnalyticConditionalGaussian_Ginac::Clone() const
+  {
+    return new NonLinearAnalyticConditionalGaussian_Ginac(*this);
+  }
+
   // destructor
   NonLinearAnalyticConditionalGaussian_Ginac::~NonLinearAnalyticConditionalGaussian_Ginac()
   {}
diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
index 6c15bc4..3d2021c 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
@@ -79,6 +79,9 @@ namespace BFL
       /// copy constructor
       NonLinearAnalyticConditionalGaussian_Ginac( const NonLinearAnalyticConditionalGaussian_Ginac& g);
 
+      /// Clone function
+      virtual NonLinearAnalyticConditionalGaussian_Ginac* Clone() const;
+
       /// Destructor
       virtual ~NonLinearAnalyticConditionalGaussian_Ginac();
 
-- 
2.43.0


From f71952a9ef97935e83cddb61c682e9af356593bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:18 +0000
Subject: [PATCH 37/41] fix: a GiNaC conditional pdf with noise on some symbols
 has the dimension of its function

---
 .../src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index ed50678..207a4e3 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -48,6 +48,9 @@ namespace BFL
     assert (func_sym.cols() == 1);
     assert (additiveNoise.DimensionGet() == cond_size);
 
+    // the noise applies to cond, the pdf itself is one of the function values
+    DimensionSet(func_size);
+
     // derive func to cond
     for (unsigned int i=0; i < cond_size; i++)
       dfunc_dcond[i] = func_sym.diff(cond_sym[i]);
@@ -98,6 +101,7 @@ namespace BFL
     // test for consistent input
     assert (func_sym.cols() == 1);
     if (cond_size!=0) assert (g.AdditiveNoiseSigmaGet().rows() == cond_size);
+    DimensionSet(func_size);
 
     // keep the current arguments
     for (unsigned int i=0; i < NumConditionalArgumentsGet(); i++)
-- 
2.43.0


From c964389ff801fe31d2b20b9770e835a25c94a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:29 +0000
Subject: [PATCH 38/41] fix: a GiNaC conditional pdf with noise on some symbols
 linearises at the mean of those symbols

---
 ...inearanalyticconditionalgaussian_ginac.cpp | 37 ++++++++++++-------
 ...nlinearanalyticconditionalgaussian_ginac.h |  3 ++
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index 207a4e3..c5524ad 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -138,6 +138,26 @@ namespace BFL
   }
 
 
+  void
+  NonLinearAnalyticConditionalGaussian_Ginac::ArgumentsGet(MatrixWrapper::ColumnVector& u_num,
+							   MatrixWrapper::ColumnVector& x_num) const
+  {
+    u_num = ConditionalArgumentGet(1);
+    x_num = ConditionalArgumentGet(0);
+
+    // use Mu of the noise on cond
+    for (unsigned int j=0; j<cond_size; j++)
+      {
+	for (unsigned int i=0; i<u_size; i++)
+	  if (u_sym[i] == cond_sym[j])
+	    u_num(i+1) += (this->AdditiveNoiseMuGet())(j+1);
+	for (unsigned int i=0; i<x_size; i++)
+	  if (x_sym[i] == cond_sym[j])
+	    x_num(i+1) += (this->AdditiveNoiseMuGet())(j+1);
+      }
+  }
+
+
   MatrixWrapper::ColumnVector
   NonLinearAnalyticConditionalGaussian_Ginac::ExpectedValueGet() const
   {
@@ -147,16 +167,7 @@ namespace BFL
     GiNaC::ex substitute (func_size);
     MatrixWrapper::ColumnVector expected(func_size);
 
-    u_num = ConditionalArgumentGet(1);
-    x_num = ConditionalArgumentGet(0);
-
-    // use Mu of additive noise
-    if (cond_size!=0)
-      for (unsigned int i=0; i<u_size; i++)
-	for (unsigned int j=0; j<cond_size; j++)
-	  if (u_sym[i] == cond_sym[j])
-	      u_num(i+1) += (this->AdditiveNoiseMuGet())(j+1);
-
+    ArgumentsGet(u_num,x_num);
 
     // evaluate func
     for (unsigned int i=0; i<func_size; i++)
@@ -195,8 +206,7 @@ namespace BFL
 	MatrixWrapper::Matrix D             (func_size,cond_size);
 
 
-	u_num = ConditionalArgumentGet(1);
-	x_num = ConditionalArgumentGet(0);
+	ArgumentsGet(u_num,x_num);
 
 	for (unsigned int i=0; i<cond_size; i++)
 	  {
@@ -247,8 +257,7 @@ namespace BFL
     GiNaC::ex substitute (func_size);
     MatrixWrapper::Matrix F             (func_size, x_size);
 
-    u_num = ConditionalArgumentGet(1);
-    x_num = ConditionalArgumentGet(0);
+    ArgumentsGet(u_num,x_num);
 
     // numeric evaluation of derivative: dfunc_dx = F
     for (unsigned int i=0; i<x_size; i++)
diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
index 3d2021c..4552649 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
@@ -113,6 +113,9 @@ namespace BFL
 
 
     private:
+      /// The values of u and x around which the function is linearised
+      void ArgumentsGet(MatrixWrapper::ColumnVector& u_num, MatrixWrapper::ColumnVector& x_num) const;
+
       GiNaC::matrix 		  func_sym;
       vector<GiNaC::symbol> 	  cond_sym, u_sym, x_sym;
       unsigned int			  cond_size, u_size, x_size, func_size;
-- 
2.43.0


From 024ff38b9e10da6fdc641d9f23036420f65d97d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:56 +0000
Subject: [PATCH 39/41] fix: the GiNaC models delete the copy of the pdf they
 make

---
 ...urementmodel_gaussianuncertainty_ginac.cpp | 32 +++++++++++++++----
 ...asurementmodel_gaussianuncertainty_ginac.h |  7 ++++
 ...csystemmodel_gaussianuncertainty_ginac.cpp | 27 +++++++++++++++-
 ...ticsystemmodel_gaussianuncertainty_ginac.h |  7 ++++
 4 files changed, 65 insertions(+), 8 deletions(-)

diff --git a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
index edc6601..44822e3 100644
--- a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
@@ -26,18 +26,36 @@ namespace BFL
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac
   (NonLinearAnalyticConditionalGaussian_Ginac* const pdf)
     : AnalyticMeasurementModelGaussianUncertainty( new NonLinearAnalyticConditionalGaussian_Ginac( *pdf ) )
+    , _own_pdf( dynamic_cast<NonLinearAnalyticConditionalGaussian_Ginac *>(MeasurementPdfGet()) )
   {}
 
-
-  // copy constructor: Not implemented yet
-  /*
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac
   (const NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& m)
-    : AnalyticMeasurementModelGaussianUncertainty( new NonLinearAnalyticConditionalGaussian_Ginac( (NonLinearAnalyticConditionalGaussian_Ginac*) m.MeasurementPdfGet()) )
-  {}
-  */
+    : AnalyticMeasurementModelGaussianUncertainty( m )
+    , _own_pdf( new NonLinearAnalyticConditionalGaussian_Ginac( *m._own_pdf ) )
+  {
+    if (MeasurementPdfGet() == m._own_pdf) MeasurementPdfSet(_own_pdf);
+  }
 
-  NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::~NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac() {}
+  NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac&
+  NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::operator=(const NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& m)
+  {
+    if (this != &m)
+      {
+	NonLinearAnalyticConditionalGaussian_Ginac* pdf = new NonLinearAnalyticConditionalGaussian_Ginac( *m._own_pdf );
+	AnalyticMeasurementModelGaussianUncertainty::operator=(m);
+	if (MeasurementPdfGet() == m._own_pdf) MeasurementPdfSet(pdf);
+	delete _own_pdf;
+	_own_pdf = pdf;
+      }
+    return *this;
+  }
+
+
+  NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::~NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac()
+  {
+    delete _own_pdf;
+  }
 
   /*
   std::ostream& operator<< (std::ostream& os, NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& m)
diff --git a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.h b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.h
index afd6892..e095258 100644
--- a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.h
+++ b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.h
@@ -49,6 +49,10 @@ namespace BFL
       /// copy constructor
       //  NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac(const NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& model);
 
+      /// Copy constructor and assignment: the new model gets a pdf of its own
+      NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac(const NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& m);
+      NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& operator=(const NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& m);
+
       /// Destructor
       virtual ~NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac();
 
@@ -80,6 +84,9 @@ namespace BFL
       /// Get conditional arguments
       vector<GiNaC::symbol> ConditionalGet();
 
+    private:
+      /// The copy of the pdf this model was created with
+      NonLinearAnalyticConditionalGaussian_Ginac* _own_pdf;
     };
 
 } // End namespace BFL
diff --git a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
index a36f402..0a06f4a 100644
--- a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
@@ -29,11 +29,36 @@ namespace BFL
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::NonLinearAnalyticSystemModelGaussianUncertainty_Ginac
   (NonLinearAnalyticConditionalGaussian_Ginac* const pdf)
     : AnalyticSystemModelGaussianUncertainty( new NonLinearAnalyticConditionalGaussian_Ginac( *pdf ) )
+    , _own_pdf( dynamic_cast<NonLinearAnalyticConditionalGaussian_Ginac *>(SystemPdfGet()) )
   {}
 
+  NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::NonLinearAnalyticSystemModelGaussianUncertainty_Ginac
+  (const NonLinearAnalyticSystemModelGaussianUncertainty_Ginac& m)
+    : AnalyticSystemModelGaussianUncertainty( m )
+    , _own_pdf( new NonLinearAnalyticConditionalGaussian_Ginac( *m._own_pdf ) )
+  {
+    if (SystemPdfGet() == m._own_pdf) SystemPdfSet(_own_pdf);
+  }
+
+  NonLinearAnalyticSystemModelGaussianUncertainty_Ginac&
+  NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::operator=(const NonLinearAnalyticSystemModelGaussianUncertainty_Ginac& m)
+  {
+    if (this != &m)
+      {
+	NonLinearAnalyticConditionalGaussian_Ginac* pdf = new NonLinearAnalyticConditionalGaussian_Ginac( *m._own_pdf );
+	AnalyticSystemModelGaussianUncertainty::operator=(m);
+	if (SystemPdfGet() == m._own_pdf) SystemPdfSet(pdf);
+	delete _own_pdf;
+	_own_pdf = pdf;
+      }
+    return *this;
+  }
+
 
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::~NonLinearAnalyticSystemModelGaussianUncertainty_Ginac()
-  {}
+  {
+    delete _own_pdf;
+  }
 
   /*
   std::ostream& operator<< (std::ostream& os, NonLinearAnalyticSystemModelGaussianUncertainty_Ginac& m)
diff --git a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h
index d7939ab..c79629f 100644
--- a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h
+++ b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h
@@ -46,6 +46,10 @@ namespace BFL
        */
       NonLinearAnalyticSystemModelGaussianUncertainty_Ginac(NonLinearAnalyticConditionalGaussian_Ginac* const pdf);
 
+      /// Copy constructor and assignment: the new model gets a pdf of its own
+      NonLinearAnalyticSystemModelGaussianUncertainty_Ginac(const NonLinearAnalyticSystemModelGaussianUncertainty_Ginac& m);
+      NonLinearAnalyticSystemModelGaussianUncertainty_Ginac& operator=(const NonLinearAnalyticSystemModelGaussianUncertainty_Ginac& m);
+
       /// Destructor
       virtual ~NonLinearAnalyticSystemModelGaussianUncertainty_Ginac();
 
@@ -65,6 +69,9 @@ namespace BFL
       /// Get input symbols
       vector<GiNaC::symbol> InputGet();
 
+    private:
+      /// The copy of the pdf this model was created with
+      NonLinearAnalyticConditionalGaussian_Ginac* _own_pdf;
     };
 
 } // End namespace BFL
-- 
2.43.0


From dc8f778d87d887e5f382d1f96f3fe79312c49136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:00 +0000
Subject: [PATCH 40/41] fix: a symmetric matrix can be filled from a row and is
 symmetric

---
 orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp | 4 +++-
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
index b55c94b..23bb25d 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
@@ -336,9 +336,11 @@ MyMatrix MyMatrix::sub(int i_start, int i_end, int j_start , int j_end) const
 MySymmetricMatrix::SymmetricMatrix() : BoostSymmetricMatrix() {}
 MySymmetricMatrix::SymmetricMatrix(int n) : BoostSymmetricMatrix(n) {}
 MySymmetricMatrix::SymmetricMatrix(int num_rows,const RowVector& v):BoostSymmetricMatrix(num_rows,v.size()){
+  // the lower triangle, the rest follows by symmetry
   BoostSymmetricMatrix & m = *this;
   for(unsigned int i=0;i<num_rows;i++)
-    row(m,i).assign(v);
+    for(unsigned int j=0;j<=i;j++)
+      m(i,j) = v(j+1);
 }
 
 MyRowVector MySymmetricMatrix::operator[](unsigned int i) const{
diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index d726d9f..3f5bc66 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -251,10 +251,11 @@ MyMatrix MyMatrix::sub(int i_start, int i_end, int j_start , int j_end) const
 MySymmetricMatrix::SymmetricMatrix() : EigenSymmetricMatrix() {}
 MySymmetricMatrix::SymmetricMatrix(int n) : EigenSymmetricMatrix(n,n) {}
 MySymmetricMatrix::SymmetricMatrix(int num_rows,const RowVector& v):EigenSymmetricMatrix(num_rows,v.columns()){
+  // the lower triangle, the rest follows by symmetry
   EigenSymmetricMatrix & m = *this;
-  const EigenRowVector & r = v;
   for(unsigned int i=0;i<num_rows;i++)
-    m.row(i) = r;
+    for(unsigned int j=0;j<=i;j++)
+      m(i,j) = m(j,i) = v(j+1);
 }
 
 MyRowVector MySymmetricMatrix::operator[](unsigned int i) const{
-- 
2.43.0


From a55302ab03ae1b75ed060e1f3dcc29de6bbb17da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:53 +0000
Subject: [PATCH 41/41] fix: MCPdf<unsigned int>::CovarianceGet overflows for
 deviations of 65536 and more

---
 orocos_bfl/src/pdf/mcpdf.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/pdf/mcpdf.cpp b/orocos_bfl/src/pdf/mcpdf.cpp
index a6e4891..8d1dbe9 100644
--- a/orocos_bfl/src/pdf/mcpdf.cpp
+++ b/orocos_bfl/src/pdf/mcpdf.cpp
@@ -130,16 +130,15 @@ namespace BFL
   SymmetricMatrix MCPdf<unsigned int>::CovarianceGet (  ) const
   {
     unsigned int mean = this->ExpectedValueGet();
-    unsigned int diff;
-    double diffsum, current_weight;
+    double diff, diffsum, current_weight;
     _los = _listOfSamples;
     diffsum = 0.0;
     // Actual calculation
     for (_it_los = _los.begin(); _it_los != _los.end(); _it_los++)
       {
 	current_weight = _it_los->WeightGet();
-	diff = (_it_los->ValueGet() - mean);
-	diffsum += (((double)(diff * diff)) * current_weight);
+	diff = (double)_it_los->ValueGet() - (double)mean;
+	diffsum += ((diff * diff) * current_weight);
       }
 
     // Biased estimator!! (unbiased possible with weighted samples??)
-- 
2.43.0

