From 7ab48905adbaf19e2271a0ccf1cc08932b38005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 01/35] fix: DenseVector::AddTwoVectors added v2 Dim() times
 for a=0, b=1, c=1

---
 src/LinAlg/IpDenseVector.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 5b90313..02fc9f0 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -1028,10 +1028,7 @@ void DenseVector::AddTwoVectorsImpl(
          }
          else if( b == 1. )
          {
-            for( Index i = 0; i < Dim(); i++ )
-            {
-               IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
-            }
+            IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
          }
          else if( b == -1. )
          {
-- 
2.43.0


From cad91a14dd184dd793ed8b356a17c0a6e28e1e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 02/35] fix: DenseVector::ElementWiseSelect must select by sign
 also for homogeneous vectors

---
 src/LinAlg/IpDenseVector.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 02fc9f0..8dfc986 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -405,9 +405,10 @@ void DenseVector::ElementWiseSelectImpl(
       {
          return;
       }
+      const Number sign = scalar_ > 0.0 ? 1.0 : -1.0;
       if( dense_x->homogeneous_ )
       {
-         scalar_ *= dense_x->scalar_;
+         scalar_ = sign * dense_x->scalar_;
       }
       else
       {
@@ -415,7 +416,7 @@ void DenseVector::ElementWiseSelectImpl(
          Number* vals = values_allocated();
          for( Index i = 0; i < Dim(); i++ )
          {
-            vals[i] = scalar_ * values_x[i];
+            vals[i] = sign * values_x[i];
          }
       }
    }
@@ -423,20 +424,17 @@ void DenseVector::ElementWiseSelectImpl(
    {
       if( dense_x->homogeneous_ )
       {
-         if( dense_x->scalar_ != 1.0 )
+         for( Index i = 0; i < Dim(); i++ )
          {
-            for( Index i = 0; i < Dim(); i++ )
+            if( values_[i] > 0.0 )
             {
-               if( values_[i] > 0.0 )
-               {
-                  values_[i] = dense_x->scalar_;
-               }
-               else if( values_[i] < 0.0 )
-               {
-                  values_[i] = -dense_x->scalar_;
-               }
-               // else values_[i] remains at 0.0
+               values_[i] = dense_x->scalar_;
             }
+            else if( values_[i] < 0.0 )
+            {
+               values_[i] = -dense_x->scalar_;
+            }
+            // else values_[i] remains at 0.0
          }
       }
       else
-- 
2.43.0


From 9ef0579fbfeae17f81f09a122465d63f7678f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 03/35] fix: DenseVector::CopyToPos used the wrong value for a
 homogeneous source and lost a homogeneous target

---
 src/LinAlg/IpDenseVector.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 8dfc986..f2aaf69 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -1542,12 +1542,12 @@ void DenseVector::CopyToPos(
    const DenseVector* dense_x = static_cast<const DenseVector*>(&x);
    DBG_ASSERT(dynamic_cast<const DenseVector*>(&x));
 
-   Number* vals = values_allocated();
-   homogeneous_ = false;
+   // this expands the current content if the vector is homogeneous
+   Number* vals = Values();
 
    if( dense_x->homogeneous_ )
    {
-      IpBlasCopy(dim_x, &scalar_, 0, vals + Pos, 1);
+      IpBlasCopy(dim_x, &dense_x->scalar_, 0, vals + Pos, 1);
    }
    else
    {
-- 
2.43.0


From 771de57232e813ea862a2ed1b583143caa89fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 04/35] fix: MonotoneMuUpdate must reset the line search if mu
 was changed in an earlier pass of the same update

---
 src/Algorithm/IpMonotoneMuUpdate.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpMonotoneMuUpdate.cpp b/src/Algorithm/IpMonotoneMuUpdate.cpp
index a9fad93..315c4bb 100644
--- a/src/Algorithm/IpMonotoneMuUpdate.cpp
+++ b/src/Algorithm/IpMonotoneMuUpdate.cpp
@@ -139,6 +139,7 @@ bool MonotoneMuUpdate::UpdateBarrierParameter()
    Number kappa_eps_mu = barrier_tol_factor_ * mu;
 
    bool done = false;
+   bool mu_changed_any = false; // whether mu has been changed in any pass of the following loop
    bool tiny_step_flag = IpData().tiny_step_flag();
    IpData().Set_tiny_step_flag(false);
    while( (sub_problem_error <= kappa_eps_mu || tiny_step_flag) && !done && !first_iter_resto_ )
@@ -165,6 +166,7 @@ bool MonotoneMuUpdate::UpdateBarrierParameter()
       IpData().Set_tau(new_tau);
       mu = new_mu;
       tau = new_tau;
+      mu_changed_any = mu_changed_any || mu_changed;
 
       // If this is the first iteration or if
       // mu_allow_fast_monotone_decrease_ is true, we want to check if
@@ -185,7 +187,7 @@ bool MonotoneMuUpdate::UpdateBarrierParameter()
       }
 
       // Reset the line search
-      if( done && mu_changed )
+      if( done && mu_changed_any )
       {
          linesearch_->Reset();
       }
-- 
2.43.0


From b5917551872c672a193ea8b3266b285201ed15fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:31 +0000
Subject: [PATCH 05/35] fix: count filter resets so that max_filter_resets is
 respected

---
 src/Algorithm/IpFilterLSAcceptor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Algorithm/IpFilterLSAcceptor.cpp b/src/Algorithm/IpFilterLSAcceptor.cpp
index bd381a2..f17df92 100644
--- a/src/Algorithm/IpFilterLSAcceptor.cpp
+++ b/src/Algorithm/IpFilterLSAcceptor.cpp
@@ -412,6 +412,7 @@ FilterLSAcceptor::CheckAcceptabilityOfTrialPoint(
                Jnlst().Printf(J_DETAILED, J_LINE_SEARCH,
                               "Resetting filter because in %" IPOPT_INDEX_FORMAT " iterations last rejection was due to filter", count_successive_filter_rejections_);
                IpData().Append_info_string("F+");
+               n_filter_resets_++;
                Reset();
             }
          }
-- 
2.43.0


From 5ac109a6842de26d0c978a51f05146971e4693d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 06/35] fix: SymTMatrix::ComputeRowAMax keeps the given norms
 if not asked to initialize

---
 src/LinAlg/TMatrices/IpSymTMatrix.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/TMatrices/IpSymTMatrix.cpp b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
index e85681f..d510e5d 100644
--- a/src/LinAlg/TMatrices/IpSymTMatrix.cpp
+++ b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
@@ -163,7 +163,7 @@ bool SymTMatrix::HasValidNumbersImpl() const
 
 void SymTMatrix::ComputeRowAMaxImpl(
    Vector& rows_norms,
-   bool    /*init*/
+   bool    init
 ) const
 {
    DBG_ASSERT(initialized_);
@@ -182,8 +182,11 @@ void SymTMatrix::ComputeRowAMaxImpl(
    Number* vec_vals = dense_vec->Values();
    DBG_ASSERT(vec_vals != NULL);
 
-   const Number zero = 0.;
-   IpBlasCopy(NRows(), &zero, 0, vec_vals, 1);
+   if( init )
+   {
+      const Number zero = 0.;
+      IpBlasCopy(NRows(), &zero, 0, vec_vals, 1);
+   }
 
    vec_vals--; // to deal with 1-based indexing in irn and jcn (I believe)
    for( Index i = 0; i < Nonzeros(); i++ )
-- 
2.43.0


From ccfbf03b3a880de14d6dddd31cc733b1828af252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 07/35] fix: row norms of CompoundSymMatrix use the transpose
 of blocks above the diagonal

---
 src/LinAlg/IpCompoundSymMatrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundSymMatrix.cpp b/src/LinAlg/IpCompoundSymMatrix.cpp
index 0c190a4..c558649 100644
--- a/src/LinAlg/IpCompoundSymMatrix.cpp
+++ b/src/LinAlg/IpCompoundSymMatrix.cpp
@@ -231,7 +231,8 @@ void CompoundSymMatrix::ComputeRowAMaxImpl(
          }
          else if( jcol > irow && ConstComp(jcol, irow) )
          {
-            ConstComp(jcol, irow)->ComputeRowAMax(*vec_i, false);
+            // block (irow, jcol) is the transpose of the stored block (jcol, irow)
+            ConstComp(jcol, irow)->ComputeColAMax(*vec_i, false);
          }
       }
    }
-- 
2.43.0


From 500a074b7dc26a413c863a46d96d9cb4f3757751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 08/35] fix: column norms of CompoundMatrix go into the
 component of the column

---
 src/LinAlg/IpCompoundMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundMatrix.cpp b/src/LinAlg/IpCompoundMatrix.cpp
index c994c78..8519ccf 100644
--- a/src/LinAlg/IpCompoundMatrix.cpp
+++ b/src/LinAlg/IpCompoundMatrix.cpp
@@ -702,7 +702,7 @@ void CompoundMatrix::ComputeColAMaxImpl(
             SmartPtr<Vector> vec_i;
             if( comp_vec )
             {
-               vec_i = comp_vec->GetCompNonConst(irow);
+               vec_i = comp_vec->GetCompNonConst(jcol);
             }
             else
             {
-- 
2.43.0


From 1bd5bf082e63e0809b206265253febb9d96376f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 09/35] fix: a CompoundMatrix with more block columns than
 block rows is not diagonal

---
 src/LinAlg/IpCompoundMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundMatrix.cpp b/src/LinAlg/IpCompoundMatrix.cpp
index 8519ccf..79d7bae 100644
--- a/src/LinAlg/IpCompoundMatrix.cpp
+++ b/src/LinAlg/IpCompoundMatrix.cpp
@@ -859,7 +859,7 @@ void CompoundMatrixSpace::SetCompSpace(
    comp_spaces_[irow][jcol] = &mat_space;
    allocate_block_[irow][jcol] = auto_allocate;
 
-   diagonal_ = true;
+   diagonal_ = (NComps_Rows() == NComps_Cols());
    for( Index i = 0; i < NComps_Rows(); i++ )
    {
       for( Index j = 0; j < NComps_Cols(); j++ )
-- 
2.43.0


From 5e4929054af4d82c7e138e4c0f57bd54dfddf42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 10/35] fix: row and column norms of DenseGenMatrix

---
 src/LinAlg/IpDenseGenMatrix.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index 481f65b..a34240e 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -384,9 +384,10 @@ void DenseGenMatrix::ComputeRowAMaxImpl(
    Number* vec_vals = dense_vec->Values();
 
    const Number* vals = values_;
-   for( Index irow = 0; irow < NRows(); irow++ )
+   // values_ is stored by columns
+   for( Index jcol = 0; jcol < NCols(); jcol++ )
    {
-      for( Index jcol = 0; jcol < NCols(); jcol++ )
+      for( Index irow = 0; irow < NRows(); irow++ )
       {
          vec_vals[irow] = Max(vec_vals[irow], std::abs(*vals));
          vals++;
@@ -406,10 +407,15 @@ void DenseGenMatrix::ComputeColAMaxImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&cols_norms));
    Number* vec_vals = dense_vec->Values();
 
+   if( NRows() == 0 )
+   {
+      return;
+   }
+
    const Number* vals = values_;
    for( Index jcol = 0; jcol < NCols(); jcol++ )
    {
-      Index i = IpBlasIamax(NRows(), vals, 1);
+      Index i = IpBlasIamax(NRows(), vals, 1) - 1;  // IpBlasIamax counts from 1
       vec_vals[jcol] = Max(vec_vals[jcol], std::abs(vals[i]));
       vals += NRows();
    }
-- 
2.43.0


From 826326737687f6d7518474f6b6f068d466a29036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 11/35] fix: row norms of DenseSymMatrix

---
 src/LinAlg/IpDenseSymMatrix.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index 0761d78..1071625 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -241,15 +241,14 @@ void DenseSymMatrix::ComputeRowAMaxImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&rows_norms));
    Number* vec_vals = dense_vec->Values();
 
-   const Number* vals = values_;
+   // the lower triangular part is stored in the columns of a square array
    for( Index irow = 0; irow < NRows(); irow++ )
    {
       for( Index jcol = 0; jcol <= irow; jcol++ )
       {
-         const Number f = std::abs(*vals);
+         const Number f = std::abs(values_[irow + jcol * NRows()]);
          vec_vals[irow] = Max(vec_vals[irow], f);
          vec_vals[jcol] = Max(vec_vals[jcol], f);
-         vals++;
       }
    }
 }
-- 
2.43.0


From ccf4c2c397652cea994830815ca9a320c1e3f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 12/35] fix: row norms and AddMSinvZ of IdentityMatrix use the
 factor

---
 src/LinAlg/IpIdentityMatrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpIdentityMatrix.cpp b/src/LinAlg/IpIdentityMatrix.cpp
index 10ff48e..d529b30 100644
--- a/src/LinAlg/IpIdentityMatrix.cpp
+++ b/src/LinAlg/IpIdentityMatrix.cpp
@@ -6,6 +6,8 @@
 
 #include "IpIdentityMatrix.hpp"
 
+#include <cmath>
+
 namespace Ipopt
 {
 
@@ -52,12 +54,12 @@ void IdentityMatrix::ComputeRowAMaxImpl(
 {
    if( init )
    {
-      rows_norms.Set(1.);
+      rows_norms.Set(std::abs(factor_));
    }
    else
    {
       SmartPtr<Vector> v = rows_norms.MakeNew();
-      v->Set(1.);
+      v->Set(std::abs(factor_));
       rows_norms.ElementWiseMax(*v);
    }
 }
@@ -91,7 +93,7 @@ void IdentityMatrix::AddMSinvZImpl(
    DBG_ASSERT(NCols() == Z.Dim());
    DBG_ASSERT(NCols() == X.Dim());
 
-   X.AddVectorQuotient(alpha, Z, S, 1.);
+   X.AddVectorQuotient(alpha * factor_, Z, S, 1.);
 }
 
 } // namespace Ipopt
-- 
2.43.0


From 8a2617a6739f18a95bc859fb35239ecb2392c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 13/35] fix: products of dense matrices with homogeneous
 vectors

---
 src/LinAlg/IpDenseGenMatrix.cpp | 6 +++---
 src/LinAlg/IpDenseSymMatrix.cpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index a34240e..81f60e3 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -43,7 +43,7 @@ void DenseGenMatrix::ScaleColumns(
    DBG_ASSERT(scal_vec.Dim() == NCols());
    DBG_ASSERT(initialized_);
 
-   const Number* scal_values = scal_vec.Values();
+   const Number* scal_values = scal_vec.ExpandedValues();
 
    for( Index j = 0; j < NCols(); j++ )
    {
@@ -346,7 +346,7 @@ void DenseGenMatrix::MultVectorImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
    bool trans = false;
-   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseGenMatrix::TransMultVectorImpl(
@@ -368,7 +368,7 @@ void DenseGenMatrix::TransMultVectorImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
    bool trans = true;
-   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseGenMatrix::ComputeRowAMaxImpl(
diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index 1071625..750cacb 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -51,7 +51,7 @@ void DenseSymMatrix::MultVectorImpl(
    DenseVector* dense_y = static_cast<DenseVector*>(&y);
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
-   IpBlasSymv(Dim(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasSymv(Dim(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseSymMatrix::FillIdentity(
-- 
2.43.0


From 659cad98cc80a8ccd374e752061e5175daa1c67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 14/35] fix: SetTerm of sum matrices marks the object as
 changed

---
 src/LinAlg/IpSumMatrix.cpp    | 1 +
 src/LinAlg/IpSumSymMatrix.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/LinAlg/IpSumMatrix.cpp b/src/LinAlg/IpSumMatrix.cpp
index c50746f..5566537 100644
--- a/src/LinAlg/IpSumMatrix.cpp
+++ b/src/LinAlg/IpSumMatrix.cpp
@@ -33,6 +33,7 @@ void SumMatrix::SetTerm(
    DBG_ASSERT(iterm < owner_space_->NTerms());
    factors_[iterm] = factor;
    matrices_[iterm] = &matrix;
+   ObjectChanged();
 }
 
 void SumMatrix::GetTerm(
diff --git a/src/LinAlg/IpSumSymMatrix.cpp b/src/LinAlg/IpSumSymMatrix.cpp
index dfb2fe6..59bc967 100644
--- a/src/LinAlg/IpSumSymMatrix.cpp
+++ b/src/LinAlg/IpSumSymMatrix.cpp
@@ -33,6 +33,7 @@ void SumSymMatrix::SetTerm(
    DBG_ASSERT(iterm < owner_space_->NTerms());
    factors_[iterm] = factor;
    matrices_[iterm] = &matrix;
+   ObjectChanged();
 }
 
 void SumSymMatrix::GetTerm(
-- 
2.43.0


From f95c8c60e3dd57bc5d1830fe9b843fbbcfac1c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 15/35] fix: IpBlasGemv swapped the number of rows and columns

---
 src/LinAlg/IpBlas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpBlas.cpp b/src/LinAlg/IpBlas.cpp
index 735e5e2..82d0c2b 100644
--- a/src/LinAlg/IpBlas.cpp
+++ b/src/LinAlg/IpBlas.cpp
@@ -322,7 +322,7 @@ void IpBlasGemv(
    Index         incY
 )
 {
-   ipindex M = nCols, N = nRows, LDA = ldA, INCX = incX, INCY = incY;
+   ipindex M = nRows, N = nCols, LDA = ldA, INCX = incX, INCY = incY;
 
    char TRANS;
    if( trans )
-- 
2.43.0


From fdcdaefe6e6caa29dba73324a27f653fa1edffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:11 +0000
Subject: [PATCH 16/35] fix: carry over cached maximum, minimum and sum of
 logarithms in Vector::Scal only if they scale

---
 src/LinAlg/IpVector.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpVector.cpp b/src/LinAlg/IpVector.cpp
index 6bf334b..94a5bf2 100644
--- a/src/LinAlg/IpVector.cpp
+++ b/src/LinAlg/IpVector.cpp
@@ -167,7 +167,8 @@ void Vector::Scal(
          amax_cache_tag_ = GetTag();
          cached_amax_ *= std::abs(alpha);
       }
-      if( old_tag == max_cache_tag_ )
+      // the maximum and minimum of an empty vector do not scale
+      if( old_tag == max_cache_tag_ && Dim() > 0 )
       {
          if( alpha >= 0. )
          {
@@ -180,7 +181,7 @@ void Vector::Scal(
             cached_min_ = cached_max_ * alpha;
          }
       }
-      if( old_tag == min_cache_tag_ )
+      if( old_tag == min_cache_tag_ && Dim() > 0 )
       {
          if( alpha >= 0. )
          {
@@ -198,7 +199,8 @@ void Vector::Scal(
          sum_cache_tag_ = GetTag();
          cached_sum_ *= alpha;
       }
-      if( old_tag == sumlogs_cache_tag_ )
+      // for alpha <= 0, the logarithms need to be computed anew
+      if( old_tag == sumlogs_cache_tag_ && (alpha > 0. || Dim() == 0) )
       {
          sumlogs_cache_tag_ = GetTag();
          if( Dim() > 0 )
-- 
2.43.0


From 52e4047322bf08626e1df8d9f625fb86a030d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:11 +0000
Subject: [PATCH 17/35] fix: initialize the tag of the cached validity of a
 Vector

---
 src/LinAlg/IpVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/IpVector.hpp b/src/LinAlg/IpVector.hpp
index 67aab42..0c74120 100644
--- a/src/LinAlg/IpVector.hpp
+++ b/src/LinAlg/IpVector.hpp
@@ -542,6 +542,7 @@ inline Vector::Vector(
      min_cache_tag_(0),
      sum_cache_tag_(0),
      sumlogs_cache_tag_(0),
+     valid_cache_tag_(0),
      cached_valid_(0)
 {
    DBG_ASSERT(IsValid(owner_space_));
-- 
2.43.0


From 5986c791124e06ac03f74ae97a2d8e2753b6b2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:11 +0000
Subject: [PATCH 18/35] fix: setting the entries of DiagMatrix and
 IdentityMatrix marks them as changed

---
 src/LinAlg/IpDiagMatrix.hpp     | 1 +
 src/LinAlg/IpIdentityMatrix.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/LinAlg/IpDiagMatrix.hpp b/src/LinAlg/IpDiagMatrix.hpp
index f12f84f..e484370 100644
--- a/src/LinAlg/IpDiagMatrix.hpp
+++ b/src/LinAlg/IpDiagMatrix.hpp
@@ -38,6 +38,7 @@ public:
    )
    {
       diag_ = &diag;
+      ObjectChanged();
    }
 
    /** Get the diagonal elements. */
diff --git a/src/LinAlg/IpIdentityMatrix.hpp b/src/LinAlg/IpIdentityMatrix.hpp
index 6f0e429..426aa26 100644
--- a/src/LinAlg/IpIdentityMatrix.hpp
+++ b/src/LinAlg/IpIdentityMatrix.hpp
@@ -36,6 +36,7 @@ public:
    )
    {
       factor_ = factor;
+      ObjectChanged();
    }
 
    /** Method for getting the factor for the identity matrix. */
-- 
2.43.0


From db9d0f01a685c6d68c63d056c4988c918105098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 19/35] fix: Nrm2, Asum and Sum of an empty DenseVector are
 zero also if the value stored for it is not finite

---
 src/LinAlg/IpDenseVector.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index f2aaf69..e8e29bf 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -221,6 +221,11 @@ Number DenseVector::DotImpl(
 Number DenseVector::Nrm2Impl() const
 {
    DBG_ASSERT(initialized_);
+   if( Dim() == 0 )
+   {
+      return 0.;
+   }
+
    if( homogeneous_ )
    {
       return std::sqrt((Number) Dim()) * std::abs(scalar_);
@@ -234,6 +239,11 @@ Number DenseVector::Nrm2Impl() const
 Number DenseVector::AsumImpl() const
 {
    DBG_ASSERT(initialized_);
+   if( Dim() == 0 )
+   {
+      return 0.;
+   }
+
    if( homogeneous_ )
    {
       return Dim() * std::abs(scalar_);
@@ -679,6 +689,11 @@ Number DenseVector::MinImpl() const
 Number DenseVector::SumImpl() const
 {
    DBG_ASSERT(initialized_);
+   if( Dim() == 0 )
+   {
+      return 0.;
+   }
+
    Number sum;
    if( homogeneous_ )
    {
-- 
2.43.0


From dff0a5de192969d736ccf50983dc3d143e8bf73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 20/35] fix: quantities with the gradient of the objective
 depend on mu if the objective does

The caches of the gradient of the Lagrangian, the dual infeasibility, the NLP error and the primal-dual system error
did not regard the barrier parameter, though the objective of the restoration phase depends on it, so that values for an
old barrier parameter were returned after it changed.
---
 src/Algorithm/IpIpoptCalculatedQuantities.cpp | 52 +++++++++++++------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/Algorithm/IpIpoptCalculatedQuantities.cpp b/src/Algorithm/IpIpoptCalculatedQuantities.cpp
index df366ea..d08ceec 100644
--- a/src/Algorithm/IpIpoptCalculatedQuantities.cpp
+++ b/src/Algorithm/IpIpoptCalculatedQuantities.cpp
@@ -2008,10 +2008,13 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::curr_grad_lag_x()
    deps[2] = GetRawPtr(y_d);
    deps[3] = GetRawPtr(z_L);
    deps[4] = GetRawPtr(z_U);
+   // the gradient of the objective may depend on the barrier parameter
+   std::vector<Number> sdeps(1);
+   sdeps[0] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
-   if( !curr_grad_lag_x_cache_.GetCachedResult(result, deps) )
+   if( !curr_grad_lag_x_cache_.GetCachedResult(result, deps, sdeps) )
    {
-      if( !trial_grad_lag_x_cache_.GetCachedResult(result, deps) )
+      if( !trial_grad_lag_x_cache_.GetCachedResult(result, deps, sdeps) )
       {
          SmartPtr<Vector> tmp = x->MakeNew();
          DBG_PRINT_VECTOR(2, "curr_grad_f", *curr_grad_f());
@@ -2023,7 +2026,7 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::curr_grad_lag_x()
          ip_nlp_->Px_U()->MultVector(1., *z_U, 1., *tmp);
          result = ConstPtr(tmp);
       }
-      curr_grad_lag_x_cache_.AddCachedResult(result, deps);
+      curr_grad_lag_x_cache_.AddCachedResult(result, deps, sdeps);
    }
 
    return result;
@@ -2047,10 +2050,13 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::trial_grad_lag_x()
    deps[2] = GetRawPtr(y_d);
    deps[3] = GetRawPtr(z_L);
    deps[4] = GetRawPtr(z_U);
+   // the gradient of the objective may depend on the barrier parameter
+   std::vector<Number> sdeps(1);
+   sdeps[0] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
-   if( !trial_grad_lag_x_cache_.GetCachedResult(result, deps) )
+   if( !trial_grad_lag_x_cache_.GetCachedResult(result, deps, sdeps) )
    {
-      if( !curr_grad_lag_x_cache_.GetCachedResult(result, deps) )
+      if( !curr_grad_lag_x_cache_.GetCachedResult(result, deps, sdeps) )
       {
          SmartPtr<Vector> tmp = x->MakeNew();
          DBG_PRINT_VECTOR(2, "trial_grad_f", *trial_grad_f());
@@ -2060,7 +2066,7 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::trial_grad_lag_x()
          ip_nlp_->Px_U()->MultVector(1., *z_U, 1., *tmp);
          result = ConstPtr(tmp);
       }
-      trial_grad_lag_x_cache_.AddCachedResult(result, deps);
+      trial_grad_lag_x_cache_.AddCachedResult(result, deps, sdeps);
    }
 
    return result;
@@ -2676,8 +2682,10 @@ Number IpoptCalculatedQuantities::curr_dual_infeasibility(
    deps[5] = GetRawPtr(z_U);
    deps[6] = GetRawPtr(v_L);
    deps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = (Number) NormType;
+   // the gradient of the objective may depend on the barrier parameter
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !curr_dual_infeasibility_cache_.GetCachedResult(result, deps, sdeps) )
    {
@@ -2722,8 +2730,10 @@ Number IpoptCalculatedQuantities::trial_dual_infeasibility(
    deps[5] = GetRawPtr(z_U);
    deps[6] = GetRawPtr(v_L);
    deps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = (Number) NormType;
+   // the gradient of the objective may depend on the barrier parameter
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !trial_dual_infeasibility_cache_.GetCachedResult(result, deps, sdeps) )
    {
@@ -2769,8 +2779,10 @@ Number IpoptCalculatedQuantities::unscaled_curr_dual_infeasibility(
    deps[5] = GetRawPtr(z_U);
    deps[6] = GetRawPtr(v_L);
    deps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = (Number) NormType;
+   // the gradient of the objective may depend on the barrier parameter
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !unscaled_curr_dual_infeasibility_cache_.GetCachedResult(result, deps, sdeps) )
    {
@@ -3072,8 +3084,11 @@ Number IpoptCalculatedQuantities::curr_nlp_error()
    tdeps[5] = GetRawPtr(z_U);
    tdeps[6] = GetRawPtr(v_L);
    tdeps[7] = GetRawPtr(v_U);
+   // the gradient of the objective may depend on the barrier parameter
+   std::vector<Number> sdeps(1);
+   sdeps[0] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
-   if( !curr_nlp_error_cache_.GetCachedResult(result, tdeps) )
+   if( !curr_nlp_error_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
       Number s_d = 0;
       Number s_c = 0;
@@ -3097,7 +3112,7 @@ Number IpoptCalculatedQuantities::curr_nlp_error()
                  curr_complementarity(mu_target_, NORM_MAX)));
       result = Max(result, curr_complementarity(mu_target_, NORM_MAX) / s_c);
 
-      curr_nlp_error_cache_.AddCachedResult(result, tdeps);
+      curr_nlp_error_cache_.AddCachedResult(result, tdeps, sdeps);
    }
 
    return result;
@@ -3128,8 +3143,11 @@ Number IpoptCalculatedQuantities::unscaled_curr_nlp_error()
    tdeps[5] = GetRawPtr(z_U);
    tdeps[6] = GetRawPtr(v_L);
    tdeps[7] = GetRawPtr(v_U);
+   // the gradient of the objective may depend on the barrier parameter
+   std::vector<Number> sdeps(1);
+   sdeps[0] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
-   if( !unscaled_curr_nlp_error_cache_.GetCachedResult(result, tdeps) )
+   if( !unscaled_curr_nlp_error_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
 
       // Dual infeasibility
@@ -3139,7 +3157,7 @@ Number IpoptCalculatedQuantities::unscaled_curr_nlp_error()
       // Complementarity
       result = Max(result, unscaled_curr_complementarity(mu_target_, NORM_MAX));
 
-      unscaled_curr_nlp_error_cache_.AddCachedResult(result, tdeps);
+      unscaled_curr_nlp_error_cache_.AddCachedResult(result, tdeps, sdeps);
    }
 
    return result;
@@ -3222,8 +3240,10 @@ Number IpoptCalculatedQuantities::curr_primal_dual_system_error(
    tdeps[5] = GetRawPtr(z_U);
    tdeps[6] = GetRawPtr(v_L);
    tdeps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = mu;
+   // the gradient of the objective may depend on the barrier parameter
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !curr_primal_dual_system_error_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
@@ -3282,8 +3302,10 @@ Number IpoptCalculatedQuantities::trial_primal_dual_system_error(
    tdeps[5] = GetRawPtr(z_U);
    tdeps[6] = GetRawPtr(v_L);
    tdeps[7] = GetRawPtr(v_U);
-   std::vector<Number> sdeps(1);
+   std::vector<Number> sdeps(2);
    sdeps[0] = mu;
+   // the gradient of the objective may depend on the barrier parameter
+   sdeps[1] = ip_nlp_->objective_depends_on_mu() ? ip_data_->curr_mu() : -1.;
 
    if( !trial_primal_dual_system_error_cache_.GetCachedResult(result, tdeps, sdeps) )
    {
-- 
2.43.0


From 38ee59acb96d5c03292f063592f3e5b83ff37ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:09 +0000
Subject: [PATCH 21/35] fix: empty rows in the middle of a matrix lost entries
 in TripletToCSRConverter

---
 src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
index 4ab2bc5..9df49cc 100644
--- a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
+++ b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
@@ -184,9 +184,9 @@ Index TripletToCSRConverter::InitializeConverter(
          nonzeros_compressed_++;
          ja_tmp[nonzeros_compressed_] = jcol;
          ipos_first_tmp[nonzeros_compressed_] = list_iterator->PosTriplet();
-         if( cur_row != irow )
+         while( cur_row != irow )
          {
-            // this is in a new row
+            // this is in a new row, there may be empty rows before it
 
             ia_[cur_row] = nonzeros_compressed_;
             cur_row++;
-- 
2.43.0


From 1a2a4f05fe3e72e58a3562e00787ff9969eaef35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:16 +0000
Subject: [PATCH 22/35] fix: swap of two SmartPtrs did not compile

---
 src/Common/IpSmartPtr.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Common/IpSmartPtr.hpp b/src/Common/IpSmartPtr.hpp
index d9da52a..c531c81 100644
--- a/src/Common/IpSmartPtr.hpp
+++ b/src/Common/IpSmartPtr.hpp
@@ -8,6 +8,7 @@
 #define __IPSMARTPTR_HPP__
 
 #include "IpReferenced.hpp"
+#include <utility>
 
 #include "IpDebug.hpp"
 #if IPOPT_CHECKLEVEL > 2
@@ -299,6 +300,14 @@ public:
       const SmartPtr<U>& lhs,
       const SmartPtr<U>& rhs
    );
+
+   /** Exchanges the objects that two SmartPtrs point to. */
+   template<class U>
+   friend
+   void swap(
+      SmartPtr<U>& a,
+      SmartPtr<U>& b
+   );
    ///@}
 
    /**@name friend method declarations */
@@ -820,7 +829,7 @@ void swap(
    a = b;
    b = tmp;
 #else
-   std::swap(a.prt_, b.ptr_);
+   std::swap(a.ptr_, b.ptr_);
 #endif
 }
 
-- 
2.43.0


From 3ab48db11d664433aff6b80034a308ad7bceb6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:31 +0000
Subject: [PATCH 23/35] fix: StreamJournal wrote messages of 32768 or more
 characters beyond its buffer

---
 src/Common/IpJournalist.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/Common/IpJournalist.cpp b/src/Common/IpJournalist.cpp
index eab931a..d5a4547 100644
--- a/src/Common/IpJournalist.cpp
+++ b/src/Common/IpJournalist.cpp
@@ -10,6 +10,7 @@
 
 #include <cstdio>
 #include <cstring>
+#include <vector>
 
 namespace Ipopt
 {
@@ -509,8 +510,26 @@ void StreamJournal::PrintfImpl(
    DBG_START_METH("StreamJournal::PrintfImpl", 0);
    if( os_ )
    {
-      vsprintf(buffer_, pformat, ap);
+#ifdef IPOPT_HAS_VA_COPY
+      va_list apcopy;
+      va_copy(apcopy, ap);
+      int len = vsnprintf(buffer_, sizeof(buffer_), pformat, ap);
+      if( len < (int) sizeof(buffer_) )
+      {
+         *os_ << buffer_;
+      }
+      else
+      {
+         // message does not fit into buffer_
+         std::vector<char> longbuffer(len + 1);
+         vsnprintf(&longbuffer[0], longbuffer.size(), pformat, apcopy);
+         *os_ << &longbuffer[0];
+      }
+      va_end(apcopy);
+#else
+      vsnprintf(buffer_, sizeof(buffer_), pformat, ap);
       *os_ << buffer_;
+#endif
       DBG_EXEC(0, *os_ << std::flush);
    }
 }
-- 
2.43.0


From b1f655743f44a786dc8cf72ab9c16ca49dbb62cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 24/35] fix: numeric options were stored with 6 digits only

---
 src/Common/IpOptionsList.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 7aafa04..7e4f471 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -117,6 +117,11 @@ bool OptionsList::SetNumericValue(
 {
    char buffer[256];
    Snprintf(buffer, 255, "%g", value);
+   if( strtod(buffer, NULL) != value )
+   {
+      // 6 digits are not sufficient to recover the value
+      Snprintf(buffer, 255, "%.17g", value);
+   }
 
    if( IsValid(reg_options_) )
    {
-- 
2.43.0


From 1df9c30d11d46d87475e0ed6dabe7da932b97b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 25/35] fix: integer options out of the range of Index were
 silently wrapped around

---
 src/Common/IpOptionsList.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 7e4f471..5f64553 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -621,8 +621,8 @@ bool OptionsList::GetIntegerValue(
    if( find_tag(tag, prefix, strvalue) )
    {
       char* p_end;
-      size_t retval = strtol(strvalue.c_str(), &p_end, 10);
-      if( *p_end != '\0' && !isspace(*p_end) )
+      long retval = strtol(strvalue.c_str(), &p_end, 10);
+      if( (*p_end != '\0' && !isspace(*p_end)) || retval != static_cast<Index>(retval) )
       {
          std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer value \"" + strvalue
                            + "\" found.\n";
@@ -777,8 +777,8 @@ bool OptionsList::ReadFromStream(
          else if( option->Type() == OT_Integer )
          {
             char* p_end;
-            size_t retval = strtol(value.c_str(), &p_end, 10);
-            if( *p_end != '\0' && !isspace(*p_end) )
+            long retval = strtol(value.c_str(), &p_end, 10);
+            if( (*p_end != '\0' && !isspace(*p_end)) || retval != static_cast<Index>(retval) )
             {
                std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer option value \""
                                  + value + "\" found.\n";
-- 
2.43.0


From cdbab55bc786da8b015dcfce6d020af26cfbce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 26/35] fix: NaN was accepted as value of bounded numeric
 options

---
 src/Common/IpRegOptions.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Common/IpRegOptions.hpp b/src/Common/IpRegOptions.hpp
index 38ad026..0026808 100644
--- a/src/Common/IpRegOptions.hpp
+++ b/src/Common/IpRegOptions.hpp
@@ -557,6 +557,10 @@ public:
    ) const
    {
       DBG_ASSERT(type_ == OT_Number);
+      if( (has_lower_ || has_upper_) && value != value )
+      {
+         return false;   // NaN is not within any bounds
+      }
       if( has_lower_ && ((lower_strict_ == true && value <= lower_) || (lower_strict_ == false && value < lower_)) )
       {
          return false;
-- 
2.43.0


From b30f531f797fe15abd52b44dd8686695cafc0c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 27/35] fix: empty quoted value in options file was read as
 quotation mark

---
 src/Common/IpOptionsList.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 5f64553..ebcd95f 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -555,7 +555,7 @@ bool OptionsList::GetNumericValue(
       }
       char* p_end;
       Number retval = strtod(buffer, &p_end);
-      if( *p_end != '\0' && !isspace(*p_end) )
+      if( p_end == buffer || (*p_end != '\0' && !isspace(*p_end)) )
       {
          delete[] buffer;
          std::string msg = "Option \"" + tag + "\": Double value expected, but non-numeric value \"" + strvalue
@@ -622,7 +622,7 @@ bool OptionsList::GetIntegerValue(
    {
       char* p_end;
       long retval = strtol(strvalue.c_str(), &p_end, 10);
-      if( (*p_end != '\0' && !isspace(*p_end)) || retval != static_cast<Index>(retval) )
+      if( p_end == strvalue.c_str() || (*p_end != '\0' && !isspace(*p_end)) || retval != static_cast<Index>(retval) )
       {
          std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer value \"" + strvalue
                            + "\" found.\n";
@@ -762,7 +762,7 @@ bool OptionsList::ReadFromStream(
             }
             char* p_end;
             Number retval = strtod(buffer, &p_end);
-            if( *p_end != '\0' && !isspace(*p_end) )
+            if( p_end == buffer || (*p_end != '\0' && !isspace(*p_end)) )
             {
                delete[] buffer;
                std::string msg = "Option \"" + tag + "\": Double value expected, but non-numeric option value \""
@@ -778,7 +778,7 @@ bool OptionsList::ReadFromStream(
          {
             char* p_end;
             long retval = strtol(value.c_str(), &p_end, 10);
-            if( (*p_end != '\0' && !isspace(*p_end)) || retval != static_cast<Index>(retval) )
+            if( p_end == value.c_str() || (*p_end != '\0' && !isspace(*p_end)) || retval != static_cast<Index>(retval) )
             {
                std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer option value \""
                                  + value + "\" found.\n";
@@ -890,6 +890,13 @@ bool OptionsList::readnexttoken(
       return false;
    }
 
+   if( inside_quotes && (c == '"') )
+   {
+      // quotation closed immediately
+      inside_quotes = false;
+      c = is.get();
+   }
+
    // Now read the token
    while( !is.eof() && (inside_quotes || !isspace(c)) )
    {
-- 
2.43.0


From 0df7c6175e7f020191bf0e43f414b16531486c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:49 +0000
Subject: [PATCH 28/35] fix: scale initial bound multipliers by the inverse of
 the variable scaling

---
 src/Algorithm/IpNLPScaling.cpp   | 29 +++++++++++++++++++++++++++++
 src/Algorithm/IpNLPScaling.hpp   |  7 +++++++
 src/Algorithm/IpOrigIpoptNLP.cpp |  4 ++--
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpNLPScaling.cpp b/src/Algorithm/IpNLPScaling.cpp
index 6ee1e83..a7f51c0 100644
--- a/src/Algorithm/IpNLPScaling.cpp
+++ b/src/Algorithm/IpNLPScaling.cpp
@@ -68,6 +68,35 @@ SmartPtr<const Vector> NLPScalingObject::apply_vector_scaling_x_LU(
    }
 }
 
+SmartPtr<Vector> NLPScalingObject::unapply_vector_scaling_x_LU_NonConst(
+   const Matrix&                 Px_LU,
+   const SmartPtr<const Vector>& lu,
+   const VectorSpace&            x_space
+)
+{
+   DBG_START_METH("NLPScalingObject::unapply_vector_scaling_x_LU_NonConst", dbg_verbosity);
+   SmartPtr<Vector> unscaled_x_LU = lu->MakeNew();
+   if( have_x_scaling() )
+   {
+      SmartPtr<Vector> tmp_x = x_space.MakeNew();
+
+      // move to full x space
+      Px_LU.MultVector(1.0, *lu, 0.0, *tmp_x);
+
+      // unscale in full x space
+      tmp_x = unapply_vector_scaling_x_NonConst(ConstPtr(tmp_x));
+
+      // move back to x_L space
+      Px_LU.TransMultVector(1.0, *tmp_x, 0.0, *unscaled_x_LU);
+   }
+   else
+   {
+      unscaled_x_LU->Copy(*lu);
+   }
+
+   return unscaled_x_LU;
+}
+
 SmartPtr<Vector> NLPScalingObject::apply_vector_scaling_d_LU_NonConst(
    const Matrix&                 Pd_LU,
    const SmartPtr<const Vector>& lu,
diff --git a/src/Algorithm/IpNLPScaling.hpp b/src/Algorithm/IpNLPScaling.hpp
index ea8b383..154cd4a 100644
--- a/src/Algorithm/IpNLPScaling.hpp
+++ b/src/Algorithm/IpNLPScaling.hpp
@@ -181,6 +181,13 @@ public:
       const VectorSpace&            x_space
    );
 
+   /** Returns an x-unscaled vector in the x_L or x_U space */
+   SmartPtr<Vector> unapply_vector_scaling_x_LU_NonConst(
+      const Matrix&                 Px_LU,
+      const SmartPtr<const Vector>& lu,
+      const VectorSpace&            x_space
+   );
+
    /** Returns an d-scaled vector in the d_L or d_U space */
    SmartPtr<Vector> apply_vector_scaling_d_LU_NonConst(
       const Matrix&                 Pd_LU,
diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 0d73b65..91f9494 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -434,7 +434,7 @@ bool OrigIpoptNLP::InitializeStructures(
       z_L->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_L unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_L = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_L_, ConstPtr(z_L), *x_space_);
+         z_L = NLP_scaling()->unapply_vector_scaling_x_LU_NonConst(*Px_L_, ConstPtr(z_L), *x_space_);
       }
       if( obj_scal != 1. )
       {
@@ -446,7 +446,7 @@ bool OrigIpoptNLP::InitializeStructures(
       z_U->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_U unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_U = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_U_, ConstPtr(z_U), *x_space_);
+         z_U = NLP_scaling()->unapply_vector_scaling_x_LU_NonConst(*Px_U_, ConstPtr(z_U), *x_space_);
       }
       if( obj_scal != 1. )
       {
-- 
2.43.0


From 8f96ad595acda733c09f2d0a80ccc8ef88730023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:59 +0000
Subject: [PATCH 29/35] fix: no infinite scaling factors for constraints
 without gradient

---
 src/Algorithm/IpGradientScaling.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpGradientScaling.cpp b/src/Algorithm/IpGradientScaling.cpp
index f4e8252..860b7c3 100644
--- a/src/Algorithm/IpGradientScaling.cpp
+++ b/src/Algorithm/IpGradientScaling.cpp
@@ -166,10 +166,15 @@ void GradientScaling::DetermineScalingParametersImpl(
                dc = NULL;
             }
          }
-         else
+         else if( arow_max > dbl_min )
          {
             dc->Set(scaling_constr_target_gradient_ / arow_max);
          }
+         else
+         {
+            // all gradients are zero, so there is no factor that gives the target
+            dc = NULL;
+         }
          if( IsValid(dc) && scaling_min_value_ > 0. )
          {
             SmartPtr<Vector> tmp = dc->MakeNew();
@@ -213,10 +218,15 @@ void GradientScaling::DetermineScalingParametersImpl(
                dd = NULL;
             }
          }
-         else
+         else if( arow_max > dbl_min )
          {
             dd->Set(scaling_constr_target_gradient_ / arow_max);
          }
+         else
+         {
+            // all gradients are zero, so there is no factor that gives the target
+            dd = NULL;
+         }
          if( IsValid(dd) && scaling_min_value_ > 0. )
          {
             SmartPtr<Vector> tmp = dd->MakeNew();
-- 
2.43.0


From f80064bb0ae70e63354085f66d7f1c96255e41e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:43 +0000
Subject: [PATCH 30/35] fix: tell the TNLP about the current point again after
 finite differences

After finite difference approximations, after constraint or Jacobian values
were reused for an earlier point, and when finalizing, the next evaluation was
made with new_x=false although the TNLP had seen another point last.
---
 src/Interfaces/IpTNLPAdapter.cpp | 17 +++++++++++++++--
 src/Interfaces/IpTNLPAdapter.hpp |  2 ++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index a782341..2bb3800 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -50,6 +50,7 @@ TNLPAdapter::TNLPAdapter(
      full_g_(NULL),
      jac_g_(NULL),
      c_rhs_(NULL),
+     new_x_pending_(false),
      x_tag_for_iterates_(0),
      y_c_tag_for_iterates_(0),
      y_d_tag_for_iterates_(0),
@@ -1802,6 +1803,8 @@ bool TNLPAdapter::Eval_grad_f(
          }
 
          delete[] full_x_pert;
+         // the TNLP has seen a perturbed point last
+         new_x_pending_ = true;
       }
    }
 
@@ -2107,7 +2110,7 @@ void TNLPAdapter::FinalizeSolution(
 {
    DBG_START_METH("TNLPAdapter::FinalizeSolution", dbg_verbosity);
 
-   update_local_x(x);
+   new_x_pending_ = update_local_x(x);
    update_local_lambda(y_c, y_d);
 
    ResortX(x, full_x_);
@@ -2801,12 +2804,16 @@ bool TNLPAdapter::update_local_x(
 {
    if( x.GetTag() == x_tag_for_iterates_ )
    {
-      return false;
+      // the TNLP may still have to be told about this point
+      const bool new_x = new_x_pending_;
+      new_x_pending_ = false;
+      return new_x;
    }
 
    ResortX(x, full_x_);
 
    x_tag_for_iterates_ = x.GetTag();
+   new_x_pending_ = false;
 
    return true;
 }
@@ -2836,6 +2843,8 @@ bool TNLPAdapter::internal_eval_g(
    if( x_tag_for_g_ == x_tag_for_iterates_ )
    {
       // already calculated!
+      // the next evaluation has to tell the TNLP about a point that it has not seen yet
+      new_x_pending_ = new_x_pending_ || new_x;
       return true;
    }
 
@@ -2858,6 +2867,8 @@ bool TNLPAdapter::internal_eval_jac_g(
    if( x_tag_for_jac_g_ == x_tag_for_iterates_ )
    {
       // already calculated!
+      // the next evaluation has to tell the TNLP about a point that it has not seen yet
+      new_x_pending_ = new_x_pending_ || new_x;
       return true;
    }
 
@@ -2907,6 +2918,8 @@ bool TNLPAdapter::internal_eval_jac_g(
          }
          delete[] full_g_pert;
          delete[] full_x_pert;
+         // the TNLP has seen a perturbed point last
+         new_x_pending_ = true;
       }
    }
 
diff --git a/src/Interfaces/IpTNLPAdapter.hpp b/src/Interfaces/IpTNLPAdapter.hpp
index c92faf7..e58db84 100644
--- a/src/Interfaces/IpTNLPAdapter.hpp
+++ b/src/Interfaces/IpTNLPAdapter.hpp
@@ -563,6 +563,8 @@ private:
 
    /**@name Tags for deciding when to update internal copies of vectors */
    ///@{
+   /** whether the next evaluation has to tell the TNLP that full_x_ is not the point it has seen last */
+   bool new_x_pending_;
    TaggedObject::Tag x_tag_for_iterates_;
    TaggedObject::Tag y_c_tag_for_iterates_;
    TaggedObject::Tag y_d_tag_for_iterates_;
-- 
2.43.0


From 14c857a180f76eb46f8aacbad63c814359c1b60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:44 +0000
Subject: [PATCH 31/35] fix: failed evaluation of constraints was remembered as
 successful

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 2bb3800..795a688 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2854,7 +2854,7 @@ bool TNLPAdapter::internal_eval_g(
 
    if( !retval )
    {
-      x_tag_for_jac_g_ = 0;
+      x_tag_for_g_ = 0;
    }
 
    return retval;
-- 
2.43.0


From db960a348c20c75d6d6acfb1ba43db8a3ec0a5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:28 +0000
Subject: [PATCH 32/35] fix: bounds of fixed variables were not relaxed with
 fixed_variable_treatment relax_bounds

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 795a688..776c9b2 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -1422,7 +1422,7 @@ bool TNLPAdapter::GetBoundsInformation(
    {
       // Relax the bounds for fixed variables
       const Number bound_relax = Max(Number(1e-8), bound_relax_factor_);
-      for( Index i = 0; i < n_x_fixed_; i++ )
+      for( Index i = 0; i < n_full_x_; i++ )
       {
          if( x_l[i] == x_u[i] )
          {
-- 
2.43.0


From c0703782fa2558b1d753373f80ebbf48b8bd993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:28 +0000
Subject: [PATCH 33/35] fix: last entry of empty column structure for finite
 difference Jacobian was not set

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 776c9b2..5139ac3 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2978,7 +2978,7 @@ void TNLPAdapter::initialize_findiff_jac(
    }
    else
    {
-      memset(findiff_jac_ia_, 0, n_full_x_ * sizeof(Index));
+      memset(findiff_jac_ia_, 0, (n_full_x_ + 1) * sizeof(Index));
    }
    const Index* ja = findiff_jac_converter->JA();
    for( Index i = 0; i < findiff_jac_nnz_; i++ )
-- 
2.43.0


From c069fc86eb3df4af8ac55c0c2da0073a10f8dd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:28 +0000
Subject: [PATCH 34/35] fix: variables with relaxed bounds had no position for
 the detection of dependent constraints

---
 src/Interfaces/IpTNLPAdapter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 5139ac3..edec657 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -493,6 +493,7 @@ bool TNLPAdapter::GetSpaces(
                      n_x_var++;
                      break;
                   case RELAX_BOUNDS:
+                     x_not_fixed_map[n_x_var] = i;
                      x_l_map[n_x_l] = n_x_var;
                      n_x_l++;
                      x_u_map[n_x_u] = n_x_var;
-- 
2.43.0


From 6cc884fa56f550877622dacb80abad66a746694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:38 +0000
Subject: [PATCH 35/35] fix: finite difference derivatives with respect to
 fixed variables were not set

---
 src/Interfaces/IpTNLPAdapter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index edec657..4c4c6d8 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -1779,7 +1779,8 @@ bool TNLPAdapter::Eval_grad_f(
          for( Index i = 0; i < g_f.Dim(); i++ )
          {
             Index ivar = x_pos != NULL ? x_pos[i] : i;
-            if( findiff_x_l_[ivar] < findiff_x_u_[ivar] )
+            // fixed variables that are part of the problem need their derivative, too
+            if( findiff_x_l_[ivar] <= findiff_x_u_[ivar] )
             {
                const Number xorig = full_x_pert[ivar];
                Number this_perturbation = findiff_perturbation_ * Max(Number(1.), std::abs(full_x_[ivar]));
@@ -2892,7 +2893,8 @@ bool TNLPAdapter::internal_eval_jac_g(
          // Compute the finite difference Jacobian
          for( Index ivar = 0; ivar < n_full_x_; ivar++ )
          {
-            if( findiff_x_l_[ivar] < findiff_x_u_[ivar] )
+            // derivatives with respect to fixed variables are not needed only if they are removed and get no multipliers
+            if( findiff_x_l_[ivar] < findiff_x_u_[ivar] || fixed_variable_treatment_ != MAKE_PARAMETER_NODUAL )
             {
                const Number xorig = full_x_pert[ivar];
                Number this_perturbation = findiff_perturbation_ * Max(Number(1.), std::abs(full_x_[ivar]));
-- 
2.43.0

