From 72dfb7dbfcc93bffbc3e64dcab8134f5fe6da2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 01/20] fix: let the finite difference evaluation track the
 support of the differences

finitediff_flint_nmod restricted the update of the j-th difference to the
support of the j-th coefficient, but that difference also involves all the
higher coefficients, so for example the zeta function of the Fermat cubic
over F_17 died in the final assertion.  Also stop trimming at the constant
coefficient, instead of reading max_row[-1].
---
 dr_nd/dr_nd.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index f682f4a..85bbd90 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -1907,12 +1907,21 @@ void finitediff_flint_nmod(fmpz * result, fmpz_mat_struct * M_fmpz, const int64_
         }
     }
     i = n + 1;
-    while( max_row[i] == 0 and min_col[i] == d and i >= 0)
+    while( i > 0 and max_row[i] == 0 and min_col[i] == d )
     {
         //M[i] = 0;
         n--;
         i--;
     }
+    // the i-th difference also picks up contributions from M[i + 1], M[i + 2], ...
+    // thus its support is contained in the joint support of M[i], M[i + 1], ...
+    for(i = n; i >= 0; i--)
+    {
+        if(max_row[i] < max_row[i + 1])
+            max_row[i] = max_row[i + 1];
+        if(min_col[i] > min_col[i + 1])
+            min_col[i] = min_col[i + 1];
+    }
 
 
 
-- 
2.43.0


From db945ff7b4fa99d28b291a529af4d26793c38ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 02/20] fix: update the factorial for every pole order in
 frob_J_ZZ_p

For p <= n the last loop stopped before e = 1 when the form has a higher
pole order, so the factorial was missing factors and the call died in an
assertion.  Only the new terms depend on e >= m, as in frob_J_ZZ.
---
 hypersurface/frob_J_ZZ_p.cc | 45 ++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/hypersurface/frob_J_ZZ_p.cc b/hypersurface/frob_J_ZZ_p.cc
index 03ad9ee..deb0c93 100644
--- a/hypersurface/frob_J_ZZ_p.cc
+++ b/hypersurface/frob_J_ZZ_p.cc
@@ -214,32 +214,35 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
     // H_last has the poles with order n
     // final reduction step for H_last
     mul(F, *(dR->get_final_reduction_matrix_J(n)), H_last);
-    for(e = n/p; e != 0 && e >= m; e-- )
+    for(e = n/p; e != 0; e-- )
     {
-        if(verbose)
-            cout<<"e = "<<e<<endl<<"\tadding new terms\n";
+        if(e >= m)
+        {
+            if(verbose)
+                cout<<"e = "<<e<<endl<<"\tadding new terms\n";
 
-        dict_G0 = &dR->tuple_dict[ d * p * e - (n + 1) ];
-        clear(G0);
-        G0.SetLength( dict_G0->size() );
+            dict_G0 = &dR->tuple_dict[ d * p * e - (n + 1) ];
+            clear(G0);
+            G0.SetLength( dict_G0->size() );
 
-        j = e - m;
-        Djm = 0;
-        for( i = j ; i < N ; i++)
-        {
-            bin = binomial(m + i - 1, m - 1) * binomial(i,j);
-            if(j%2 == 0)
-                Djm += bin;
-            else
-                Djm -= bin;
-        }
+            j = e - m;
+            Djm = 0;
+            for( i = j ; i < N ; i++)
+            {
+                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                if(j%2 == 0)
+                    Djm += bin;
+                else
+                    Djm -= bin;
+            }
 
-        for( it = fpow[j].begin(); it != fpow[j].end(); it++)
-        {
-            monomial = p * ( it->first + ei + ones ) - ones;
-            G0[ (*dict_G0)[ monomial ] ] += fact * Djm * it->second;
+            for( it = fpow[j].begin(); it != fpow[j].end(); it++)
+            {
+                monomial = p * ( it->first + ei + ones ) - ones;
+                G0[ (*dict_G0)[ monomial ] ] += fact * Djm * it->second;
+            }
+            F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;
         }
-        F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;
 
         /*
          * before
-- 
2.43.0


From e06c44736813668f3e8610d864be1f82df727da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 03/20] fix: use the number of columns as the row stride in the
 mpz matrix conversions

The row-major index used the number of rows, which reads and writes the
wrong entries (and past the end) unless the matrix is square.
---
 conv/conv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conv/conv.cc b/conv/conv.cc
index 97aa639..fd2f261 100644
--- a/conv/conv.cc
+++ b/conv/conv.cc
@@ -69,7 +69,7 @@ void conv(mpz_t* A, const Mat<ZZ> &B)
     {
         for(j = 0; j < colsB; j++)
         {
-            conv(A[i*rowsB+j], B[i][j]);
+            conv(A[i*colsB+j], B[i][j]);
         }
     }
 }
@@ -83,7 +83,7 @@ void conv(Mat<ZZ> &A, mpz_t* B, int64_t rowsB, int64_t colsB)
     {
         for(j = 0; j < colsB; j++)
         {
-            conv(A[i][j], B[i*rowsB + j]);
+            conv(A[i][j], B[i*colsB + j]);
         }
     }
 
-- 
2.43.0


From 2215c8f32c2e9b53bfbb9514adafcae255f3a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 04/20] fix: use the number of columns as the row stride in the
 mpz matrix products

The row-major indices of the operands and of the result used the number of
rows, which is wrong (and out of bounds) unless the matrices are square.
---
 matrix/mul.cc          | 8 ++++----
 matrix/mul_tranpose.cc | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/matrix/mul.cc b/matrix/mul.cc
index e03bec4..5daef91 100644
--- a/matrix/mul.cc
+++ b/matrix/mul.cc
@@ -28,10 +28,10 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* B, int64_
             mpz_set_ui(acc,0);
             for(k = 0; k < rowsB; k++)
             {
-                mpz_mul(tmp, A[i*rowsA + k], B[k*rowsB + j]);
+                mpz_mul(tmp, A[i*colsA + k], B[k*colsB + j]);
                 mpz_add(acc,acc,tmp);
             }
-            mpz_set(result[i*rowsA + j],acc);
+            mpz_set(result[i*colsB + j],acc);
         }
     }
     mpz_clears(tmp, acc, NULL);
@@ -46,7 +46,7 @@ void mul(mpz_t* result, mpz_t a, mpz_t* A, int64_t rowsA, int64_t colsA)
     {
         for(j = 0; j < colsA; j++)
         {
-            mpz_mul(result[i*rowsA+j], a, A[i*rowsA+j]);
+            mpz_mul(result[i*colsA+j], a, A[i*colsA+j]);
         }
     }
 }
@@ -63,7 +63,7 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* v, int64_
         mpz_set_ui(acc,0);
         for(j = 0; j < colsA; j++)
         {
-            mpz_mul(tmp,A[i*rowsA +j],v[j]);
+            mpz_mul(tmp,A[i*colsA +j],v[j]);
             mpz_add(acc,acc,tmp);
         }
         mpz_set(result[i],acc);
diff --git a/matrix/mul_tranpose.cc b/matrix/mul_tranpose.cc
index 48a6a38..e0d2704 100644
--- a/matrix/mul_tranpose.cc
+++ b/matrix/mul_tranpose.cc
@@ -55,10 +55,10 @@ void mul_transpose(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t*
             mpz_set_ui(acc,0);
             for(k = 0; k < rowsB; k++)
             {
-                mpz_mul(tmp, A[i*rowsA + k], B[j*colsB + k]);
+                mpz_mul(tmp, A[i*colsA + k], B[j*rowsB + k]);
                 mpz_add(acc,acc,tmp);
             }
-            mpz_set(result[i*rowsA + j],acc);
+            mpz_set(result[i*colsB + j],acc);
         }
     }
     mpz_clears(tmp, acc,NULL);
-- 
2.43.0


From d310ac1f8bb4b56c73312cb21240d6c01d41b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 05/20] fix: release the temporary in the mpz inner product

---
 matrix/mul.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matrix/mul.cc b/matrix/mul.cc
index 5daef91..8467fb4 100644
--- a/matrix/mul.cc
+++ b/matrix/mul.cc
@@ -101,6 +101,7 @@ void mul(mpz_t &result, mpz_t* u, int64_t u_length, mpz_t* v, int64_t v_length)
         mpz_mul(tmp,u[i],v[i]);
         mpz_add(result, result, tmp);
     }
+    mpz_clear(tmp);
 }
 
 //Some routines for fmpz_{mat,vec} and nmod_{mat,vec}
-- 
2.43.0


From 6d1d3ea55912d804bb68faceb21479638bd315fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 06/20] fix: keep the modulus alive until the last pole order
 in frob_ND_flint

With more than one thread the modulus was cleared after every pole order
and once more at the end, a use after free whenever p^precision does not
fit in a small fmpz.
---
 hypersurface_nd/hypersurface_nd.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hypersurface_nd/hypersurface_nd.cc b/hypersurface_nd/hypersurface_nd.cc
index 48f192c..e7b382f 100644
--- a/hypersurface_nd/hypersurface_nd.cc
+++ b/hypersurface_nd/hypersurface_nd.cc
@@ -650,7 +650,6 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_flint(const int64_t coordinate, c
             flint_free(v_list);
             flint_free(poly_list);
             _fmpz_vec_clear(G_list,Hlen*dpowern);
-            fmpz_clear(modulus);
             // reduced all terms from p*e to p*(e-1) and if e = 1 to basis
             H.swap(Hnew);
         }
-- 
2.43.0


From 9de42838b5221905de00314617febee0eb740439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 07/20] fix: size the name of the marker file by the file name,
 not by a pointer

---
 dr/save.cc     | 8 +++-----
 dr_nd/dr_nd.cc | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/dr/save.cc b/dr/save.cc
index 4354562..d00acfd 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -10,10 +10,8 @@ bool de_Rham_local::save(const char * filename)
         cout <<"Saving de_Rham_local to: "<< filename << endl;
 
     ofstream fileswp;
-    char fileswpname[sizeof(filename)+4];
-    strcpy(fileswpname, filename);
-    strcat(fileswpname,".swp");
-    fileswp.open(fileswpname);
+    const string fileswpname = string(filename) + ".swp";
+    fileswp.open(fileswpname.c_str());
 
     int64_t i;
     ofstream file;
@@ -51,7 +49,7 @@ bool de_Rham_local::save(const char * filename)
         file << solve_pair->second <<endl;
         file.close();
         fileswp.close();
-        remove(fileswpname);
+        remove(fileswpname.c_str());
         return true;
     }
     else
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 85bbd90..e04b361 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -248,10 +248,8 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
         cout <<"Saving de_Rham_non_degenerate_local to: "<< filename << endl;
 
     ofstream fileswp;
-    char fileswpname[sizeof(filename)+4];
-    strcpy(fileswpname, filename);
-    strcat(fileswpname,".swp");
-    fileswp.open(fileswpname);
+    const string fileswpname = string(filename) + ".swp";
+    fileswp.open(fileswpname.c_str());
 
     int64_t i;
     ofstream file;
@@ -305,7 +303,7 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
         file.close();
         fileswp.close();
-        remove(fileswpname);
+        remove(fileswpname.c_str());
         return true;
     }
     else
-- 
2.43.0


From 649cd61eef8a254593247fd248496934b42d4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 08/20] fix: save the lift of the equation, not only its
 reduction mod p

---
 dr/constructors.cc | 14 +++++++-------
 dr/save.cc         | 12 ++++++------
 dr_nd/dr_nd.cc     | 26 +++++++++++++-------------
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/dr/constructors.cc b/dr/constructors.cc
index c8e845a..d2295e1 100644
--- a/dr/constructors.cc
+++ b/dr/constructors.cc
@@ -96,7 +96,7 @@ de_Rham_local::de_Rham_local(const char* filename)
 {
     int64_t i, j;
     ifstream file;
-    Vec<zz_p> fbar_vector;
+    Vec<ZZ_p> f_vector;
     pair< Vec<int64_t>, Mat<ZZ_p> > *solve_pair;
     file.open(filename);
 
@@ -111,7 +111,7 @@ de_Rham_local::de_Rham_local(const char* filename)
         file >> n;
         file >> d;
         file >> Hilbert_J;
-        file >> fbar_vector;
+        file >> f_vector;
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -123,13 +123,13 @@ de_Rham_local::de_Rham_local(const char* filename)
                 tuple_dict[i][ ((tuple_list[i])[j]) ] = j;
             }
         }
-        assert( tuple_list[d].length() == fbar_vector.length() );
-        for(i = 0 ; i < (int64_t) fbar_vector.length() ; i++)
+        assert( tuple_list[d].length() == f_vector.length() );
+        for(i = 0 ; i < (int64_t) f_vector.length() ; i++)
         {
-            if( ! IsZero(fbar_vector[i]) )
+            if( ! IsZero(f_vector[i]) )
             {
-                f[ tuple_list[d][i] ] = rep( fbar_vector[i] );
-                fbar[ tuple_list[d][i] ] = fbar_vector[i];
+                f[ tuple_list[d][i] ] = f_vector[i];
+                fbar[ tuple_list[d][i] ] = rep( f_vector[i] ) % p;
             }
         }
 
diff --git a/dr/save.cc b/dr/save.cc
index d00acfd..8be3372 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -15,13 +15,13 @@ bool de_Rham_local::save(const char * filename)
 
     int64_t i;
     ofstream file;
-    Vec<zz_p> fbar_vector;
-    map< Vec<int64_t>, zz_p, vi64less>::const_iterator it;
+    Vec<ZZ_p> f_vector;
+    map< Vec<int64_t>, ZZ_p, vi64less>::const_iterator it;
     pair< Vec<int64_t> , Mat<ZZ_p> > *solve_pair;
 
-    fbar_vector.SetLength( tuple_list[d].length() );
-    for( it = fbar.begin(); it != fbar.end(); it++)
-        fbar_vector[ tuple_dict[d][it->first] ] = it->second;
+    f_vector.SetLength( tuple_list[d].length() );
+    for( it = f.begin(); it != f.end(); it++)
+        f_vector[ tuple_dict[d][it->first] ] = it->second;
 
     file.open(filename, ios::out | ios::trunc);
 
@@ -36,7 +36,7 @@ bool de_Rham_local::save(const char * filename)
         file << n <<endl;
         file << d <<endl;
         file << Hilbert_J <<endl;
-        file << fbar_vector << endl;
+        file << f_vector << endl;
 
         for( i = 0; i < n ; i++)
         {
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index e04b361..8e35c10 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -105,7 +105,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
 {
     int64_t i, j;
     ifstream file;
-    Vec<zz_p> fbar_vector;
+    Vec<ZZ_p> f_vector;
     pair< Vec<int64_t>, Mat<ZZ_p> > *solve_pair;
     file.open(filename);
 
@@ -120,7 +120,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
         file >> n;
         file >> d;
         file >> Hilbert_J;
-        file >> fbar_vector;
+        file >> f_vector;
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -132,13 +132,13 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
                 tuple_dict[i][ ((tuple_list[i])[j]) ] = j;
             }
         }
-        assert( tuple_list[d].length() == fbar_vector.length() );
-        for(i = 0 ; i < (int64_t) fbar_vector.length() ; i++)
+        assert( tuple_list[d].length() == f_vector.length() );
+        for(i = 0 ; i < (int64_t) f_vector.length() ; i++)
         {
-            if( ! IsZero(fbar_vector[i]) )
+            if( ! IsZero(f_vector[i]) )
             {
-                f[ tuple_list[d][i] ] = rep( fbar_vector[i] );
-                fbar[ tuple_list[d][i] ] = fbar_vector[i];
+                f[ tuple_list[d][i] ] = f_vector[i];
+                fbar[ tuple_list[d][i] ] = rep( f_vector[i] ) % p;
             }
         }
 
@@ -253,13 +253,13 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
     int64_t i;
     ofstream file;
-    Vec<zz_p> fbar_vector;
-    map< Vec<int64_t>, zz_p, vi64less>::const_iterator it;
+    Vec<ZZ_p> f_vector;
+    map< Vec<int64_t>, ZZ_p, vi64less>::const_iterator it;
     pair< Vec<int64_t> , Mat<ZZ_p> > *solve_pair;
 
-    fbar_vector.SetLength( tuple_list[d].length() );
-    for( it = fbar.begin(); it != fbar.end(); it++)
-        fbar_vector[ tuple_dict[d][it->first] ] = it->second;
+    f_vector.SetLength( tuple_list[d].length() );
+    for( it = f.begin(); it != f.end(); it++)
+        f_vector[ tuple_dict[d][it->first] ] = it->second;
 
     file.open(filename, ios::out | ios::trunc);
 
@@ -274,7 +274,7 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
         file << n <<endl;
         file << d <<endl;
         file << Hilbert_J <<endl;
-        file << fbar_vector << endl;
+        file << f_vector << endl;
 
         for( i = 0; i < n ; i++)
         {
-- 
2.43.0


From 3ad1bd8fd7d117c55bebdd32090f2e137df0f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 09/20] fix: report a save whose writes failed, and keep its
 marker file

---
 dr/save.cc     | 5 +++++
 dr_nd/dr_nd.cc | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dr/save.cc b/dr/save.cc
index 8be3372..8d33d64 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -48,6 +48,11 @@ bool de_Rham_local::save(const char * filename)
         file << solve_pair->first <<endl;
         file << solve_pair->second <<endl;
         file.close();
+        if(!file)
+        {
+            cout << "Wasn't able to write "<<filename<<endl;
+            return false;
+        }
         fileswp.close();
         remove(fileswpname.c_str());
         return true;
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 8e35c10..2256011 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -265,7 +265,7 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
 
 
-    if(file.is_open())
+    if(file.is_open() && fileswp.is_open())
     {
         file << p <<endl;
         file << precision <<endl;
@@ -302,6 +302,11 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
 
         file.close();
+        if(!file)
+        {
+            cout << "Wasn't able to write "<<filename<<endl;
+            return false;
+        }
         fileswp.close();
         remove(fileswpname.c_str());
         return true;
-- 
2.43.0


From ca21ac844f3afc3ed50e9c59467ab515246a2479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 10/20] fix: refuse to load an incomplete file

---
 dr/constructors.cc | 10 ++++++++++
 dr_nd/dr_nd.cc     | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/dr/constructors.cc b/dr/constructors.cc
index d2295e1..8a045c4 100644
--- a/dr/constructors.cc
+++ b/dr/constructors.cc
@@ -112,6 +112,11 @@ de_Rham_local::de_Rham_local(const char* filename)
         file >> d;
         file >> Hilbert_J;
         file >> f_vector;
+        if(!file)
+        {
+            cout << "\'"<<filename<<"\' is incomplete"<<endl;
+            abort();
+        }
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -147,6 +152,11 @@ de_Rham_local::de_Rham_local(const char* filename)
         solve_pair = &( solve_J[(d - 2) * (n + 1) + 1]);
         file >> solve_pair->first;
         file >> solve_pair->second;
+        if(!file)
+        {
+            cout << "\'"<<filename<<"\' is incomplete"<<endl;
+            abort();
+        }
 
         for( i = 0; i < (int64_t)coKernels_J_basis.length(); i++ )
         {
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 2256011..6af1762 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -121,6 +121,11 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
         file >> d;
         file >> Hilbert_J;
         file >> f_vector;
+        if(!file)
+        {
+            cout << "\'"<<filename<<"\' is incomplete"<<endl;
+            abort();
+        }
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -181,6 +186,11 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
         solve_pair = &( solve_ND[ (d - 1) * (n + 1) + 1 ] );
         file >> solve_pair->first;
         file >> solve_pair->second;
+        if(!file)
+        {
+            cout << "\'"<<filename<<"\' is incomplete"<<endl;
+            abort();
+        }
         assert( coKernels_ND_basis.length() == power_long(d, n) );
         file.close();
     }
-- 
2.43.0


From 202f60be777ff655c7c37ee3002f5816f4fe099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 11/20] fix: take the sign of the functional equation from the
 constant term too

---
 matrix/charpoly_frob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/charpoly_frob.cc b/matrix/charpoly_frob.cc
index 270a76c..9e13e4c 100644
--- a/matrix/charpoly_frob.cc
+++ b/matrix/charpoly_frob.cc
@@ -32,7 +32,7 @@ Vec<ZZ> charpoly_frob(const Mat<ZZ> M,  Vec<int64_t> prec, const int64_t p, cons
     {
         // figure out the sign if dimension is even, i.e., weight is even
         // for odd case the sign is 1
-        for (int64_t i = 1; i <= degree/2; ++i) {
+        for (int64_t i = 0; i <= degree/2; ++i) {
             ZZ p_power = power_ZZ(p, std::min(prec[i], prec[degree - i] + ((degree-2*i)*dimension) /2));
             if( cp[i] % p_power !=0 &&  cp[degree-i] % p_power != 0) {
                 if (0 == (cp[i] + cp[degree - i] * power_ZZ(p, ((degree-2*i)*dimension) /2)) %  p_power )
-- 
2.43.0


From 11d6975fe0a6e37b6999c386f7bac130243f1104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 12/20] fix: refuse binomials that do not fit in a signed 64
 bit integer

---
 tools/binomial.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/binomial.cc b/tools/binomial.cc
index 1ed321d..a198324 100644
--- a/tools/binomial.cc
+++ b/tools/binomial.cc
@@ -25,7 +25,7 @@ int64_t binomial(const int64_t n, int64_t k)
         den *=i;
     }
     num = num/den;
-    assert( NumBytes(num) <= 8 );
+    assert( NumBits(num) <= 63 );
     return int64_t{conv<long>(num)};
 }
 
-- 
2.43.0


From 928b7e4627eb99a713e1f7e4a4a149b4c3d6625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 13/20] fix: convert to and from nmod moduli of 64 bits
 correctly

---
 conv.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conv.h b/conv.h
index c2bf60e..e6a9f5f 100644
--- a/conv.h
+++ b/conv.h
@@ -47,7 +47,7 @@ void conv(nmod_mat_t A, const NTL::Mat<T> &B)
     assert( B.NumCols() == nmod_mat_ncols(A));
     for (int64_t i = 0; i < B.NumRows(); ++i)
         for (int64_t j = 0; j < B.NumCols(); j++)
-            nmod_mat_entry(A, i, j) = NTL::conv<ulong>(rep(B[i][j]) % A->mod.n );
+            nmod_mat_entry(A, i, j) = NTL::conv<ulong>(NTL::conv<NTL::ZZ>(rep(B[i][j])) % NTL::conv<NTL::ZZ>(A->mod.n));
 }
 
 void conv(NTL::Mat<NTL::ZZ> &A, mpz_t* B, int64_t rowsB, int64_t colsB);
@@ -85,5 +85,5 @@ void conv(NTL::Mat<T> &A, const nmod_mat_t B) {
     A.SetDims(rowsA, colsA);
     for(int64_t i = 0; i < rowsA; ++i)
         for(int64_t j = 0; j < colsA; j++)
-            conv(A[i][j], nmod_mat_entry(B, i, j));
+            conv(A[i][j], NTL::conv<NTL::ZZ>(nmod_mat_entry(B, i, j)));
 }
-- 
2.43.0


From 8e9f6b0cf279e2c39faac6f3ed64ef3f62c1cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 14/20] fix: reduce the step counter before multiplying modulo
 a small modulus

---
 dr_nd/dr_nd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 6af1762..39bf46c 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -846,11 +846,11 @@ void de_Rham_non_degenerate_local::reduce_vector_ND_poly_flint(fmpz * result, fm
                 mul(Gout, poly_nmod + 0, Gin, dot_params);
                 for(int64_t i = 1; i <= n; i++)
                 {
-                    xpower = nmod_mul(xpower, x, mod); // xpower = x^i
+                    xpower = nmod_mul(xpower, x % mod.n, mod); // xpower = x^i
                     mul(Gtmp, poly_nmod + i, Gin, dot_params);
                     _nmod_vec_scalar_addmul_nmod(Gout, Gtmp, dpowern, xpower, mod);
                 }
-                xpower = nmod_mul(xpower, x, mod);
+                xpower = nmod_mul(xpower, x % mod.n, mod);
                 tmp = nmod_vec_dot_compat(nmod_mat_row_srcptr(poly_nmod + n + 1, 0), Gin, dpowern, mod, dot_params);
                 //NMOD_VEC_DOT(tmp, i, dpowern, (poly_nmod + n+1)->rows[0], Gin, mod, nlimbs);
                 tmp = nmod_mul(tmp, xpower, mod);
-- 
2.43.0


From 53824b67ec471857cc553168d6b0bb31852f4661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 15/20] fix: release the temporaries in the mpz matrix-vector
 product

---
 matrix/mul.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matrix/mul.cc b/matrix/mul.cc
index 8467fb4..ae70440 100644
--- a/matrix/mul.cc
+++ b/matrix/mul.cc
@@ -68,6 +68,7 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* v, int64_
         }
         mpz_set(result[i],acc);
     }
+    mpz_clears(tmp,acc,NULL);
 }
 // result = a * v;
 void mul(mpz_t* result, mpz_t a, mpz_t* v, int64_t v_length)
-- 
2.43.0


From bb574ec3d630b2c3e316f3daae5424c841a3e7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 16/20] fix: clear the output when a p-adic system has no
 columns

Passing a U that already had the right shape returned its old off-diagonal
entries.
---
 solve_system/solve_system.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solve_system/solve_system.cc b/solve_system/solve_system.cc
index 885005a..b47f401 100644
--- a/solve_system/solve_system.cc
+++ b/solve_system/solve_system.cc
@@ -343,6 +343,7 @@ void solve_system_padic_flint(Vec<int64_t> &B, Mat<ZZ_p> &U, const Mat<ZZ_p> &T,
     {
         B.SetLength(nrows);
         U.SetDims(nrows,nrows);
+        clear(U);
         for(i = 0; i < nrows; i++)
         {
             B[i] = i;
@@ -501,6 +502,7 @@ void solve_system_padic_NTL(Vec<int64_t> &B, Mat<ZZ_p> &U, const Mat<ZZ_p> &T, i
     {
         B.SetLength(nrows);
         U.SetDims(nrows,nrows);
+        clear(U);
         for(i = 0; i < nrows; i++)
         {
             B[i] = i;
-- 
2.43.0


From 77a7022a68de7e2329430b26b404fa47976c52bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 17/20] fix: do not truncate the file of a save whose marker
 cannot be created

---
 dr/save.cc     | 4 +++-
 dr_nd/dr_nd.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dr/save.cc b/dr/save.cc
index 8d33d64..f92c1e3 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -23,7 +23,9 @@ bool de_Rham_local::save(const char * filename)
     for( it = f.begin(); it != f.end(); it++)
         f_vector[ tuple_dict[d][it->first] ] = it->second;
 
-    file.open(filename, ios::out | ios::trunc);
+    // do not touch the file unless its marker is there
+    if(fileswp.is_open())
+        file.open(filename, ios::out | ios::trunc);
 
     
 
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 39bf46c..935e315 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -271,7 +271,9 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
     for( it = f.begin(); it != f.end(); it++)
         f_vector[ tuple_dict[d][it->first] ] = it->second;
 
-    file.open(filename, ios::out | ios::trunc);
+    // do not touch the file unless its marker is there
+    if(fileswp.is_open())
+        file.open(filename, ios::out | ios::trunc);
 
 
 
-- 
2.43.0


From 2777360e3f5a1af6ca839638f8c3c50b3845b448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 18/20] fix: refuse a file that ends before the nondegenerate
 part instead of indexing an empty vector

---
 dr_nd/dr_nd.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 935e315..3785f80 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -168,6 +168,11 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
         }
 
         file >> Hilbert_ND;
+        if(!file)
+        {
+            cout << "\'"<<filename<<"\' is incomplete"<<endl;
+            abort();
+        }
 
         for( i = 0; i <= n; i++)
         {
-- 
2.43.0


From 55920082aa75532ee3b47d303e29d5625bb088b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:16 +0000
Subject: [PATCH 19/20] fix: do not use the precision of a file that ends
 before it

---
 dr/constructors.cc | 7 ++++++-
 dr_nd/dr_nd.cc     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/dr/constructors.cc b/dr/constructors.cc
index 8a045c4..332e0a7 100644
--- a/dr/constructors.cc
+++ b/dr/constructors.cc
@@ -103,8 +103,13 @@ de_Rham_local::de_Rham_local(const char* filename)
     if(file.is_open())
     {
         file >> p;
-        assert( p == (int64_t)  zz_p::modulus() );
         file >> precision;
+        if(!file)
+        {
+            cout << "\'"<<filename<<"\' is incomplete"<<endl;
+            abort();
+        }
+        assert( p == (int64_t)  zz_p::modulus() );
         assert(  power_ZZ(p, precision) == ZZ_p::modulus() );
         file >> verbose;
         file >> save_memory;
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 3785f80..6101b4b 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -112,8 +112,13 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
     if(file.is_open())
     {
         file >> p;
-        assert( p == (int64_t) zz_p::modulus() );
         file >> precision;
+        if(!file)
+        {
+            cout << "\'"<<filename<<"\' is incomplete"<<endl;
+            abort();
+        }
+        assert( p == (int64_t) zz_p::modulus() );
         assert( power_ZZ(p, precision) == ZZ_p::modulus() );
         file >> verbose;
         file >> save_memory;
-- 
2.43.0


From 5978351850465595bf33e33ad3d5052e9a66b219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 20/20] fix: use multiprecision integers for the coefficients
 of the Frobenius expansion

The products and sums of binomials overflowed int64_t from 62 terms per column
on, and binomial() refused beyond 68; the Frobenius matrix was then wrong
after the first few digits.
---
 hypersurface/frob_J_ZZ.cc          |  4 ++--
 hypersurface/frob_J_ZZ_p.cc        | 12 ++++++------
 hypersurface_nd/hypersurface_nd.cc | 12 ++++++------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/hypersurface/frob_J_ZZ.cc b/hypersurface/frob_J_ZZ.cc
index c018ed1..990b6bd 100644
--- a/hypersurface/frob_J_ZZ.cc
+++ b/hypersurface/frob_J_ZZ.cc
@@ -75,7 +75,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ( const int64_t coordinate, const int64_t N,con
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial_ZZ(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i, j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -252,7 +252,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ( const int64_t coordinate, const int64_t N,con
             Djm = 0;
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i, j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i, j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
diff --git a/hypersurface/frob_J_ZZ_p.cc b/hypersurface/frob_J_ZZ_p.cc
index deb0c93..8d941e6 100644
--- a/hypersurface/frob_J_ZZ_p.cc
+++ b/hypersurface/frob_J_ZZ_p.cc
@@ -11,11 +11,11 @@
 Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, const int64_t loop)
 {
     assert(N > 0);
-    int64_t bin, e, i, j, m, sum, end, val;
+    int64_t e, i, j, m, sum, end, val;
     ZZ_p fact;
     //ZZ factZZ;
     ZZ tmp, remainder;
-    int64_t Djm;
+    ZZ bin, Djm;
     Vec<int64_t> ei, monomial, ones, src, dest, v, y;
     Vec<ZZ_p> F, G, G0, H_last, *H_temp;
     Mat<ZZ_p> Mred;
@@ -65,7 +65,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i, j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -76,7 +76,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
                 monomial = it->first + ei + ones;
                 H_temp = &H[monomial];
                 H_temp->SetLength( dict_V->size() );
-                (*H_temp)[ (*dict_V)[ p * monomial - tweak( p * monomial, d * n - n) ] ] += Djm * it->second * fact;
+                (*H_temp)[ (*dict_V)[ p * monomial - tweak( p * monomial, d * n - n) ] ] += conv<ZZ_p>(Djm) * it->second * fact;
                 /*
                 if( H.find(monomial) == H.end() )
                 {
@@ -229,7 +229,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
             Djm = 0;
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i, j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -239,7 +239,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
             for( it = fpow[j].begin(); it != fpow[j].end(); it++)
             {
                 monomial = p * ( it->first + ei + ones ) - ones;
-                G0[ (*dict_G0)[ monomial ] ] += fact * Djm * it->second;
+                G0[ (*dict_G0)[ monomial ] ] += fact * conv<ZZ_p>(Djm) * it->second;
             }
             F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;
         }
diff --git a/hypersurface_nd/hypersurface_nd.cc b/hypersurface_nd/hypersurface_nd.cc
index e7b382f..6d3dd37 100644
--- a/hypersurface_nd/hypersurface_nd.cc
+++ b/hypersurface_nd/hypersurface_nd.cc
@@ -125,7 +125,7 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ(const int64_t coordinate, cons
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i, j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -271,11 +271,11 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ(const int64_t coordinate, cons
 Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ_p(const int64_t coordinate, const int64_t N, const int64_t loop)
 {
     assert(N > 0);
-    int64_t bin, e, i, j, m, sum, end, val, dpowern;
+    int64_t e, i, j, m, sum, end, val, dpowern;
     ZZ_p fact;
     //ZZ factZZ;
     ZZ tmp, remainder;
-    int64_t Djm;
+    ZZ bin, Djm;
     Vec<int64_t> ei, monomial, ones, src, dest, v, final_dest;
     Vec<ZZ_p> F, G, G0, H_last, *H_temp;
     Mat<ZZ_p> Mred;
@@ -322,7 +322,7 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ_p(const int64_t coordinate, co
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i, j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -333,7 +333,7 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ_p(const int64_t coordinate, co
                 monomial = it->first + ei + ones;
                 H_temp = &H[monomial];
                 H_temp->SetLength( dpowern );
-                (*H_temp)[0] += Djm * it->second * fact;
+                (*H_temp)[0] += conv<ZZ_p>(Djm) * it->second * fact;
             }
         }
         /*
@@ -514,7 +514,7 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_flint(const int64_t coordinate, c
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i, j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
-- 
2.43.0

