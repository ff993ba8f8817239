From 4ecfd9fa388bdd41d8d71f8562ab7bb354263cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:14 +0000
Subject: [PATCH 01/10] fix: default-constructed Vector/Matrix hold no block,
 and assignment keeps the old contents when allocation fails

---
 src/LinearAlgebra/Models/Matrix.h | 12 ++++++------
 src/LinearAlgebra/Models/Vector.h | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/LinearAlgebra/Models/Matrix.h b/src/LinearAlgebra/Models/Matrix.h
index 6693ec9..c6b3787 100644
--- a/src/LinearAlgebra/Models/Matrix.h
+++ b/src/LinearAlgebra/Models/Matrix.h
@@ -93,6 +93,7 @@ protected:
     Matrix<T>::Matrix() {
         this->row = 0;
         this->col = 0;
+        this->values = nullptr;
     }
 
 
@@ -154,16 +155,15 @@ protected:
     template<class T>
     Matrix<T>& Matrix<T>::operator=(const Matrix<T>& _mat){
         if(this != &_mat){
-            if(this->row != 0 && this->col != 0){
-                delete[] this->values;
+            T* values = new T[_mat.row * _mat.col];
+            for(int i = 0; i < _mat.row * _mat.col; i++){
+                values[i] = _mat.values[i];
             }
 
+            delete[] this->values;
             this->row = _mat.row;
             this->col = _mat.col;
-            this->values = new T[this->row * this->col];
-            for(int i = 0; i < this->row * this->col; i++){
-                this->values[i] = _mat.values[i];
-            }
+            this->values = values;
         }
         return *this;
     }
diff --git a/src/LinearAlgebra/Models/Vector.h b/src/LinearAlgebra/Models/Vector.h
index 9102884..f74d05a 100644
--- a/src/LinearAlgebra/Models/Vector.h
+++ b/src/LinearAlgebra/Models/Vector.h
@@ -83,6 +83,7 @@ protected:
     template<class T>
     Vector<T>::Vector(){
         this->size = 0;
+        this->values = nullptr;
     }
 
 
@@ -156,15 +157,14 @@ protected:
     template<class T>
     Vector<T>& Vector<T>::operator=(const Vector<T>& _vec){
         if(this != &_vec){
-            if(this->size != 0){
-                delete[] this->values;
+            T* values = new T[_vec.size];
+            for(int i = 0; i < _vec.size; i++){
+                values[i] = _vec.values[i];
             }
 
+            delete[] this->values;
             this->size = _vec.size;
-            this->values = new T[this->size];
-            for(int i = 0; i < this->size; i++){
-                this->values[i] = _vec.values[i];
-            }
+            this->values = values;
         }
         return *this;
     }
-- 
2.43.0


From 107679aff9918e1062ad931d348db81f38ed65a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:52 +0000
Subject: [PATCH 02/10] fix: CSR::set leaves the matrix unchanged when the
 column index cannot be stored

---
 src/LinearAlgebra/Models/CSR.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/LinearAlgebra/Models/CSR.h b/src/LinearAlgebra/Models/CSR.h
index 85e8527..6cc47cf 100644
--- a/src/LinearAlgebra/Models/CSR.h
+++ b/src/LinearAlgebra/Models/CSR.h
@@ -127,8 +127,14 @@ inline bool CSR<T>::set(int _row, int _col, T _data) {
 	auto colbegin = this->indices.begin() + this->indptr[_row], colend = this->indices.begin() + this->indptr[_row + 1];
 	auto colnow = std::lower_bound(colbegin, colend, _col);
 	if (colnow == colend) {
-		this->data.insert(this->data.begin() + std::distance(this->indices.begin(), colnow), _data);
-		this->indices.insert(colnow, _col);
+		auto datanow = this->data.insert(this->data.begin() + std::distance(this->indices.begin(), colnow), _data);
+		try {
+			this->indices.insert(colnow, _col);
+		}
+		catch (...) {
+			this->data.erase(datanow);
+			throw;
+		}
 		for (auto i = this->indptr.begin() + (_row + 1), iend = this->indptr.end(); i != iend; ++i) {
 			*i += 1;
 		}
@@ -139,8 +145,14 @@ inline bool CSR<T>::set(int _row, int _col, T _data) {
 		return true;
 	}
 	else {
-		this->data.insert(this->data.begin() + std::distance(this->indices.begin(), colnow), _data);
-		this->indices.insert(colnow, _col);
+		auto datanow = this->data.insert(this->data.begin() + std::distance(this->indices.begin(), colnow), _data);
+		try {
+			this->indices.insert(colnow, _col);
+		}
+		catch (...) {
+			this->data.erase(datanow);
+			throw;
+		}
 		for (auto i = this->indptr.begin() + (_row + 1), iend = this->indptr.end(); i != iend; ++i) {
 			*i += 1;
 		}
-- 
2.43.0


From 1e11f2e8bb464ddb00884192e15d02ab564ba799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:09 +0000
Subject: [PATCH 03/10] fix: CSV importers stop and report failure on a read
 error instead of looping for ever

---
 src/PrePost/Import/ImportFromCSV.h | 78 +++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 24 deletions(-)

diff --git a/src/PrePost/Import/ImportFromCSV.h b/src/PrePost/Import/ImportFromCSV.h
index b843d93..f633d18 100644
--- a/src/PrePost/Import/ImportFromCSV.h
+++ b/src/PrePost/Import/ImportFromCSV.h
@@ -32,10 +32,9 @@ namespace PANSFEM2 {
 		std::string str0;
 		std::getline(ifs, str0);
 
-		while (!ifs.eof()) {
-			//.....Read a line.....
-			std::string buf;
-			ifs >> buf;
+		//.....Read a line.....
+		std::string buf;
+		while (ifs >> buf) {
 			std::istringstream sbuf(buf);
 			std::string str;
 
@@ -51,8 +50,14 @@ namespace PANSFEM2 {
 				//.....Add a node.....
 				_nodes.push_back(Vector<T>(x));
 			}
+			if (sbuf.bad()) {
+				return false;
+			}
 		}
 
+		if (ifs.bad()) {
+			return false;
+		}
 		ifs.close();
 
 		return true;
@@ -72,10 +77,9 @@ namespace PANSFEM2 {
 		std::string str0;
 		std::getline(ifs, str0);
 
-		while (!ifs.eof()) {
-			//.....Read a line.....
-			std::string buf;
-			ifs >> buf;
+		//.....Read a line.....
+		std::string buf;
+		while (ifs >> buf) {
 			std::istringstream sbuf(buf);
 			std::string str;
 
@@ -91,8 +95,14 @@ namespace PANSFEM2 {
 				//.....Add an element.....
 				_elements.push_back(element);
 			}
+			if (sbuf.bad()) {
+				return false;
+			}
 		}
 
+		if (ifs.bad()) {
+			return false;
+		}
 		ifs.close();
 
 		return true;
@@ -113,10 +123,9 @@ namespace PANSFEM2 {
 		std::string str0;
 		std::getline(ifs, str0);
 
-		while (!ifs.eof()) {
-			//.....Read a line.....
-			std::string buf;
-			ifs >> buf;
+		//.....Read a line.....
+		std::string buf;
+		while (ifs >> buf) {
 			std::istringstream sbuf(buf);
 			std::string str;
 
@@ -130,8 +139,14 @@ namespace PANSFEM2 {
 					}
 				}
 			}
+			if (sbuf.bad()) {
+				return false;
+			}
 		}
 
+		if (ifs.bad()) {
+			return false;
+		}
 		ifs.close();
 
 		return true;
@@ -152,10 +167,9 @@ namespace PANSFEM2 {
 		std::string str0;
 		std::getline(ifs, str0);
 
-		while (!ifs.eof()) {
-			//.....Read a line.....
-			std::string buf;
-			ifs >> buf;
+		//.....Read a line.....
+		std::string buf;
+		while (ifs >> buf) {
 			std::istringstream sbuf(buf);
 			std::string str;
 
@@ -169,8 +183,14 @@ namespace PANSFEM2 {
 					}
 				}
 			}
+			if (sbuf.bad()) {
+				return false;
+			}
 		}
 
+		if (ifs.bad()) {
+			return false;
+		}
 		ifs.close();
 
 		return true;
@@ -191,10 +211,9 @@ namespace PANSFEM2 {
 		std::string str0;
 		std::getline(ifs, str0);
 
-		while (!ifs.eof()) {
-			//.....Read a line.....
-			std::string buf;
-			ifs >> buf;
+		//.....Read a line.....
+		std::string buf;
+		while (ifs >> buf) {
 			std::istringstream sbuf(buf);
 			std::string str;
 
@@ -209,8 +228,14 @@ namespace PANSFEM2 {
 					}
 				}
 			}
+			if (sbuf.bad()) {
+				return false;
+			}
 		}
 
+		if (ifs.bad()) {
+			return false;
+		}
 		ifs.close();
 
 		return true;
@@ -230,10 +255,9 @@ namespace PANSFEM2 {
 		std::string str0;
 		std::getline(ifs, str0);
 
-		while (!ifs.eof()) {
-			//.....Read a line.....
-			std::string buf;
-			ifs >> buf;
+		//.....Read a line.....
+		std::string buf;
+		while (ifs >> buf) {
 			std::istringstream sbuf(buf);
 			std::string str;
 
@@ -245,8 +269,14 @@ namespace PANSFEM2 {
 				int slaveid = stoi(str);
 				_ufixed.push_back(std::make_pair(masterid, slaveid));
 			}
+			if (sbuf.bad()) {
+				return false;
+			}
 		}
 
+		if (ifs.bad()) {
+			return false;
+		}
 		ifs.close();
 
 		return true;
-- 
2.43.0


From ace1e77a994a288125748a560521dbdab58ed7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:41 +0000
Subject: [PATCH 04/10] fix: CSV importers no longer complete a short record
 with values the file does not contain

---
 src/PrePost/Import/ImportFromCSV.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/PrePost/Import/ImportFromCSV.h b/src/PrePost/Import/ImportFromCSV.h
index f633d18..4c8062e 100644
--- a/src/PrePost/Import/ImportFromCSV.h
+++ b/src/PrePost/Import/ImportFromCSV.h
@@ -47,6 +47,10 @@ namespace PANSFEM2 {
 					x.push_back(stod(str));
 				}
 
+				if (sbuf.bad()) {
+					return false;
+				}
+
 				//.....Add a node.....
 				_nodes.push_back(Vector<T>(x));
 			}
@@ -92,6 +96,10 @@ namespace PANSFEM2 {
 					element.push_back(stoi(str));
 				}
 
+				if (sbuf.bad()) {
+					return false;
+				}
+
 				//.....Add an element.....
 				_elements.push_back(element);
 			}
@@ -221,8 +229,7 @@ namespace PANSFEM2 {
 			std::getline(sbuf, str, ',');
 			if (!str.empty()) {
 				int idn = stoi(str);
-				for (int i = 0; i < _u[idn].SIZE(); i++) {
-					std::getline(sbuf, str, ',');
+				for (int i = 0; i < _u[idn].SIZE() && std::getline(sbuf, str, ','); i++) {
 					if (str != "free") {
 						_u[idn](i) = stod(str);
 					}
@@ -265,7 +272,9 @@ namespace PANSFEM2 {
 			std::getline(sbuf, str, ',');
 			if (!str.empty()) {
 				int masterid = stoi(str);
-				std::getline(sbuf, str, ',');
+				if (!std::getline(sbuf, str, ',')) {
+					return false;
+				}
 				int slaveid = stoi(str);
 				_ufixed.push_back(std::make_pair(masterid, slaveid));
 			}
-- 
2.43.0


From 56f5d27db585cfe3bae100d2d67eeccff7426558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:04 +0000
Subject: [PATCH 05/10] fix: VTK importers return only rows the file contains
 when it ends early

---
 src/PrePost/Import/ImportFromVTK.h  | 26 +++++++++++++++++++++++++-
 src/PrePost/Import/ImportFromVTK2.h | 17 ++++++++++++-----
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/PrePost/Import/ImportFromVTK.h b/src/PrePost/Import/ImportFromVTK.h
index a9b3837..b865fc0 100644
--- a/src/PrePost/Import/ImportFromVTK.h
+++ b/src/PrePost/Import/ImportFromVTK.h
@@ -84,6 +84,10 @@ private:
                     for(int i = 0; i < this->dimension; i++){
                         valuestream >> node(i);
                     }
+                    if(!this->ifs || !valuestream){
+                        nodes.resize(&node - nodes.data());
+                        break;
+                    }
                 }
                 return nodes;
             }
@@ -114,12 +118,16 @@ private:
                 for(auto& element : elements){
                     getline(this->ifs, linestrings);
                     std::stringstream valuestream(linestrings);
-                    int elementsize;
+                    int elementsize = 0;
                     valuestream >> elementsize;
                     element = std::vector<int>(elementsize);
                     for(auto& node : element){
                         valuestream >> node;
                     }
+                    if(!this->ifs || !valuestream){
+                        elements.resize(&element - elements.data());
+                        break;
+                    }
                 }
                 return elements;
             }    
@@ -154,6 +162,10 @@ private:
                         for(int i = 0; i < this->dimension; i++){
                             valuestream >> pointvector(i);
                         }
+                        if(!this->ifs || !valuestream){
+                            pointvectors.resize(&pointvector - pointvectors.data());
+                            break;
+                        }
                     }
                     return pointvectors;
                 }
@@ -188,6 +200,10 @@ private:
                         getline(this->ifs, linestrings);
                         std::stringstream valuestream(linestrings);
                         valuestream >> pointscalar;
+                        if(!this->ifs || !valuestream){
+                            pointscalars.resize(&pointscalar - pointscalars.data());
+                            break;
+                        }
                     }
                     return pointscalars;
                 }
@@ -223,6 +239,10 @@ private:
                         for(int i = 0; i < this->dimension; i++){
                             valuestream >> cellvector(i);
                         }
+                        if(!this->ifs || !valuestream){
+                            cellvectors.resize(&cellvector - cellvectors.data());
+                            break;
+                        }
                     }
                     return cellvectors;
                 }
@@ -257,6 +277,10 @@ private:
                         getline(this->ifs, linestrings);
                         std::stringstream valuestream(linestrings);
                         valuestream >> cellscalar;
+                        if(!this->ifs || !valuestream){
+                            cellscalars.resize(&cellscalar - cellscalars.data());
+                            break;
+                        }
                     }
                     return cellscalars;
                 }
diff --git a/src/PrePost/Import/ImportFromVTK2.h b/src/PrePost/Import/ImportFromVTK2.h
index 8308ef5..2910bab 100644
--- a/src/PrePost/Import/ImportFromVTK2.h
+++ b/src/PrePost/Import/ImportFromVTK2.h
@@ -37,12 +37,14 @@ private:
         std::string tmp;
         while (ifs >> tmp) {
             if (tmp == "POINTS") {
-                int nodesnum;
+                int nodesnum = 0;
                 ifs >> nodesnum;
                 ifs >> tmp;
                 for (int i = 0; i < nodesnum; i++) {
                     T x, y, z;
-                    ifs >> x >> y >> z;
+                    if (!(ifs >> x >> y >> z)) {
+                        break;
+                    }
                     nodes.push_back({ x, y, z });
                 }
             }
@@ -58,18 +60,23 @@ private:
         std::string tmp;
         while (ifs >> tmp) {
             if (tmp == "CELLS") {
-                int elementsnum;
+                int elementsnum = 0;
                 ifs >> elementsnum;
                 ifs >> tmp;
                 for (int i = 0; i < elementsnum; i++) {
-                    int elementnum;
+                    int elementnum = 0;
                     ifs >> elementnum;
                     std::vector<int> element;
                     for (int j = 0; j < elementnum; j++) {
                         int nodeid;
-                        ifs >> nodeid;
+                        if (!(ifs >> nodeid)) {
+                            break;
+                        }
                         element.push_back(nodeid);
                     }
+                    if (!ifs) {
+                        break;
+                    }
                     elements.push_back(element);
                 }
             }
-- 
2.43.0


From 0b773ccebc4400649972df9a760a6fc972e86fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:49 +0000
Subject: [PATCH 06/10] fix: converting a row-list matrix to compressed form no
 longer reorders its source

---
 src/LinearAlgebra/Models/CSR.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LinearAlgebra/Models/CSR.h b/src/LinearAlgebra/Models/CSR.h
index 6cc47cf..e7f24d0 100644
--- a/src/LinearAlgebra/Models/CSR.h
+++ b/src/LinearAlgebra/Models/CSR.h
@@ -96,8 +96,9 @@ inline CSR<T>::CSR(LILCSR<T>& _matrix) : ROWS(_matrix.ROWS), COLS(_matrix.COLS)
 	for (int i = 0; i < this->ROWS; i++) {
 		this->indptr[i + 1] = this->indptr[i] + _matrix.data[i].size();
 
-		std::sort(_matrix.data[i].begin(), _matrix.data[i].end());
-		for (auto matrixj : _matrix.data[i]) {
+		auto matrixi = _matrix.data[i];
+		std::sort(matrixi.begin(), matrixi.end());
+		for (auto matrixj : matrixi) {
 			this->indices.push_back(matrixj.first);
 			this->data.push_back(matrixj.second);
 		}
-- 
2.43.0


From 38c6f24db00a7ebf963a59f89b6a8ef8cece892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:12 +0000
Subject: [PATCH 07/10] fix: OC updates the design at least once, so that it
 never returns uninitialised variables

When lambdamax equals lambdamin, or lambdaeps is 1 or more, the bisection
loop did not run and the objective was called with a vector of zeros and an
uninitialised multiplier was printed.
---
 src/Optimize/Solver/OC.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimize/Solver/OC.h b/src/Optimize/Solver/OC.h
index 7312ef1..3d0d4a5 100644
--- a/src/Optimize/Solver/OC.h
+++ b/src/Optimize/Solver/OC.h
@@ -79,7 +79,7 @@ private:
         //----------Get updated design variables with OC method----------
 		T lambda0 = this->lambdamin, lambda1 = this->lambdamax, lambda;
 		std::vector<T> xkp1 = std::vector<T>(this->n);
-		while((lambda1 - lambda0)/(lambda1 + lambda0) > this->lambdaeps){
+		do{
 			lambda = 0.5*(lambda1 + lambda0);
 
 			for (int i = 0; i < this->n; i++) {
@@ -96,7 +96,7 @@ private:
 			} else {
 				lambda1 = lambda;
 			}
-		}
+		} while((lambda1 - lambda0)/(lambda1 + lambda0) > this->lambdaeps);
 
         std::cout << lambda;
 
-- 
2.43.0


From e5df365fbd6eb9a2fc33d653ec51a513f7e5d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:12 +0000
Subject: [PATCH 08/10] fix: BisectionMethod returns the midpoint when its
 interval is empty

For a zero tridiagonal matrix, or one holding NaN (the start vector of the
Lanczos processes is the diagonal, which may be zero), the loop did not run
and an uninitialised value was returned as the eigenvalue.
---
 src/LinearAlgebra/Solvers/Lanczos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index b0631fa..c602b3b 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -47,7 +47,7 @@ T BisectionMethod(const std::vector<T>& _alpha, const std::vector<T>& _beta, int
         }
     }
 
-    T a1 = -b, a2 = b, lambda;
+    T a1 = -b, a2 = b, lambda = 0.5*(a1 + a2);
     while((a2 - a1) > 1.0e-13*b){
         //----------Update lambda----------
         lambda = 0.5*(a1 + a2);
-- 
2.43.0


From d15073b4aa4839e7539e9989954193e9e561c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:37 +0000
Subject: [PATCH 09/10] fix: a failed MMA update leaves the asymptotes as they
 were

---
 src/Optimize/Solver/MMA.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Optimize/Solver/MMA.h b/src/Optimize/Solver/MMA.h
index e15daa3..63b93ec 100644
--- a/src/Optimize/Solver/MMA.h
+++ b/src/Optimize/Solver/MMA.h
@@ -115,6 +115,19 @@ private:
 
     template<class T>
     void MMA<T>::UpdateVariables(std::vector<T>& _xk, T _f, std::vector<T> _dfdx, std::vector<T> _g, std::vector<std::vector<T> > _dgdx){       
+		//----------Put asymptotes parameter L and U back if this update fails----------
+		struct Asymptotes{
+			MMA<T>& solver;
+			std::vector<T> L, U;
+			bool isupdated;
+			~Asymptotes(){
+				if(!this->isupdated){
+					this->solver.L.swap(this->L);
+					this->solver.U.swap(this->U);
+				}
+			}
+		} asymptotes = { *this, this->L, this->U, false };
+
 		//----------Get asymptotes parameter L and U----------
 		if(this->k < 2){
 			for(int j = 0; j < this->n; j++){
@@ -410,6 +423,8 @@ private:
             }
         }
         
+        asymptotes.isupdated = true;
+
         //----------Update outer loop counter k----------
         this->previousvalue = _f;
         this->k++;
-- 
2.43.0


From 11fdeecfabf62ad99a9fab43791301cb742fd2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:37 +0000
Subject: [PATCH 10/10] fix: iterative solvers return zero instead of NaN for a
 zero right-hand side

---
 src/LinearAlgebra/Solvers/CG.h | 38 +++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/Solvers/CG.h b/src/LinearAlgebra/Solvers/CG.h
index 4f08b25..b1a002b 100644
--- a/src/LinearAlgebra/Solvers/CG.h
+++ b/src/LinearAlgebra/Solvers/CG.h
@@ -119,6 +119,18 @@ inline std::vector<T> zeavpbwpcxpdy(T _a, const std::vector<T>& _v, T _b, const
 }
 
 
+//********************{a}=={0}********************
+template<class T>
+inline bool iszero(const std::vector<T>& _a) {
+	for (const auto& ai : _a) {
+		if (ai != T()) {
+			return false;
+		}
+	}
+	return true;
+}
+
+
 //********************CG method********************
 template<class T>
 std::vector<T> CG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _eps) {
@@ -128,6 +140,9 @@ std::vector<T> CG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _eps) {
 	std::vector<T> pk = rk;
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 	T rkrk = std::inner_product(rk.begin(), rk.end(), rk.begin(), T());
+	if (iszero(_b)) {
+		return xk;
+	}
 
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
@@ -164,6 +179,9 @@ std::vector<T> BiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 	std::vector<T> pk = rk;
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (iszero(_b)) {
+		return xk;
+	}
 
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
@@ -208,6 +226,9 @@ std::vector<T> BiCGSTAB2(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 	T beta = T();
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (iszero(_b)) {
+		return xk;
+	}
 
 	//----------Iteration----------
 	for(int k = 0; k < _itrmax; k++) {
@@ -325,7 +346,10 @@ std::vector<T> ILU0CG(CSR<T>& _A, CSR<T>& _M, const std::vector<T>& _b, int _itr
 	std::vector<T> Mrk = pk;							
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
-	
+	if (iszero(_b)) {
+		return xk;
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Apk = _A*pk;
@@ -362,6 +386,9 @@ std::vector<T> ILU0BiCGSTAB(CSR<T>& _A, CSR<T>& _M, std::vector<T>& _b, int _itr
 	std::vector<T> pk = rk;
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (iszero(_b)) {
+		return xk;
+	}
 
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
@@ -426,6 +453,9 @@ std::vector<T> ScalingCG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _e
 	std::vector<T> Mrk = pk;
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
+	if (iszero(_b)) {
+		return xk;
+	}
 
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
@@ -464,6 +494,9 @@ std::vector<T> ScalingBiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _e
 	std::vector<T> pk = Scaling(D, rk);
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (iszero(_b)) {
+		return xk;
+	}
 
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
@@ -541,6 +574,9 @@ std::vector<T> SORCG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _eps,
 	std::vector<T> Mrk = pk;
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
+	if (iszero(_b)) {
+		return xk;
+	}
 
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
-- 
2.43.0

