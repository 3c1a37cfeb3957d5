From a825e47c74ed8e39ba2fd6dadbe54eaa0b8790a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 01/56] fix: SparseMatrix::erase returns the iterator of the
 next entry's real row

When rows between the erased and the next entry are empty, the returned
iterator kept the first row sharing the row pointer.
---
 src/lib/matrix/SparseMatrix.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index bb62f06..37bcfe1 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -622,8 +622,7 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 			{
 				if (mRowPtr[s1] == it.mColumnPtrIndex)
 				{
-					nIt.mIndex1 = s1;// New row
-					break;
+					nIt.mIndex1 = s1;// New row, the last match skips empty rows
 				}
 				else if (mRowPtr[s1] > it.mColumnPtrIndex)
 				{
-- 
2.43.0


From 68f265111de0aa9b9d1d43ddc8ffb6531626dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 02/56] fix: SparseMatrix::column_begin does not read past the
 last row on an empty column

---
 src/lib/matrix/SparseMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 37bcfe1..db3ff1d 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -518,7 +518,7 @@ const SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i) const
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
@@ -542,7 +542,7 @@ SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i)
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
-- 
2.43.0


From ad1d704ef89d80f607918a1c59159158f8d2f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 03/56] fix: SparseMatrix::swap exchanges the column count too

---
 src/lib/matrix/SparseMatrix.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index db3ff1d..3fd4b68 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -831,6 +831,7 @@ void SparseMatrix<T>::swap(SparseMatrix<T>& v)
 	std::swap(mValues, v.mValues);
 	std::swap(mColumnPtr, v.mColumnPtr);
 	std::swap(mRowPtr, v.mRowPtr);
+	std::swap(mColumnCount, v.mColumnCount);
 }
 
 template<typename T>
-- 
2.43.0


From ea19c68f3373ab9618d1cbdb590d087fa186e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 04/56] fix: SparseMatrix -= with itself gives the zero matrix

---
 src/lib/matrix/SparseMatrix.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 3fd4b68..9e68d2b 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -652,6 +652,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 {
+	if (this == &v2)// The loop below removes entries of v2 while iterating over it
+		return (*this *= (T)0);
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)
 		set(it.row(), it.column(), at(it.row(), it.column()) - *it);
 
-- 
2.43.0


From 5c938444d4935dc54d2d0a7867ad98b738ea197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 05/56] fix: element-wise SparseMatrix *= leaves the shared
 zero element alone

---
 src/lib/matrix/SparseMatrix.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 9e68d2b..449de54 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -670,7 +670,8 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 		Index tmp;
 		T& val = const_cast<T&>(internal_at(it.row(), it.column(), tmp, found));// O(D2)
 
-		val *= *it;
+		if (found)// Else val is the shared zero element
+			val *= *it;
 	}
 
 	for (auto it = begin(); it != end();)// O(D1*D2)
-- 
2.43.0


From a5aacb0e702c7697a28f394a529d99d39757e044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 06/56] fix: max() is right when no element is positive

---
 src/lib/CountableSet.inl        | 2 +-
 src/lib/matrix/BaseMatrix.inl   | 2 +-
 src/lib/matrix/SparseMatrix.inl | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/CountableSet.inl b/src/lib/CountableSet.inl
index 22a8dcd..d584ebf 100644
--- a/src/lib/CountableSet.inl
+++ b/src/lib/CountableSet.inl
@@ -76,7 +76,7 @@ T CountableSet<T, DC>::max() const
 {
 	typedef typename get_complex_internal<T>::type _t;
 
-	_t s = std::numeric_limits<_t>::min();
+	_t s = std::numeric_limits<_t>::lowest();
 	for (Index i = 0; i < size(); ++i)
 	{
 		_t d = complex_abs(mData[i]);
diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 3fc479c..37a11ca 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -372,7 +372,7 @@ T BaseMatrix<T,DC>::sum() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues.Container)
 	{
 		if (l > s)
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 449de54..b82b27c 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -764,7 +764,7 @@ T SparseMatrix<T>::sum() const
 template<typename T>
 T SparseMatrix<T>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues)
 	{
 		if (l > s)
-- 
2.43.0


From 7eed188fa8c264b5599100857fe9d8de8488fd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 07/56] fix: element-wise matrix operators reject operands of
 another shape

DenseMatrix compared only the element count, SparseMatrix nothing at all.
---
 src/lib/matrix/DenseMatrix.inl  | 6 +++---
 src/lib/matrix/SparseMatrix.inl | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index b6aa00b..c76365a 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -59,7 +59,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator +=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -72,7 +72,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator -=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -85,7 +85,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index b82b27c..1c84804 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -643,6 +643,9 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
 		set(it.row(), it.column(), at(it.row(), it.column()) + *it);// O(D1*D2)
 
@@ -652,6 +655,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	if (this == &v2)// The loop below removes entries of v2 while iterating over it
 		return (*this *= (T)0);
 
@@ -664,6 +670,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
 	{
 		bool found;
-- 
2.43.0


From 0bc122718d2eafafa539d183d34e82b4f43e8f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 08/56] fix: FixedMatrix conjugate and adjugate compile

---
 src/lib/matrix/FixedMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index 6dcd48a..c98b05a 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -111,7 +111,7 @@ FixedMatrix<T,K1,K2> FixedMatrix<T,K1,K2>::conjugate() const
 	{
 		for (Index j = 0; j < this->columns(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(i, j)));
+			tmp.set(i, j, complex_conj(this->at(i, j)));
 		}
 	}
 
@@ -126,7 +126,7 @@ FixedMatrix<T,K2,K1> FixedMatrix<T,K1,K2>::adjugate() const
 	{
 		for (Index j = 0; j < this->rows(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(j, i)));
+			tmp.set(i, j, complex_conj(this->at(j, i)));
 		}
 	}
 
-- 
2.43.0


From 53622bfe32a373906cccf2340e5e1bce7749f352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 09/56] fix: MatrixConverter names the dense matrix type that
 exists

---
 src/lib/matrix/MatrixConverter.h   | 2 +-
 src/lib/matrix/MatrixConverter.inl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/MatrixConverter.h b/src/lib/matrix/MatrixConverter.h
index 7742352..ead470c 100644
--- a/src/lib/matrix/MatrixConverter.h
+++ b/src/lib/matrix/MatrixConverter.h
@@ -20,7 +20,7 @@ namespace Convert
 	* @return The new dense matrix.
 	*/
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
 }
 
 NS_END_NAMESPACE
diff --git a/src/lib/matrix/MatrixConverter.inl b/src/lib/matrix/MatrixConverter.inl
index 1c38a06..0a45eae 100644
--- a/src/lib/matrix/MatrixConverter.inl
+++ b/src/lib/matrix/MatrixConverter.inl
@@ -24,9 +24,9 @@ namespace Convert
 	}
 
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
 	{
-		Matrix<T> res(m.rows(), m.columns());
+		DenseMatrix<T> res(m.rows(), m.columns());
 		for (auto it = m.begin(); it != m.end(); ++it)
 		{
 			res.set(it.row(), it.column(), *it);
-- 
2.43.0


From 1a79c5db38e60ab241257b3ee8a58afb67e5bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 10/56] fix: dividing integer vectors by or into a scalar
 divides

The reciprocal of an integer is zero for every divisor but one.
---
 src/lib/Vector.inl | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index c8b41dc..3ffb7a3 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -222,9 +222,9 @@ Vector<T,DC>& Vector<T,DC>::operator /=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator /=(const T& f)
 {
-	T invF = (T)1 / f;// TODO: NAN?
+	const T d = f;// f could be one of our own elements
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] *= invF;
+		this->mData[i] /= d;
 
 	return *this;
 }
@@ -316,9 +316,10 @@ Vector<T,DC> operator /(const Vector<T,DC>& v1, T f)
 template<typename T, class DC>
 Vector<T,DC> operator /(T f, const Vector<T,DC>& v1)
 {
-	Vector<T,DC>tmp = v1;
-	tmp.do_reciprocal();
-	return (tmp *= f);
+	Vector<T,DC> tmp = v1;
+	for (Index i = 0; i < tmp.size(); ++i)
+		tmp.set(i, f / tmp.at(i));
+	return tmp;
 }
 
 // Comparison
-- 
2.43.0


From cb12e741610266213165692bfe8471b7888937af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 11/56] fix: magnitude and negation of complex vectors

magSqr() summed the squares without conjugation, which is neither real nor
positive, and unary minus was ambiguous for dynamic complex vectors.
---
 src/lib/Vector.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index 3ffb7a3..8261758 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -82,7 +82,11 @@ T Vector<T,DC>::mag() const
 template<typename T, class DC>
 T Vector<T,DC>::magSqr() const
 {
-	return dot(*this);
+	T s = 0;
+	for (Index i = 0; i < this->size(); ++i)
+		s += at(i) * complex_conj(at(i));
+
+	return s;
 }
 
 template<typename T, class DC>
@@ -276,7 +280,7 @@ template<typename T, class DC>
 Vector<T,DC> operator -(const Vector<T,DC>& v)
 {
 	Vector<T,DC> tmp = v;
-	return (tmp *= -1);
+	return (tmp *= (T)-1);
 }
 
 template<typename T, class DC>
-- 
2.43.0


From 2bbd5980b81908385c3eb845d42d870991bb4a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 12/56] fix: left, right and mid of dynamic vectors have room
 for their elements

---
 src/lib/Vector.h   |  1 +
 src/lib/Vector.inl | 24 ++++++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/lib/Vector.h b/src/lib/Vector.h
index b304074..c6df326 100644
--- a/src/lib/Vector.h
+++ b/src/lib/Vector.h
@@ -3,6 +3,7 @@
 #include "CountableSet.h"
 
 #include "Exceptions.h"
+#include "Utils.h"
 
 NS_BEGIN_NAMESPACE
 
diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index 8261758..dcd3c6f 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -96,25 +96,37 @@ Vector<T,DC> Vector<T,DC>::normalized() const
 }
 
 // Boolean set operations
-// NOT WORKING
+template<typename T>
+void resize_container(dynamic_container_t<T>& c, size_t size)
+{
+	c.resize(size);
+}
+
+template<typename T, size_t N>
+void resize_container(fixed_container_t<T,N>&, size_t)
+{
+}
+
+// A fixed vector keeps its size, the elements not set are zero
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::left(Index i) const
 {
 	NS_ASSERT(i < this->size());
-	Vector<T,DC> tmp;//Size i+1
+	Vector<T,DC> tmp;
+	resize_container(tmp.mData, i + 1);
 	for (Index j = 0; j < i + 1; ++j)
 		tmp.set(j, at(j));
 
 	return tmp;
 }
 
-// NOT WORKING
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::right(Index i) const
 {
 	NS_ASSERT(i < this->size());
 	
-	Vector<T,DC> tmp;//(this->size() - i)
+	Vector<T,DC> tmp;
+	resize_container(tmp.mData, this->size() - i);
 
 	for (Index j = i; j < this->size(); ++j)
 		tmp.set(j - i, at(j));
@@ -122,13 +134,13 @@ Vector<T,DC> Vector<T,DC>::right(Index i) const
 	return tmp;
 }
 
-// NOT WORKING
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::mid(Index start, Index end) const
 {
 	NS_ASSERT(start < end);
 
-	Vector<T,DC> tmp;//(end-start)
+	Vector<T,DC> tmp;
+	resize_container(tmp.mData, start < this->size() ? t_min(end, this->size()) - start : 0);
 	for (Index i = start; i < end && i < this->size(); ++i)
 		tmp.set(i - start, at(i));
 
-- 
2.43.0


From a145719b53c137879704511701a46ec2c9e6c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 13/56] fix: scaling and shifting by an own element uses its
 value throughout

---
 src/lib/CountableSet.inl        | 3 ++-
 src/lib/Vector.inl              | 9 ++++++---
 src/lib/matrix/DenseMatrix.inl  | 3 ++-
 src/lib/matrix/FixedMatrix.inl  | 3 ++-
 src/lib/matrix/SparseMatrix.inl | 3 ++-
 5 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/lib/CountableSet.inl b/src/lib/CountableSet.inl
index d584ebf..e3085a7 100644
--- a/src/lib/CountableSet.inl
+++ b/src/lib/CountableSet.inl
@@ -155,8 +155,9 @@ bool CountableSet<T, DC>::hasZero() const
 template<typename T, class DC>
 void CountableSet<T, DC>::fill(const T& f)
 {
+	const T d = f;// f could be one of our own elements
 	for (Index i = 0; i < size(); ++i)
-		mData[i] = f;
+		mData[i] = d;
 }
 
 template<typename T, class DC>
diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index dcd3c6f..7c325f5 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -175,8 +175,9 @@ Vector<T,DC>& Vector<T,DC>::operator +=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator +=(const T& f)
 {
+	const T d = f;// f could be one of our own elements
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] += f;
+		this->mData[i] += d;
 
 	return *this;
 }
@@ -196,8 +197,9 @@ Vector<T,DC>& Vector<T,DC>::operator -=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator -=(const T& f)
 {
+	const T d = f;// f could be one of our own elements
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] -= f;
+		this->mData[i] -= d;
 
 	return *this;
 }
@@ -217,8 +219,9 @@ Vector<T,DC>& Vector<T,DC>::operator *=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator *=(const T& f)
 {
+	const T d = f;// f could be one of our own elements
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] *= f;
+		this->mData[i] *= d;
 
 	return *this;
 }
diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index c76365a..a96e8af 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -97,8 +97,9 @@ DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 template<typename T>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const T& f)
 {
+	const T d = f;// f could be one of our own elements
 	for (Index i = 0; i < this->size(); ++i)
-		this->mValues.Container[i] *= f;
+		this->mValues.Container[i] *= d;
 
 	return *this;
 }
diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index c98b05a..fdbfdf7 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -76,8 +76,9 @@ FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const FixedMatrix<T,K1,K
 template<typename T, Dimension K1, Dimension K2>
 FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const T& f)
 {
+	const T d = f;// f could be one of our own elements
 	for (Index i = 0; i < this->size(); ++i)
-		this->mValues.Container[i] *= f;
+		this->mValues.Container[i] *= d;
 
 	return *this;
 }
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 1c84804..ca49506 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -705,8 +705,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const T& f)
 	}
 	else
 	{
+		const T d = f;// f could be one of our own elements
 		for (auto it = begin(); it != end(); ++it)// O(D1*D2)
-			*it *= f; // O(1)
+			*it *= d; // O(1)
 	}
 
 	return *this;
-- 
2.43.0


From 13aaafd75a653fb4788f3f4f8e971b29fdf3afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 14/56] fix: doolittle frees its row table when it throws

---
 src/lib/LU.inl | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index dc29013..07ab032 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -63,7 +63,7 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
 				L.set(i, i, (T)1);
@@ -127,8 +127,6 @@ namespace LU {
 			// Build pivot matrix
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		/* TODO: Optimize*/
@@ -146,7 +144,7 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
 				L.set(i, i, (T)1);
@@ -211,8 +209,6 @@ namespace LU {
 			P = SparseMatrix<T>(n,n);
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		template<typename T>
-- 
2.43.0


From ffc894cc1c82e7e6f96b47b68ef8c13bc990a4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 15/56] fix: dense doolittle does not depend on what L and P
 held before

Operations::inverse passes copies of the matrix.
---
 src/lib/LU.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 07ab032..e06d7b2 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -66,6 +66,12 @@ namespace LU {
 			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
+				for (Index j = 0; j < n; ++j)// The outputs could contain anything
+				{
+					L.set(i, j, (T)0);
+					P.set(i, j, (T)0);
+				}
+
 				L.set(i, i, (T)1);
 				rowTable[i] = i;
 			}
-- 
2.43.0


From d108111e089ecea740ebfadbd1264960bd8a1a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 16/56] fix: inverse from L and U divides the element of the
 current column

---
 src/lib/matrix/MatrixOperations.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/matrix/MatrixOperations.inl b/src/lib/matrix/MatrixOperations.inl
index f06e221..45dbec3 100644
--- a/src/lib/matrix/MatrixOperations.inl
+++ b/src/lib/matrix/MatrixOperations.inl
@@ -99,7 +99,7 @@ namespace Operations
 				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
 					throw SingularException();
 				
-				Inv.set(j,j, Inv.at(j,j) / mid);
+				Inv.set(j,i, Inv.at(j,i) / mid);
 
 				if(j == 0)
 					break;
-- 
2.43.0


From d1d92d436dda617017fce8b67a738446d8689a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 17/56] fix: cholesky rejects every matrix that is not positive
 definite

A zero pivot gave NaN and a negative one was accepted for complex matrices,
whose products were not conjugated either. The output is complete and does not
depend on what L held before.
---
 src/lib/LU.inl | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index e06d7b2..00072d3 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -27,19 +27,22 @@ namespace LU {
 				for (Index k = 0; k < j; ++k)
 				{
 					T v = L.at(j, k);
-					s += v*v;
+					s += v*complex_conj(v);
 				}
 
 				s = m.at(j, j) - s;
-				if (!sqrt_allowed(s))
+				if (!(std::real(s) > 0))// Has no imaginary part
 					throw NotPositiveDefiniteException();
 
+				for (Index i = 0; i < j; ++i)
+					L.set(i, j, (T)0);
+
 				L.set(j, j, std::sqrt(s));
 				for (Index i = j; i < L.rows(); ++i)
 				{
 					s = (T)0;
-					for (Index k = 0; k < i; ++k)
-						s += L.at(i, k)*L.at(j, k);
+					for (Index k = 0; k < j; ++k)
+						s += L.at(i, k)*complex_conj(L.at(j, k));
 					L.set(i, j, (m.at(i, j) - s) / L.at(j, j));
 				}
 			}
-- 
2.43.0


From 78f00486148ad39d7376388b65783fb4a8905c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 18/56] fix: ainv_lu computes the inverse of U and ignores old
 outputs

The backward substitution started at the wrong row and divided by the
diagonal twice.
---
 src/lib/LU.inl | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 00072d3..65c77c8 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -352,7 +352,7 @@ namespace LU {
 
 				for(Index i = k+1; i < N; ++i)
 				{
-					T m = invL.at(i,k);
+					T m = (T)0;
 
 					auto it = L.row_begin(i);
 					while(it != L.row_end(i) && it.column() < k)// Skipping. Is zero
@@ -365,11 +365,9 @@ namespace LU {
 				}
 
 				// U
-				invU.set(k,k, 1/U.at(k,k));
-				
-				for(Index i = (N-1)-k; ; --i)
+				for(Index i = k; ; --i)
 				{
-					T m = invU.at(i,k);
+					T m = (T)(i == k ? 1 : 0);
 
 					auto it = U.row_begin(i);
 					while(it != U.row_end(i) && it.column() < i+1)// Skipping. Is zero
-- 
2.43.0


From 4142392211595dde0c08162b475c4c7cc400dfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 19/56] fix: ilu0 does not depend on what L and U held before

---
 src/lib/LU.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 65c77c8..2c1765f 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -247,6 +247,8 @@ namespace LU {
 			}
 
 			// Seperate M into L and U
+			L = SparseMatrix<T>(A.rows(), A.columns());
+			U = SparseMatrix<T>(A.rows(), A.columns());
 			for(auto it = M.begin(); it != M.end(); ++it)
 			{
 				if(it.column() == it.row())
-- 
2.43.0


From c8210490d2f4b5c6e62cff438ba0b2be85335e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 20/56] fix: jacobi and sor report a zero in the diagonal

Only NaN was noticed, an infinite result was returned as converged.
---
 src/lib/Iterative.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 19a1cdb..4bf6d90 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -39,6 +39,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					xm.set(i, (b.at(i) - t) / mid);
 				}
 
@@ -100,6 +103,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					t = (b.at(i) - t) / mid;
 					xm.set(i, rweight*xm.at(i) + weight*t);
 				}
-- 
2.43.0


From ea0cc4dcba6b8567d68578ce388cfe029f646c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 21/56] fix: sor relaxes its first sweep from x0 instead of
 zero

---
 src/lib/Iterative.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 4bf6d90..ef9b9a0 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -85,7 +85,6 @@ namespace Iterative
 
 			V x = x0;
 			V xm = x0;
-			xm.fill((T)0);
 
 			for (size_t it = 0; it < maxIter; ++it)
 			{
-- 
2.43.0


From a5195c9fdda9dc068420d3042eb50fcfa09382e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 22/56] fix: cg builds the next direction from the last
 direction

---
 src/lib/CG.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 7678225..f80d5e0 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -42,7 +42,7 @@ namespace CG {
 
 				const typename V2::value_type bk = ls / rs;
 
-				p = l + bk*r;
+				p = l + bk*p;
 				r = l;
 				rs = ls;
 			}
-- 
2.43.0


From 85e0786c1774ff8fb531c3a27dea9141e2a57a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 23/56] fix: cg and pcg return an exact start instead of NaN

---
 src/lib/CG.inl | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index f80d5e0..0d59bf9 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -26,6 +26,13 @@ namespace CG {
 			V2 p = r;
 
 			typename V2::value_type rs = r.magSqr();
+			if (rs <= eps2)// x0 is already the solution
+			{
+				if (it_stat)
+					*it_stat = 0;
+
+				return x;
+			}
 
 			V2 l;
 			size_t k = 0;
@@ -37,7 +44,7 @@ namespace CG {
 				l = r - ak*t;
 
 				const auto ls = l.magSqr();
-				if (ls < eps2 || k == maxIter-1)
+				if (ls <= eps2 || k == maxIter-1)
 					break;
 
 				const typename V2::value_type bk = ls / rs;
@@ -75,6 +82,14 @@ namespace CG {
 
 			V1 x = x0;
 			V2 r = b - a.mul(x0);
+			if (r.magSqr() <= eps2)// x0 is already the solution
+			{
+				if (it_stat)
+					*it_stat = 0;
+
+				return x;
+			}
+
 			V2 z = c.mul(r);
 			V2 p = z;
 
@@ -88,7 +103,7 @@ namespace CG {
 				x += ak*p;
 				r -= ak*t;
 
-				if (r.magSqr() < eps2 || k == maxIter-1)
+				if (r.magSqr() <= eps2 || k == maxIter-1)
 					break;
 
 				z = c.mul(r);
-- 
2.43.0


From 95011a2bba84fa37b1ffa681486930efdb109f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 24/56] fix: ainv_lu clears the part of its outputs it does not
 compute

---
 src/lib/LU.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 2c1765f..4fbeb68 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -349,6 +349,12 @@ namespace LU {
 
 			for(Index k = 0; k < N; ++k)
 			{
+				for(Index i = 0; i < k; ++i)
+				{
+					invL.set(i,k, (T)0);
+					invU.set(k,i, (T)0);
+				}
+
 				// L
 				invL.set(k,k, 1);// Assuming L has only ones as diagonal entries
 
-- 
2.43.0


From 01dda4c4cf1e927523eab89d2d48484a83c83f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 25/56] fix: inverse_permutation can be included in several
 translation units

---
 src/lib/matrix/MatrixOrder.h   | 2 +-
 src/lib/matrix/MatrixOrder.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/MatrixOrder.h b/src/lib/matrix/MatrixOrder.h
index a02d229..c18af48 100644
--- a/src/lib/matrix/MatrixOrder.h
+++ b/src/lib/matrix/MatrixOrder.h
@@ -28,7 +28,7 @@ DynamicVector<Index> r_cuthill_mckee(const SparseMatrix<T>& m);
 template<typename T>
 SparseMatrix<T> permutation_matrix(const DynamicVector<Index>& permutation);
 
-DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation);
+inline DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation);
 
 /**
 * @brief Reorders the given matrix based on the permuation
diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index a665e96..60e2e3c 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -114,7 +114,7 @@ SparseMatrix<T> permutation_matrix(const DynamicVector<Index>& permutation)
 	return nm;
 }
 
-DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation)
+inline DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation)
 {
 	DynamicVector<Index> np(permutation.size());
 	for(Index i = 0; i < permutation.size(); ++i)
-- 
2.43.0


From 6bf0f6078cfd79f60151530affb19d76c8fc6a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 26/56] fix: cuthill_mckee orders empty rows too

The result was no permutation when a row had no entries.
---
 src/lib/matrix/MatrixOrder.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index 60e2e3c..5e1eda1 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -29,8 +29,7 @@ DynamicVector<Index> cuthill_mckee(const SparseMatrix<T>& m)
 	for(Index i = 0; i < m.rows(); ++i)
 	{
 		Index mc = m.row_filled_count(i);
-		if(mc > 0)
-			Rows.insert(std::pair<Dimension, Index>(mc, i));
+		Rows.insert(std::pair<Dimension, Index>(mc, i));
 	}
 	
 	while(!Rows.empty())
-- 
2.43.0


From 7eb5689ba60cf9e38b08780efdd3bc5001d3f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 27/56] fix: permutate moves vector elements like matrix rows

The matrix version computes P A P^T, the vector version computed P^T v.
---
 src/lib/matrix/MatrixOrder.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index 5e1eda1..569a929 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -143,7 +143,7 @@ DynamicVector<T> permutate(const DynamicVector<T>& m, const DynamicVector<Index>
 
 	DynamicVector<T> nm(m.size());
 	for(Index i = 0; i < m.size(); ++i)
-		nm.set(permutation[i], m[i]);
+		nm.set(i, m[permutation[i]]);
 
 	return nm;
 }
-- 
2.43.0


From 200abfac5e7521093f0200aba2259d8c9b4c946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 28/56] fix: Simplex::center is the center of the outer circle

It multiplied by the determinant instead of dividing and stayed relative to
the first vertex.
---
 src/lib/Simplex.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Simplex.inl b/src/lib/Simplex.inl
index 0dc69b0..db0ba50 100644
--- a/src/lib/Simplex.inl
+++ b/src/lib/Simplex.inl
@@ -83,7 +83,7 @@ typename Simplex<T,K>::vertex_t Simplex<T,K>::center() const
 	vertex_t v;
 	v[0] = b[1]*a.magSqr() - a[1]*b.magSqr();
 	v[1] = a[0]*b.magSqr() - b[0]*a.magSqr();
-	return v / (T)2 * mDeterminant;
+	return v / ((T)2 * (a[0]*b[1] - a[1]*b[0])) + mVertices[0];
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From 5e6303a9870347a774e743051fee4c51b0c44e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 29/56] fix: HyperCube puts elements[0] columns along the first
 axis

The step sizes already did, so the mesh missed its size when the counts
differed.
---
 src/lib/mesh/HyperCube.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/mesh/HyperCube.inl b/src/lib/mesh/HyperCube.inl
index 6bfa5db..ca8b386 100644
--- a/src/lib/mesh/HyperCube.inl
+++ b/src/lib/mesh/HyperCube.inl
@@ -40,10 +40,10 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	ey.fill((T)0);
 	ey[1] = size[1]/(T)elements[1];
 	
-	MV** lastRowVertices = new MV*[elements[1]+1];
+	MV** lastRowVertices = new MV*[elements[0]+1];
 
 	// Generate first row
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 	{
 		MV* v = new MV(offset + ex*(T)j);
 		v->Flags |= MVF_StrongBoundary;
@@ -52,7 +52,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	}
 
 	// Iterate over rows
-	for(Index i = 1; i <= elements[0]; ++i)
+	for(Index i = 1; i <= elements[1]; ++i)
 	{
 		const auto py = ey*(T)i;
 		MV* lastVertex = new MV(offset + py);
@@ -60,7 +60,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		mesh.addVertex(lastVertex);
 
-		for(Index j = 1; j <= elements[1]; ++j)
+		for(Index j = 1; j <= elements[0]; ++j)
 		{
 			MV* v = new MV(offset + ex*(T)j + py);
 			mesh.addVertex(v);
@@ -83,11 +83,11 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		lastVertex->Flags |= MVF_StrongBoundary;// Set last column as boundary
 
-		lastRowVertices[elements[1]] = lastVertex;
+		lastRowVertices[elements[0]] = lastVertex;
 	}
 
 	// Set last row as boundary
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 		lastRowVertices[j]->Flags |= MVF_StrongBoundary;
 
 
-- 
2.43.0


From 6003afd131aaed6743cbe4016b828d7280b6e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 30/56] fix: clearing or destroying a mesh deletes its edges

---
 src/lib/mesh/Mesh.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 7d85878..e09048e 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -124,6 +124,10 @@ void Mesh<T,K>::clear()
 	for(auto ptr : mData->Elements)
 		delete ptr;
 	mData->Elements.clear();
+
+	for(auto ptr : mData->Edges)
+		delete ptr;
+	mData->Edges.clear();
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From ea1817a89920eb49d5d5e3032e7c56052027ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 31/56] fix: assigning a mesh to itself does not destroy it

---
 src/lib/mesh/Mesh.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index e09048e..0c4e025 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -77,6 +77,9 @@ Mesh<T,K>::~Mesh()
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 {
+	if(mData == other.mData)// Same mesh, nothing to release
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
@@ -97,6 +100,9 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
 {
+	if(this == &other)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-- 
2.43.0


From 543202459024ce83b9b30de7211ccd16b1ee11ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 32/56] fix: a moved mesh can be copied and assigned from

---
 src/lib/mesh/Mesh.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 0c4e025..71bbb0f 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -49,7 +49,8 @@ template<typename T, Dimension K>
 Mesh<T,K>::Mesh(const Mesh<T,K>& other)
 {
 	mData = other.mData;
-	mData->Refs++;
+	if(mData)// Else moved
+		mData->Refs++;
 }
 
 template<typename T, Dimension K>
@@ -92,7 +93,8 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 	}
 
 	mData = other.mData;
-	mData->Refs++;
+	if(mData)// Else moved
+		mData->Refs++;
 	
 	return *this;
 }
-- 
2.43.0


From cee553da25a7d225603cd95469f256b4ebc50909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 33/56] fix: PolyShapeFunction has as many degrees of freedom
 as components

(K+1)*Order is too small for cubic triangles and quadratic tetrahedra, which
aborted, and too big for quadratic lines.
---
 src/lib/sf/PolyShapeFunction.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.h b/src/lib/sf/PolyShapeFunction.h
index 8911902..aa9a900 100644
--- a/src/lib/sf/PolyShapeFunction.h
+++ b/src/lib/sf/PolyShapeFunction.h
@@ -14,7 +14,8 @@ template<typename T, Dimension K, Dimension Order>
 class PolyShapePolicy
 {
 public:
-	static constexpr Dimension DOF = (K+1)*Order;// Wrong, but works for Order < 3
+	// Count of polynomials in K variables up to the given order
+	static constexpr Dimension DOF = Math::factorial<Dimension>(K+Order)/(Math::factorial<Dimension>(K)*Math::factorial<Dimension>(Order));
 
 	// For the standard k-simplex
 	T value(Index localComponent, const FixedVector<T,K>& local) const;
-- 
2.43.0


From e0f7b516ef29fa114999a03d5a82f2ce9ebdb64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 34/56] fix: second derivative in y of cubic triangle shape
 functions

The derivative of x*y*y is 2*x.
---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index c89473e..d84a35c 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -328,7 +328,7 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient2(Index localComponent, con
                 + nodeValues[6]*2*PSF_Coeff_2D_3[localComponent][6]*local[1]
                 + nodeValues[8]*6*PSF_Coeff_2D_3[localComponent][8]*local[0];
             g[1] = nodeValues[5]*2*PSF_Coeff_2D_3[localComponent][5]
-                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[1]
+                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[0]
                 + nodeValues[9]*6*PSF_Coeff_2D_3[localComponent][9]*local[1];
         }
     }
-- 
2.43.0


From 48ce686908cbb13ffe54352d851545ee15f7a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 35/56] fix: binom(n,k) is zero for k > n

---
 src/lib/Utils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/Utils.h b/src/lib/Utils.h
index b677078..38df163 100644
--- a/src/lib/Utils.h
+++ b/src/lib/Utils.h
@@ -45,6 +45,9 @@ namespace Math
 		if (k == 0)
 			return 1;
 
+		if ((T)k > n)
+			return 0;
+
 		if (2 * (T)k > n)//Really cast to T? What is with signed?
 			return binom(n, static_cast<k_t>(n - k));
 
-- 
2.43.0


From b53344a7c8c6c4d75988ad5f4e6250d4a1d45cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 36/56] fix: MeshTriangleLoader notices numbers that are
 missing or malformed

The position behind a number ending its line was taken from a failed tellg,
so the parser went back in the line or before it, and text counted as zero.
---
 src/lib/loader/MeshTriangleLoader.h   |  4 +-
 src/lib/loader/MeshTriangleLoader.inl | 73 ++++++++++++++-------------
 2 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.h b/src/lib/loader/MeshTriangleLoader.h
index d5badfd..890c28b 100644
--- a/src/lib/loader/MeshTriangleLoader.h
+++ b/src/lib/loader/MeshTriangleLoader.h
@@ -24,8 +24,8 @@ private:
 		std::string::const_iterator end);
 	
 	template<typename T2>
-	static T2 extractFirstNumber(std::string::const_iterator& it,
-		std::string::const_iterator end);
+	static bool extractFirstNumber(std::string::const_iterator& it,
+		std::string::const_iterator end, T2& ret);
 
 	static void setupNode(Mesh<T,2>& mesh, const std::string& nodeStr);
 	static void setupElement(Mesh<T,2>& mesh, const std::string& eleStr);
diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 5449ec9..8ca4c0c 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -33,6 +33,7 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 	uint32 parseMode = 0;
 	uint32 indexShift = 1;
 	size_t nextIndex = 0;
+	size_t nodes = 0;
 
 	std::istringstream f(nodeStr);
     std::string line;    
@@ -46,13 +47,12 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes = extractFirstNumber<size_t>(it, line.end());
-
-			if(nodes == 0)
+			if(!extractFirstNumber(it, line.cend(), nodes) || nodes == 0)
 				throw LoadTriangleNodeErrorException();
 
 			skipWS(it, line.end());
-			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 2)
+			int dim;
+			if(!extractFirstNumber(it, line.cend(), dim) || dim != 2)
 				throw LoadTriangleNodeErrorException();
 			
 			mesh.reserveVertices(nodes);
@@ -61,7 +61,10 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 		}
 		else// Vertices
 		{
-			size_t index = extractFirstNumber<size_t>(it, line.end());
+			size_t index;
+			if(!extractFirstNumber(it, line.cend(), index))
+				throw LoadTriangleNodeErrorException();
+
 			if(index == 0)
 				indexShift = 0;
 			
@@ -70,17 +73,15 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 			nextIndex = index-indexShift + 1;
 			
 			skipWS(it, line.end());
-			if(it == line.end())
+			T e1;
+			if(!extractFirstNumber(it, line.cend(), e1))
 				throw LoadTriangleNodeErrorException();
-			
-			T e1 = extractFirstNumber<T>(it, line.end());
 
 			skipWS(it, line.end());
-			if(it == line.end())
+			T e2;
+			if(!extractFirstNumber(it, line.cend(), e2))
 				throw LoadTriangleNodeErrorException();
 
-			T e2 = extractFirstNumber<T>(it, line.end());
-
 			// Everything else is ignored
 
 			MeshVertex<T,2>* mv = new MeshVertex<T,2>(FixedVector<T,2>{e1,e2});
@@ -95,6 +96,7 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 	uint32 parseMode = 0;
 	uint32 indexShift = 1;
 	size_t nextIndex = 0;
+	size_t nodes = 0;
 
 	std::istringstream f(eleStr);
     std::string line;    
@@ -108,13 +110,12 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes = extractFirstNumber<size_t>(it, line.end());
-
-			if(nodes == 0)
+			if(!extractFirstNumber(it, line.cend(), nodes) || nodes == 0)
 				throw LoadTriangleElementErrorException();
 
 			skipWS(it, line.end());
-			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 3)
+			int corners;
+			if(!extractFirstNumber(it, line.cend(), corners) || corners != 3)
 				throw LoadTriangleElementErrorException();
 			
 			mesh.reserveVertices(nodes);
@@ -123,7 +124,10 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 		}
 		else// Vertices
 		{
-			size_t index = extractFirstNumber<size_t>(it, line.end());
+			size_t index;
+			if(!extractFirstNumber(it, line.cend(), index))
+				throw LoadTriangleElementErrorException();
+
 			if(index == 0)
 				indexShift = 0;
 			
@@ -132,22 +136,19 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 			nextIndex = index-indexShift + 1;
 			
 			skipWS(it, line.end());
-			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
-			
-			size_t i1 = extractFirstNumber<size_t>(it, line.end());
+			size_t i1;
+			if(!extractFirstNumber(it, line.cend(), i1))
+				throw LoadTriangleElementErrorException();
 
 			skipWS(it, line.end());
-			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
-
-			size_t i2 = extractFirstNumber<size_t>(it, line.end());
+			size_t i2;
+			if(!extractFirstNumber(it, line.cend(), i2))
+				throw LoadTriangleElementErrorException();
 
 			skipWS(it, line.end());
-			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
-
-			size_t i3 = extractFirstNumber<size_t>(it, line.end());
+			size_t i3;
+			if(!extractFirstNumber(it, line.cend(), i3))
+				throw LoadTriangleElementErrorException();
 
 			// Everything else is ignored
 
@@ -181,15 +182,19 @@ void MeshTriangleLoader<T>::skipWS(std::string::const_iterator& it,
 
 template<typename T>
 template<typename T2>
-T2 MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
-	std::string::const_iterator end)
+bool MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
+	std::string::const_iterator end, T2& ret)
 {
 	std::stringstream stream(std::string(start, end));
-	T2 ret = 0;
-	stream >> ret;
-	start += stream.tellg();
+	if(!(stream >> ret))
+		return false;
+
+	if(stream.eof())// tellg would fail
+		start = end;
+	else
+		start += stream.tellg();
 
-	return ret;
+	return start == end || isspace(*start) || *start == '#';
 }
 
 NS_END_NAMESPACE
\ No newline at end of file
-- 
2.43.0


From cd1c23126df51600782e80a85a9a0e9d043ba877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 37/56] fix: MeshTriangleLoader rejects elements with vertices
 that do not exist

---
 src/lib/loader/MeshTriangleLoader.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 8ca4c0c..e03da10 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -152,6 +152,10 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 			// Everything else is ignored
 
+			const size_t count = mesh.vertices().size();
+			if(i1-indexShift >= count || i2-indexShift >= count || i3-indexShift >= count)
+				throw LoadTriangleElementErrorException();
+
 			MeshElement<T,2>* me = new MeshElement<T,2>();
 			me->Vertices[0] = mesh.vertex(i1-indexShift);
 			me->Vertices[1] = mesh.vertex(i2-indexShift);
-- 
2.43.0


From 31b0f36437d8fb3601bdb944ea04edeadf3f8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 38/56] fix: MeshTriangleLoader rejects files that are missing,
 empty or cut off

The counts in the headers were not compared with what followed, and too big
ones ended in an allocation failure.
---
 src/lib/loader/MeshTriangleLoader.inl | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index e03da10..74019fd 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -47,7 +47,7 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 
 		if(parseMode == 0)//First Line
 		{
-			if(!extractFirstNumber(it, line.cend(), nodes) || nodes == 0)
+			if(!extractFirstNumber(it, line.cend(), nodes) || nodes == 0 || nodes > nodeStr.size())
 				throw LoadTriangleNodeErrorException();
 
 			skipWS(it, line.end());
@@ -88,6 +88,10 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 			mesh.addVertex(mv);
 		}
     }
+
+	// Nothing may be missing
+	if(parseMode == 0 || nextIndex != nodes)
+		throw LoadTriangleNodeErrorException();
 }
 
 template<typename T>
@@ -110,7 +114,7 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 		if(parseMode == 0)//First Line
 		{
-			if(!extractFirstNumber(it, line.cend(), nodes) || nodes == 0)
+			if(!extractFirstNumber(it, line.cend(), nodes) || nodes == 0 || nodes > eleStr.size())
 				throw LoadTriangleElementErrorException();
 
 			skipWS(it, line.end());
@@ -164,6 +168,10 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 			mesh.addElement(me);
 		}
     }
+
+	// Nothing may be missing
+	if(parseMode == 0 || nextIndex != nodes)
+		throw LoadTriangleElementErrorException();
 }
 
 template<typename T>
-- 
2.43.0


From 01de6632d72f80404e4b9611f8ca3961f021c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 39/56] fix: VTKExporter writes meshes without point data

It dereferenced the end of the map.
---
 src/lib/export/VTKExporter.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 1a3de4d..231c68a 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -92,7 +92,10 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "</Cells>" << std::endl;
 
 	// Point data
-	stream << "<PointData Scalars=\"" << pointData.begin()->first << "\">" << std::endl;
+	stream << "<PointData";
+	if(!pointData.empty())
+		stream << " Scalars=\"" << pointData.begin()->first << "\"";
+	stream << ">" << std::endl;
 	for(auto res : pointData)
 	{
 		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
-- 
2.43.0


From 2a9f11196e33d47a7cf51b25a2bb544ba65f34e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 40/56] fix: VTKExporter announces as many gradient components
 as it writes

---
 src/lib/export/VTKExporter.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 231c68a..bc227c0 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -157,7 +157,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	if(outputOptions & VOO_ElementGradient)
 	{
 		stream << "<DataArray Name=\"ElementGradient\" type=\"Float32\" NumberOfComponents=\"" 
-			<< (K*K) << "\" format=\"ascii\">" << std::endl;
+			<< K << "\" format=\"ascii\">" << std::endl;
 		for (MeshElement<T,K>* elem : mesh.elements())
 		{
 			const auto M = elem->Element.gradient(0);
-- 
2.43.0


From d3f8db186c7e4f805a963c1c7bbc4a2925ac41bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 41/56] fix: VTKExporter writes the connectivity of meshes not
 prepared for a shape function

---
 src/lib/export/VTKExporter.inl | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index bc227c0..62632a2 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -42,8 +42,16 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "<DataArray type=\"Int32\" Name=\"connectivity\" format=\"ascii\">" << std::endl;
 	for (MeshElement<T,K>* elem : mesh.elements())
 	{
-		for(auto v : elem->DOFVertices)
-			stream << v->GlobalIndex << " ";
+		if(elem->DOFVertices.empty())// Not prepared for a shape function
+		{
+			for(auto v : elem->Vertices)
+				stream << v->GlobalIndex << " ";
+		}
+		else
+		{
+			for(auto v : elem->DOFVertices)
+				stream << v->GlobalIndex << " ";
+		}
 		stream << std::endl;
 	}
 	stream << "</DataArray>" << std::endl;
-- 
2.43.0


From 63b0445be0812d3c03fa232c40237385693ab8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 42/56] fix: MeshObjLoader does not leak an element with a bad
 index

---
 src/objloader/loader/MeshObjLoader.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/objloader/loader/MeshObjLoader.inl b/src/objloader/loader/MeshObjLoader.inl
index e238b1f..183e024 100644
--- a/src/objloader/loader/MeshObjLoader.inl
+++ b/src/objloader/loader/MeshObjLoader.inl
@@ -59,13 +59,16 @@ Mesh<T,2> MeshObjLoader<T,yI,xI>::load(const std::vector<tinyobj::shape_t>& shap
 
 		for (size_t i = 0; i < elementCount; ++i)
 		{
+			for (Dimension j = 0; j < 3; ++j)
+			{
+				if(shape.mesh.indices[3 * i + j] >= vertexCount)
+					throw LoadObjErrorException();
+			}
+
 			ME* s = new ME();
 			for (Dimension j = 0; j < 3; ++j)
 			{
 				Index idx = shape.mesh.indices[3 * i + j];
-				if(idx >= vertexCount)
-					throw LoadObjErrorException();
-				
 				s->Vertices[j] = mesh.vertex(idx);
 			}
 
-- 
2.43.0


From b2b82796135da1260cc95e48cb9c83fc20f95557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 43/56] fix: loading an obj file rejects faces with missing
 vertices

A vertex index out of range failed an assertion or read out of bounds, and so
did a face with one vertex.
---
 src/objloader/external/tiny_obj_loader.h | 34 ++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 820d0bf..6e06aeb 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -609,6 +609,28 @@ static void InitMaterial(material_t &material) {
   material.unknown_parameter.clear();
 }
 
+// Faces have at least three vertices, and all of them exist
+static bool checkFaceGroup(
+    const std::vector<float> &in_positions,
+    const std::vector<std::vector<vertex_index> > &faceGroup,
+    std::string &err) {
+  const size_t count = in_positions.size() / 3;
+  for (size_t i = 0; i < faceGroup.size(); i++) {
+    bool ok = faceGroup[i].size() >= 3;
+    for (size_t k = 0; ok && k < faceGroup[i].size(); k++) {
+      const int idx = faceGroup[i][k].v_idx;
+      ok = idx >= 0 && static_cast<size_t>(idx) < count;
+    }
+
+    if (!ok) {
+      err += "Face with missing vertices.\n";
+      return false;
+    }
+  }
+
+  return true;
+}
+
 static bool exportFaceGroupToShape(
     shape_t &shape, std::map<vertex_index, unsigned int> vertexCache,
     const std::vector<float> &in_positions,
@@ -1111,6 +1133,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
       if (newMaterialId != material) {
         // Create per-face material
+        if (!checkFaceGroup(v, faceGroup, err))
+          return false;
+
         exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                material, name, true, flags, err );
         faceGroup.clear();
@@ -1146,6 +1171,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     if (token[0] == 'g' && IS_SPACE((token[1]))) {
 
       // flush previous face group.
+      if (!checkFaceGroup(v, faceGroup, err))
+        return false;
+
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                  material, name, true, flags, err );
@@ -1183,6 +1211,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     if (token[0] == 'o' && IS_SPACE((token[1]))) {
 
       // flush previous face group.
+      if (!checkFaceGroup(v, faceGroup, err))
+        return false;
+
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                  material, name, true, flags, err );
@@ -1255,6 +1286,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     // Ignore unknown command.
   }
 
+  if (!checkFaceGroup(v, faceGroup, err))
+    return false;
+
   bool ret = exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup,
                                     tags, material, name, true, flags, err );
   if (ret) {
-- 
2.43.0


From 541679e588dc09f3626dad268a7a1150056d5636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 44/56] fix: average of integer and complex matrices

The sum was divided by the unsigned size, which gave wrong results for negative
integer sums and did not compile for complex numbers
---
 src/lib/matrix/BaseMatrix.inl   | 2 +-
 src/lib/matrix/SparseMatrix.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 37a11ca..b73147f 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -398,7 +398,7 @@ T BaseMatrix<T,DC>::min() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::avg() const
 {
-	return sum() / size();
+	return sum() / (T)size();
 }
 
 template<typename T, class DC>
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index ca49506..cb3ff61 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -806,7 +806,7 @@ T SparseMatrix<T>::min() const
 template<typename T>
 T SparseMatrix<T>::avg() const
 {
-	return sum() / size();// Overflow?
+	return sum() / (T)size();// Overflow?
 }
 
 template<typename T>
-- 
2.43.0


From 076516f39c9fb0354577db9c3f38a620da62a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 45/56] fix: NaN and infinity queries of complex matrices did
 not compile

---
 src/lib/matrix/BaseMatrix.inl   | 4 ++--
 src/lib/matrix/SparseMatrix.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index b73147f..34a2fca 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -406,7 +406,7 @@ bool BaseMatrix<T,DC>::has_nan() const
 {
 	for (auto l : mValues.Container)
 	{
-		if (std::isnan(l))
+		if (complex_isnan(l))
 			return true;
 	}
 
@@ -418,7 +418,7 @@ bool BaseMatrix<T,DC>::has_inf() const
 {
 	for (auto l : mValues.Container)
 	{
-		if (std::isinf(l))
+		if (complex_isinf(l))
 			return true;
 	}
 
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index cb3ff61..c40a535 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -814,7 +814,7 @@ bool SparseMatrix<T>::has_nan() const
 {
 	for (auto l : mValues)
 	{
-		if (std::isnan(l))
+		if (complex_isnan(l))
 			return true;
 	}
 
@@ -826,7 +826,7 @@ bool SparseMatrix<T>::has_inf() const
 {
 	for (auto l : mValues)
 	{
-		if (std::isinf(l))
+		if (complex_isinf(l))
 			return true;
 	}
 
-- 
2.43.0


From 07b2bac3741c0a80eca1be2b62890e4a20b750fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 46/56] fix: ilu0 gave L no unit diagonal where the matrix has
 a zero on its diagonal

---
 src/lib/LU.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 4fbeb68..7e62eed 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -249,11 +249,13 @@ namespace LU {
 			// Seperate M into L and U
 			L = SparseMatrix<T>(A.rows(), A.columns());
 			U = SparseMatrix<T>(A.rows(), A.columns());
+			for(Index i = 0; i < A.rows(); ++i)// Also where A has no entry
+				L.set(i, i, 1);
+
 			for(auto it = M.begin(); it != M.end(); ++it)
 			{
 				if(it.column() == it.row())
 				{
-					L.set(it.row(), it.column(), 1);
 					U.set(it.row(), it.column(), *it);
 				}
 				else if(it.column() < it.row())
-- 
2.43.0


From b1b5687792d45eb8ca61efcc733ddf93cdf75001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 47/56] fix: cg and pcg reported one step when none was allowed

---
 src/lib/CG.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 0d59bf9..b779dc8 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -55,7 +55,7 @@ namespace CG {
 			}
 
 			if (it_stat)
-				*it_stat = k + 1;
+				*it_stat = k < maxIter ? k + 1 : maxIter;
 
 			return x;
 		}
@@ -113,7 +113,7 @@ namespace CG {
 			}
 
 			if (it_stat)
-				*it_stat = k + 1;
+				*it_stat = k < maxIter ? k + 1 : maxIter;
 
 			return x;
 		}
-- 
2.43.0


From 17b7c2be5218b35e638c721cf3bced7b21b7e047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 48/56] fix: obj faces with the vertex index zero or an index
 beyond the range are rejected

---
 src/objloader/external/tiny_obj_loader.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 6e06aeb..32868f8 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -224,6 +224,7 @@ void LoadMtl(std::map<std::string, int> &material_map, // [output]
 #include <cmath>
 #include <cstddef>
 #include <cctype>
+#include <limits>
 
 #include <fstream>
 #include <sstream>
@@ -312,10 +313,19 @@ static inline int fixIndex(int idx, int n) {
   if (idx > 0)
     return idx - 1;
   if (idx == 0)
-    return 0;
+    return -1; // there is no such index
   return n + idx; // negative value = relative
 }
 
+// Values beyond the range are no index
+static inline int parseIndex(const char *token) {
+  long idx = strtol(token, NULL, 10);
+  if (idx > std::numeric_limits<int>::max() ||
+      idx < -std::numeric_limits<int>::max())
+    return 0;
+  return static_cast<int>(idx);
+}
+
 static inline std::string parseString(const char *&token) {
   std::string s;
   token += strspn(token, " \t");
@@ -518,7 +528,7 @@ static vertex_index parseTriple(const char *&token, int vsize, int vnsize,
                                 int vtsize) {
   vertex_index vi(-1);
 
-  vi.v_idx = fixIndex(atoi(token), vsize);
+  vi.v_idx = fixIndex(parseIndex(token), vsize);
   token += strcspn(token, "/ \t\r");
   if (token[0] != '/') {
     return vi;
@@ -528,13 +538,13 @@ static vertex_index parseTriple(const char *&token, int vsize, int vnsize,
   // i//k
   if (token[0] == '/') {
     token++;
-    vi.vn_idx = fixIndex(atoi(token), vnsize);
+    vi.vn_idx = fixIndex(parseIndex(token), vnsize);
     token += strcspn(token, "/ \t\r");
     return vi;
   }
 
   // i/j/k or i/j
-  vi.vt_idx = fixIndex(atoi(token), vtsize);
+  vi.vt_idx = fixIndex(parseIndex(token), vtsize);
   token += strcspn(token, "/ \t\r");
   if (token[0] != '/') {
     return vi;
@@ -542,7 +552,7 @@ static vertex_index parseTriple(const char *&token, int vsize, int vnsize,
 
   // i/j/k
   token++; // skip '/'
-  vi.vn_idx = fixIndex(atoi(token), vnsize);
+  vi.vn_idx = fixIndex(parseIndex(token), vnsize);
   token += strcspn(token, "/ \t\r");
   return vi;
 }
-- 
2.43.0


From c196138208200d9834ea4c5706c405eb0191d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 49/56] fix: obj numbers without a digit in front of the point
 are read

---
 src/objloader/external/tiny_obj_loader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 32868f8..ed466e4 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -403,7 +403,7 @@ static bool tryParseDouble(const char *s, const char *s_end, double *result) {
   if (*curr == '+' || *curr == '-') {
     sign = *curr;
     curr++;
-  } else if (IS_DIGIT(*curr)) { /* Pass through. */
+  } else if (IS_DIGIT(*curr) || *curr == '.') { /* Pass through. */
   } else {
     goto fail;
   }
@@ -417,7 +417,7 @@ static bool tryParseDouble(const char *s, const char *s_end, double *result) {
   }
 
   // We must make sure we actually got something.
-  if (read == 0)
+  if (read == 0 && !(end_not_reached && *curr == '.' && curr + 1 != s_end && IS_DIGIT(curr[1])))
     goto fail;
   // We allow numbers of form "#", "###" etc.
   if (!end_not_reached)
-- 
2.43.0


From 117dd6f1cb80dc266d4e73ba32f6d05553a1d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 50/56] fix: obj names may be of any length or missing

---
 src/objloader/external/tiny_obj_loader.h | 52 ++++--------------------
 1 file changed, 7 insertions(+), 45 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index ed466e4..21956cc 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -235,8 +235,6 @@ namespace tinyobj {
 
 MaterialReader::~MaterialReader() {}
 
-#define TINYOBJ_SSCANF_BUFFER_SIZE (4096)
-
 struct vertex_index {
   int v_idx, vt_idx, vn_idx;
   vertex_index() : v_idx(-1), vt_idx(-1), vn_idx(-1) {}
@@ -793,13 +791,8 @@ void LoadMtl(std::map<std::string, int> &material_map,
       InitMaterial(material);
 
       // set new mtl name
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
       token += 7;
-#ifdef _MSC_VER
-      sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
-#else
-      sscanf(token, "%s", namebuf);
-#endif
+      const std::string namebuf = parseString(token);
       material.name = namebuf;
       continue;
     }
@@ -1126,13 +1119,8 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     // use mtl
     if ((0 == strncmp(token, "usemtl", 6)) && IS_SPACE((token[6]))) {
 
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
       token += 7;
-#ifdef _MSC_VER
-      sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
-#else
-      sscanf(token, "%s", namebuf);
-#endif
+      const std::string namebuf = parseString(token);
 
       int newMaterialId = -1;
       if (material_map.find(namebuf) != material_map.end()) {
@@ -1157,13 +1145,8 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
     // load mtl
     if ((0 == strncmp(token, "mtllib", 6)) && IS_SPACE((token[6]))) {
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
       token += 7;
-#ifdef _MSC_VER
-      sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
-#else
-      sscanf(token, "%s", namebuf);
-#endif
+      const std::string namebuf = parseString(token);
 
       std::string err_mtl;
       bool ok = readMatFn(namebuf, materials, material_map, err_mtl);
@@ -1236,14 +1219,8 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       shape = shape_t();
 
       // @todo { multiple object name? }
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
       token += 2;
-#ifdef _MSC_VER
-      sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
-#else
-      sscanf(token, "%s", namebuf);
-#endif
-      name = std::string(namebuf);
+      name = parseString(token);
 
       continue;
     }
@@ -1251,16 +1228,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     if (token[0] == 't' && IS_SPACE(token[1])) {
       tag_t tag;
 
-      char namebuf[4096];
       token += 2;
-#ifdef _MSC_VER
-      sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
-#else
-      sscanf(token, "%s", namebuf);
-#endif
-      tag.name = std::string(namebuf);
-
-      token += tag.name.size() + 1;
+      tag.name = parseString(token);
+      token += strspn(token, " \t");
 
       tag_sizes ts = parseTagTriple(token);
 
@@ -1279,15 +1249,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
       tag.stringValues.resize(static_cast<size_t>(ts.num_strings));
       for (size_t i = 0; i < static_cast<size_t>(ts.num_strings); ++i) {
-        char stringValueBuffer[4096];
-
-#ifdef _MSC_VER
-        sscanf_s(token, "%s", stringValueBuffer, (unsigned)_countof(stringValueBuffer));
-#else
-        sscanf(token, "%s", stringValueBuffer);
-#endif
-        tag.stringValues[i] = stringValueBuffer;
-        token += tag.stringValues[i].size() + 1;
+        tag.stringValues[i] = parseString(token);
       }
 
       tags.push_back(tag);
-- 
2.43.0


From e3fbf959b28de17f75746614e7e37ca304d9e661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 51/56] fix: obj tags with missing values are not read beyond
 the end of their line

---
 src/objloader/external/tiny_obj_loader.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 21956cc..64a05d4 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -516,7 +516,7 @@ static tag_sizes parseTagTriple(const char *&token) {
   token++;
 
   ts.num_strings = atoi(token);
-  token += strcspn(token, "/ \t\r") + 1;
+  token += strcspn(token, "/ \t\r");
 
   return ts;
 }
@@ -1234,17 +1234,23 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
       tag_sizes ts = parseTagTriple(token);
 
+      // Every value takes a character at least
+      const int rest = static_cast<int>(strlen(token));
+      if (ts.num_ints < 0 || ts.num_floats < 0 || ts.num_strings < 0 ||
+          ts.num_ints > rest || ts.num_floats > rest || ts.num_strings > rest) {
+        err += "Tag with missing values.\n";
+        return false;
+      }
+
       tag.intValues.resize(static_cast<size_t>(ts.num_ints));
 
       for (size_t i = 0; i < static_cast<size_t>(ts.num_ints); ++i) {
-        tag.intValues[i] = atoi(token);
-        token += strcspn(token, "/ \t\r") + 1;
+        tag.intValues[i] = parseInt(token);
       }
 
       tag.floatValues.resize(static_cast<size_t>(ts.num_floats));
       for (size_t i = 0; i < static_cast<size_t>(ts.num_floats); ++i) {
         tag.floatValues[i] = parseFloat(token);
-        token += strcspn(token, "/ \t\r") + 1;
       }
 
       tag.stringValues.resize(static_cast<size_t>(ts.num_strings));
-- 
2.43.0


From eb36b0215e90868f9e1db69d421a876f11f8e227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 52/56] fix: names of VTK arrays are escaped

---
 src/lib/export/VTKExporter.inl | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 62632a2..779f10b 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -5,6 +5,24 @@
 
 NS_BEGIN_NAMESPACE
 
+// Names have to be escaped inside of attributes
+inline std::string vtkAttribute(const std::string& str)
+{
+	std::string res;
+	for(char c : str)
+	{
+		switch(c)
+		{
+		case '&': res += "&amp;"; break;
+		case '<': res += "&lt;"; break;
+		case '>': res += "&gt;"; break;
+		case '"': res += "&quot;"; break;
+		default: res += c; break;
+		}
+	}
+	return res;
+}
+
 template<typename T, Dimension K>
 template<typename V>
 void VTKExporter<T,K>::write(const std::string& path,
@@ -102,11 +120,11 @@ void VTKExporter<T,K>::write(const std::string& path,
 	// Point data
 	stream << "<PointData";
 	if(!pointData.empty())
-		stream << " Scalars=\"" << pointData.begin()->first << "\"";
+		stream << " Scalars=\"" << vtkAttribute(pointData.begin()->first) << "\"";
 	stream << ">" << std::endl;
 	for(auto res : pointData)
 	{
-		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
+		stream << "<DataArray Name=\"" << vtkAttribute(res.first) << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
 		for(Index i = 0; i < res.second->size(); ++i)
 			stream << res.second->at(i) << " ";
 		stream << std::endl << "</DataArray>" << std::endl;
@@ -133,7 +151,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "<CellData>" << std::endl;
 	for(auto res : cellData)
 	{
-		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
+		stream << "<DataArray Name=\"" << vtkAttribute(res.first) << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
 		for(Index i = 0; i < res.second->size(); ++i)
 			stream << res.second->at(i) << " ";
 		stream << std::endl << "</DataArray>" << std::endl;
-- 
2.43.0


From 2fb7d5ff7d33f7433b089f6325c7a2a341c37042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 53/56] fix: the Poisson example transforms gradients by the
 transposed inverse jacobian

---
 examples/poisson/fem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/poisson/fem.cpp b/examples/poisson/fem.cpp
index 8f634a0..c80e3e2 100644
--- a/examples/poisson/fem.cpp
+++ b/examples/poisson/fem.cpp
@@ -113,7 +113,8 @@ void handleMesh(Mesh<Number, 2>& mesh, int M, int Solver)
 		FixedMatrix<Number,SF::DOF,SF::DOF> elemMat;
 		FixedVector<Number,SF::DOF> elemVec;
 
-		const auto invJacob = element->Element.inverseMatrix();
+		// Gradients are transformed by the transposed inverse of the jacobian
+		const auto invJacob = element->Element.inverseMatrix().transpose();
 
 #ifdef VERBOSE_LOG
 		std::cout << invJacob << std::endl;
-- 
2.43.0


From f345c82f07584a647fccb3a75d8c040f0872c468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 54/56] Revert "fix: the Poisson example transforms gradients
 by the transposed inverse jacobian"

This reverts commit 2fb7d5ff7d33f7433b089f6325c7a2a341c37042.
---
 examples/poisson/fem.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/examples/poisson/fem.cpp b/examples/poisson/fem.cpp
index c80e3e2..8f634a0 100644
--- a/examples/poisson/fem.cpp
+++ b/examples/poisson/fem.cpp
@@ -113,8 +113,7 @@ void handleMesh(Mesh<Number, 2>& mesh, int M, int Solver)
 		FixedMatrix<Number,SF::DOF,SF::DOF> elemMat;
 		FixedVector<Number,SF::DOF> elemVec;
 
-		// Gradients are transformed by the transposed inverse of the jacobian
-		const auto invJacob = element->Element.inverseMatrix().transpose();
+		const auto invJacob = element->Element.inverseMatrix();
 
 #ifdef VERBOSE_LOG
 		std::cout << invJacob << std::endl;
-- 
2.43.0


From 52afc14c52efab331f3ee572666d0d4bf5d997bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:32 +0000
Subject: [PATCH 55/56] fix: gradients of linear triangle functions with node
 values are those of the function

---
 src/lib/sf/PolyShapeFunction.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index d84a35c..f3cf721 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -211,8 +211,8 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient(Index localComponent, cons
         if(Order == 1)
         {
             NS_ASSERT(localComponent < 3);
-            g[0] = nodeValues[1]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][1];
-            g[1] = nodeValues[2]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][2];
+            g[0] = nodeValues[1]*PSF_Coeff_2D_1[localComponent][1];
+            g[1] = nodeValues[2]*PSF_Coeff_2D_1[localComponent][2];
         }
         else if(Order == 2)
         {
-- 
2.43.0


From bda53169b936ab989c712285308f82577cf3b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:31 +0000
Subject: [PATCH 56/56] fix: obj meshes are not split where the material
 changes

---
 src/objloader/loader/MeshObjLoader.h   | 10 ++++++++++
 src/objloader/loader/MeshObjLoader.inl | 21 ++++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/objloader/loader/MeshObjLoader.h b/src/objloader/loader/MeshObjLoader.h
index c5e4216..2b8dd04 100644
--- a/src/objloader/loader/MeshObjLoader.h
+++ b/src/objloader/loader/MeshObjLoader.h
@@ -4,6 +4,7 @@
 
 #include "../external/tiny_obj_loader.h"
 
+#include <fstream>
 #include <sstream>
 
 NS_BEGIN_NAMESPACE
@@ -19,6 +20,15 @@ public:
 	static Mesh<T,2> loadString(const std::string& str);
 
 private:
+	// A shape would be split where the material changes
+	class IgnoreMaterials : public tinyobj::MaterialReader
+	{
+	public:
+		bool operator()(const std::string&, std::vector<tinyobj::material_t>&,
+			std::map<std::string, int>&, std::string&) { return true; }
+	};
+
+	static Mesh<T,2> load(std::istream& stream);
 	static Mesh<T,2> load(const std::vector<tinyobj::shape_t>& shapes);
 };
 
diff --git a/src/objloader/loader/MeshObjLoader.inl b/src/objloader/loader/MeshObjLoader.inl
index 183e024..852b9b8 100644
--- a/src/objloader/loader/MeshObjLoader.inl
+++ b/src/objloader/loader/MeshObjLoader.inl
@@ -7,25 +7,28 @@ NS_BEGIN_NAMESPACE
 template<typename T, Index yI, Index xI>
 Mesh<T,2> MeshObjLoader<T,yI,xI>::loadFile(const std::string& file)
 {		
-	std::vector<tinyobj::shape_t> shapes;
-	std::vector<tinyobj::material_t> materials;// We ignore materials
-	std::string err;
-
-	if (!tinyobj::LoadObj(shapes, materials, err, file.c_str()))
+	std::ifstream stream(file.c_str());
+	if (!stream)
 		throw LoadObjErrorException();
 
-	return load(shapes);
+	return load(stream);
 }
 
 template<typename T, Index yI, Index xI>
 Mesh<T,2> MeshObjLoader<T,yI,xI>::loadString(const std::string& str)
 {		
+	std::istringstream stream(str);
+	return load(stream);
+}
+
+template<typename T, Index yI, Index xI>
+Mesh<T,2> MeshObjLoader<T,yI,xI>::load(std::istream& stream)
+{
 	std::vector<tinyobj::shape_t> shapes;
 	std::vector<tinyobj::material_t> materials;// We ignore materials
 	std::string err;
-	std::istringstream stream(str);
-	auto reader = tinyobj::MaterialFileReader("");
-	
+	IgnoreMaterials reader;
+
 	if (!tinyobj::LoadObj(shapes, materials, err,
 		stream, reader))
 		throw LoadObjErrorException();
-- 
2.43.0

