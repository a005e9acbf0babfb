From 92a810130c6eba7f8da868fee71f41fedf6cf838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 01/22] fix: sparse vector lookup compares the index with the
 last stored index

SparseVector.index compared the index with the number of stored elements,
so elements stored past that position were not found again and insertions
left the indices unsorted.
---
 sparseVector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparseVector.go b/sparseVector.go
index d7a9bf4..7a25866 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -188,7 +188,7 @@ func (s *SparseVector[T]) remove(pointer int) {
 
 func (s *SparseVector[T]) index(i int) (int, int, error) {
 	length := len(s.indices)
-	if i > length {
+	if length == 0 || i > s.indices[length-1] {
 		return length, length, nil
 	}
 
-- 
2.43.0


From ad0e55d765a0caa3c007b99f340dcb04f872b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 02/22] fix: mapping a sparse element to zero keeps the
 iterator in step

Removing the current element moved the following ones down, but the
iterator's positions stayed, so the next element was skipped and the last
step read past the end.
---
 cscMatrix.go    | 2 ++
 csrMatrix.go    | 2 ++
 sparseVector.go | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/cscMatrix.go b/cscMatrix.go
index 587d450..bba5210 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -407,6 +407,8 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.c)
+		s.pointerStart--
+		s.pointerEnd--
 	}
 }
 
diff --git a/csrMatrix.go b/csrMatrix.go
index e6e375e..d359ea6 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -397,6 +397,8 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.r)
+		s.pointerStart--
+		s.pointerEnd--
 	}
 }
 
diff --git a/sparseVector.go b/sparseVector.go
index 7a25866..cca1b6e 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -362,6 +362,8 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.old] = value
 	} else {
 		s.matrix.remove(s.old)
+		s.last--
+		s.size--
 	}
 }
 
-- 
2.43.0


From 874bb57c849ce008efd6b0afedef9381aa745acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 03/22] fix: Add covers the elements stored in only one operand

With a sparse operand only that operand's stored elements were visited, so
the sum lost the elements stored in the other operand alone.
---
 operators.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index aa18ffa..995e6c3 100644
--- a/operators.go
+++ b/operators.go
@@ -188,9 +188,18 @@ func Add[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, m
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	isSparseMatrixS := IsSparseMatrix[T](s)
+	isSparseMatrixM := IsSparseMatrix[T](m)
+
+	// Neither of two sparse operands enumerates every element of the result
+	merge := isSparseMatrixS && isSparseMatrixM
+	if merge && s == matrix {
+		s = s.Copy()
+	}
+
 	var iterator Enumerate[T]
 	var source Matrix[T]
-	if IsSparseMatrix[T](s) {
+	if isSparseMatrixM || !isSparseMatrixS {
 		iterator = s.Enumerate()
 		source = m
 	} else {
@@ -210,6 +219,22 @@ func Add[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, m
 			}
 		}
 	}
+
+	if !merge || m == matrix {
+		return
+	}
+
+	for iterator := m.Enumerate(); iterator.HasNext(); {
+		select {
+		case <-ctx.Done():
+			return
+		default:
+			r, c, v := iterator.Next()
+			if s.At(r, c) == Default[T]() && !mask.Element(r, c) {
+				matrix.Set(r, c, v)
+			}
+		}
+	}
 }
 
 func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-- 
2.43.0


From 0d561c92c49e4b7fdd46fb466d0beff29bf310bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 04/22] fix: Subtract covers the elements stored only in the
 right operand

A sparse left operand left the right operand's other elements in the
result with their sign unchanged, a sparse vector was subtracted from
itself, and the free function ignored its right operand unless the output
happened to hold a copy of it.
---
 operators.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index 995e6c3..7daddca 100644
--- a/operators.go
+++ b/operators.go
@@ -327,6 +327,12 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// A sparse s does not enumerate the elements stored in m alone
+	merge := IsSparseMatrix[T](s)
+	if merge && s == matrix {
+		s = s.Copy()
+	}
+
 	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
@@ -334,9 +340,23 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Update(r, c, func(v T) T {
-					return value - v
-				})
+				matrix.Set(r, c, value-m.At(r, c))
+			}
+		}
+	}
+
+	if !merge {
+		return
+	}
+
+	for iterator := m.Enumerate(); iterator.HasNext(); {
+		select {
+		case <-ctx.Done():
+			return
+		default:
+			r, c, value := iterator.Next()
+			if s.At(r, c) == Default[T]() && !mask.Element(r, c) {
+				matrix.Set(r, c, -value)
 			}
 		}
 	}
-- 
2.43.0


From da9a2a07a5ab0223c0aa267ff7f95d5ce0d6da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 05/22] fix: a registered sparse matrix is sparse for every
 element type

The registry holds the float64 instances, and a lookup by the full name of
an instance missed all the others, so an int CSR matrix never equalled the
dense matrix with the same elements.
---
 matrixRegistry.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/matrixRegistry.go b/matrixRegistry.go
index 7de4bcb..1d15ca1 100644
--- a/matrixRegistry.go
+++ b/matrixRegistry.go
@@ -8,24 +8,37 @@ package graphblas
 import (
 	"log"
 	"reflect"
+	"strings"
 
 	"github.com/rossmerr/graphblas/constraints"
 )
 
 var sparseMatrixRegistry = make(map[string]reflect.Type)
 
+// sparseMatrixNames a matrix is sparse whatever the type of its elements
+var sparseMatrixNames = make(map[string]bool)
+
 // RegisterMatrix add's the sparse matrix to the registry
 func RegisterMatrix(matrix reflect.Type) {
 	if _, found := sparseMatrixRegistry[matrix.Name()]; found {
 		log.Panicf("Already registered Matrix %q.", matrix.Name())
 	}
 	sparseMatrixRegistry[matrix.Name()] = matrix
+	sparseMatrixNames[genericName(matrix)] = true
+
+}
 
+// genericName the name of the type without its type arguments
+func genericName(t reflect.Type) string {
+	return strings.SplitN(t.Name(), "[", 2)[0]
 }
 
 // IsSparseMatrix is 's' a sparse matrix
 func IsSparseMatrix[T constraints.Type](s MatrixLogical[T]) bool {
-	t := reflect.TypeOf(s).Elem()
-	_, found := sparseMatrixRegistry[t.Name()]
+	t := reflect.TypeOf(s)
+	if t.Kind() == reflect.Ptr {
+		t = t.Elem()
+	}
+	_, found := sparseMatrixNames[genericName(t)]
 	return found
 }
-- 
2.43.0


From 69ccd6ca1553c77e80a4a20d7f0b501f0c7b791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 06/22] fix: guard the matrix registry

Registering a matrix type while another goroutine runs an operation was an
unsynchronised map access, which ends the process.
---
 matrixRegistry.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/matrixRegistry.go b/matrixRegistry.go
index 1d15ca1..943687e 100644
--- a/matrixRegistry.go
+++ b/matrixRegistry.go
@@ -9,17 +9,24 @@ import (
 	"log"
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/rossmerr/graphblas/constraints"
 )
 
 var sparseMatrixRegistry = make(map[string]reflect.Type)
 
+// sparseMatrixLock guards the registry
+var sparseMatrixLock sync.RWMutex
+
 // sparseMatrixNames a matrix is sparse whatever the type of its elements
 var sparseMatrixNames = make(map[string]bool)
 
 // RegisterMatrix add's the sparse matrix to the registry
 func RegisterMatrix(matrix reflect.Type) {
+	sparseMatrixLock.Lock()
+	defer sparseMatrixLock.Unlock()
+
 	if _, found := sparseMatrixRegistry[matrix.Name()]; found {
 		log.Panicf("Already registered Matrix %q.", matrix.Name())
 	}
@@ -39,6 +46,9 @@ func IsSparseMatrix[T constraints.Type](s MatrixLogical[T]) bool {
 	if t.Kind() == reflect.Ptr {
 		t = t.Elem()
 	}
+	sparseMatrixLock.RLock()
+	defer sparseMatrixLock.RUnlock()
+
 	_, found := sparseMatrixNames[genericName(t)]
 	return found
 }
-- 
2.43.0


From 7cc834b782eb9330ec09aae4c7622b7067c2025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 07/22] fix: Scalar returns when its context is cancelled

break left the select only, so the loop spun for ever.
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 7daddca..95aa39e 100644
--- a/operators.go
+++ b/operators.go
@@ -604,7 +604,7 @@ func Scalar[T constraints.Number](ctx context.Context, s Matrix[T], alpha T) Mat
 	for iterator := matrix.Map(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
-			break
+			return matrix
 		default:
 			iterator.Map(func(r, c int, v T) T {
 				return alpha * v
-- 
2.43.0


From 2849bfe97e114ae63fef564d951db788053874f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 08/22] fix: a reduction returns when its context is cancelled

The producer returned without ending the fold, and the caller waited for
the result for ever.
---
 operators.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 95aa39e..5edcbae 100644
--- a/operators.go
+++ b/operators.go
@@ -672,10 +672,11 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 	}
 
 	go func() {
+	loop:
 		for iterator := s.Enumerate(); iterator.HasNext(); {
 			select {
 			case <-ctx.Done():
-				return
+				break loop
 			default:
 				r, c, value := iterator.Next()
 				if !mask.Element(r, c) {
-- 
2.43.0


From a7dc2af19bc2900c391823d6c54e368590ce3b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 09/22] fix: a reduction checks its mask before it starts the
 fold

A mask of the wrong size panicked after the fold's goroutine was started,
which then waited for ever to deliver its result.
---
 operators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operators.go b/operators.go
index 5edcbae..5e11f2d 100644
--- a/operators.go
+++ b/operators.go
@@ -657,8 +657,6 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 	defer close(slice)
 	defer close(done)
 
-	out := monoID.Reduce(done, slice)
-
 	if mask == nil {
 		mask = NewEmptyMask(s.Rows(), s.Columns())
 	}
@@ -671,6 +669,8 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), s.Columns())
 	}
 
+	out := monoID.Reduce(done, slice)
+
 	go func() {
 	loop:
 		for iterator := s.Enumerate(); iterator.HasNext(); {
-- 
2.43.0


From 63db008b48b68b9f071ef1c206956cc0e4401f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 10/22] fix: a cancelled comparison does not answer from
 truncated strings

String returns what it has when its context is cancelled, and Less,
Greater and Compare went on to compare the two truncated strings.
---
 operators.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index 5e11f2d..c97a8eb 100644
--- a/operators.go
+++ b/operators.go
@@ -504,15 +504,32 @@ func Compare(ctx context.Context, s, m MatrixLogical[rune]) int {
 			return -1
 		}
 	}
-	return +1
+	select {
+	case <-ctx.Done():
+		return 0
+	default:
+		return +1
+	}
 }
 
 func Less(ctx context.Context, s, m MatrixLogical[rune]) bool {
-	return String(ctx, s) < String(ctx, m)
+	less := String(ctx, s) < String(ctx, m)
+	select {
+	case <-ctx.Done():
+		return false
+	default:
+		return less
+	}
 }
 
 func Greater(ctx context.Context, s, m MatrixLogical[rune]) bool {
-	return String(ctx, s) > String(ctx, m)
+	greater := String(ctx, s) > String(ctx, m)
+	select {
+	case <-ctx.Done():
+		return false
+	default:
+		return greater
+	}
 }
 
 func String(ctx context.Context, s MatrixLogical[rune]) string {
-- 
2.43.0


From 41ac715d7a82ed3c918e304cf204ca18e54aaed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 11/22] fix: reading an element of a sparse matrix does not
 write to it

At and Element were updates that stored the element back, a data race
between concurrent readers, among them those that MutexMatrix lets in
together under its read lock.
---
 cscMatrix.go    | 24 ++++++++++++++----------
 csrMatrix.go    | 24 ++++++++++++++----------
 sparseVector.go | 13 ++++++++-----
 3 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index bba5210..919b4a7 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -105,10 +105,19 @@ func (s *CSCMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSCMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.rowIndex(r, c)
+
+	if pointerStart < pointerEnd && s.rows[pointerStart] == r {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -414,10 +423,5 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSCMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) > Default[T]()
 }
diff --git a/csrMatrix.go b/csrMatrix.go
index d359ea6..f80247d 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -97,10 +97,19 @@ func (s *CSRMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSRMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.columnIndex(r, c)
+
+	if pointerStart < pointerEnd && s.cols[pointerStart] == c {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -404,10 +413,5 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSRMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) > Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index cca1b6e..22e1573 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -114,12 +114,15 @@ func (s *SparseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *SparseVector[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.Rows() {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
 
-	return
+	return s.AtVec(r)
 }
 
 // Set sets the value at r-th, c-th of the vector
-- 
2.43.0


From fbc7eb4cd55f8b47db6f144d45f2997d0bde1c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 12/22] fix: MutexMatrix takes its lock to clear, count and
 enumerate

Clear changed the matrix under the read lock, Values read it under none,
and Enumerate handed out an iterator over storage that other callers were
changing.
---
 mutexMatrix.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mutexMatrix.go b/mutexMatrix.go
index 5c01fd8..6d979f5 100644
--- a/mutexMatrix.go
+++ b/mutexMatrix.go
@@ -161,20 +161,27 @@ func (s *MutexMatrix[T]) Size() int {
 
 // Values the number of elements in the matrix
 func (s *MutexMatrix[T]) Values() int {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.matrix.Values()
 }
 
 // Clear removes all elements from a matrix
 func (s *MutexMatrix[T]) Clear() {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	s.matrix.Clear()
 }
 
 // Enumerate iterates through all non-zero elements, order is not guaranteed
+// the iterator lists the elements as they are at the time of the call
 func (s *MutexMatrix[T]) Enumerate() Enumerate[T] {
-	return s.matrix.Enumerate()
+	s.RLock()
+	defer s.RUnlock()
+
+	return s.matrix.Copy().Enumerate()
 }
 
 // Map replace each element with the result of applying a function to its value
-- 
2.43.0


From 8f0ff00349506cd53b96f110d14e62624170872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 13/22] fix: Strassen multiplies matrices it cannot halve by
 the standard method

An odd size lost the last row and column, and operands that were not
square were indexed out of range.
---
 math/strassen/strassen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/strassen/strassen.go b/math/strassen/strassen.go
index a64a8c7..09664e8 100644
--- a/math/strassen/strassen.go
+++ b/math/strassen/strassen.go
@@ -26,7 +26,7 @@ func MultiplyCrossoverPoint[T constraints.Number](ctx context.Context, a, b grap
 	}
 
 	n := b.Rows()
-	if n <= crossover {
+	if n <= crossover || n%2 != 0 || a.Rows() != n || b.Columns() != n {
 		matrix := graphblas.NewDenseMatrixN[T](a.Rows(), b.Columns())
 		graphblas.MatrixMatrixMultiply[T](ctx, a, b, nil, matrix)
 		return matrix
-- 
2.43.0


From b835b26214d720e972334d6c460aaf696af0ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 14/22] fix: sorting a sparse matrix swaps whole rows and
 columns

Only the stored elements were copied, so the elements that are zero on one
side kept the other side's values.
---
 sort/bubble.go | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/sort/bubble.go b/sort/bubble.go
index 845e9c8..3ae21d4 100644
--- a/sort/bubble.go
+++ b/sort/bubble.go
@@ -14,16 +14,9 @@ func BubbleRow(ctx context.Context, a graphblas.MatrixRune) graphblas.MatrixRune
 			vj := result.RowsAt(j)
 			vi := result.RowsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-				enumerator := vi.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(j, c, v)
-				}
-
-				enumerator = vj.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(i, c, v)
+				for c := 0; c < vi.Length(); c++ {
+					result.Set(j, c, vi.AtVec(c))
+					result.Set(i, c, vj.AtVec(c))
 				}
 			}
 		}
@@ -40,16 +33,9 @@ func BubbleColumns(ctx context.Context, a graphblas.MatrixRune) graphblas.Matrix
 			vj := result.ColumnsAt(j)
 			vi := result.ColumnsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-				enumerator := vi.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(c, j, v)
-				}
-
-				enumerator = vj.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(c, i, v)
+				for c := 0; c < vi.Length(); c++ {
+					result.Set(c, j, vi.AtVec(c))
+					result.Set(c, i, vj.AtVec(c))
 				}
 			}
 		}
-- 
2.43.0


From 2125bd413479bc85ec45849d82ae99aa26d9b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 15/22] fix: Apply keeps positions, and reads its mask the same
 way in place

The result was stored transposed, and an in-place call changed the masked
elements instead of the others.
---
 operators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operators.go b/operators.go
index c97a8eb..9c0385e 100644
--- a/operators.go
+++ b/operators.go
@@ -385,7 +385,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 				return
 			default:
 				iterator.Map(func(r, c int, value T) T {
-					if mask.Element(r, c) {
+					if !mask.Element(r, c) {
 						return u.Apply(value)
 					}
 
@@ -404,7 +404,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Set(c, r, u.Apply(value))
+				matrix.Set(r, c, u.Apply(value))
 			}
 		}
 	}
-- 
2.43.0


From 142cd5a9d2a4a70caa9586f59c4081fdd1da95a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 16/22] fix: Transpose reads its mask at the element it stores

The mask has the output's shape but was read at the source's position.
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 9c0385e..c538dce 100644
--- a/operators.go
+++ b/operators.go
@@ -463,7 +463,7 @@ func Transpose[T constraints.Type](ctx context.Context, s MatrixLogical[T], mask
 		default:
 			r, c, value := iterator.Next()
 
-			if !mask.Element(r, c) {
+			if !mask.Element(c, r) {
 				matrix.Set(c, r, value)
 			}
 		}
-- 
2.43.0


From 5e3a34d5b1b2518849d82b6b92b7af10a598e927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 17/22] fix: Equal of a sparse and a dense matrix compares
 every element

---
 operators.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index c538dce..ac4cd4f 100644
--- a/operators.go
+++ b/operators.go
@@ -586,7 +586,11 @@ func Equal[T constraints.Type](ctx context.Context, s, m MatrixLogical[T]) bool
 
 	// Check for a sparse matrix as we want to use its Enumerate operation
 	// Because the use of the At operation on a sparse matrix is expensive
-	if isSparseMatrixS {
+	// but next to a dense matrix it does not enumerate every element
+	if isSparseMatrixS && isSparseMatrixM {
+		iterator = s.Enumerate()
+		matrix = m
+	} else if isSparseMatrixM {
 		iterator = s.Enumerate()
 		matrix = m
 	} else {
-- 
2.43.0


From 8e5c9c191ce8fc57f9f6c0775afe258727c3d1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 18/22] fix: Compare can be cancelled while it tests for
 equality

---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index ac4cd4f..5cc5ba5 100644
--- a/operators.go
+++ b/operators.go
@@ -492,7 +492,7 @@ func Compare(ctx context.Context, s, m MatrixLogical[rune]) int {
 	case <-ctx.Done():
 		return 0
 	default:
-		if s.Equal(m) {
+		if Equal(ctx, s, m) {
 			return 0
 		}
 	}
-- 
2.43.0


From f465427fb68d24d804135b493f37a7de4c466dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 19/22] fix: a sort stops when its context is cancelled

---
 sort/bubble.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sort/bubble.go b/sort/bubble.go
index 3ae21d4..7955c40 100644
--- a/sort/bubble.go
+++ b/sort/bubble.go
@@ -11,6 +11,9 @@ func BubbleRow(ctx context.Context, a graphblas.MatrixRune) graphblas.MatrixRune
 	result := a.CopyLogical()
 	for j := 0; j < size-1; j++ {
 		for i := j + 1; i < size; i++ {
+			if ctx.Err() != nil {
+				return result
+			}
 			vj := result.RowsAt(j)
 			vi := result.RowsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
@@ -30,6 +33,9 @@ func BubbleColumns(ctx context.Context, a graphblas.MatrixRune) graphblas.Matrix
 	result := a.CopyLogical()
 	for j := 0; j < size-1; j++ {
 		for i := j + 1; i < size; i++ {
+			if ctx.Err() != nil {
+				return result
+			}
 			vj := result.ColumnsAt(j)
 			vi := result.ColumnsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-- 
2.43.0


From 130f0a42b49f8936f55bfda1b143c6eb3c93d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 20/22] fix: a multiplication with no inner elements ignores
 its cancelled context

---
 operators.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/operators.go b/operators.go
index 5cc5ba5..7eab318 100644
--- a/operators.go
+++ b/operators.go
@@ -37,6 +37,13 @@ func multiply[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		rows := s.RowsAt(r)
 
 		for c := 0; c < m.Columns(); c++ {
+			// an empty row never reaches the check below
+			select {
+			case <-ctx.Done():
+				return
+			default:
+			}
+
 			column := m.ColumnsAt(c)
 
 			sum := Default[T]()
-- 
2.43.0


From 530771cea31828d7eaf565131324b7a7ea81c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 21/22] fix: a reduction folds what a buffered channel holds
 and nothing after its end

---
 binaryop/monoID.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/binaryop/monoID.go b/binaryop/monoID.go
index 1eb1103..1ddde30 100644
--- a/binaryop/monoID.go
+++ b/binaryop/monoID.go
@@ -37,9 +37,18 @@ func (s *monoID[T]) Reduce(done <-chan struct{}, slice <-chan T) <-chan T {
 		result := s.unit
 		for {
 			select {
-			case value := <-slice:
+			case value, ok := <-slice:
+				if !ok {
+					// nothing more to fold, wait for done
+					slice = nil
+					continue
+				}
 				result = s.BinaryOp.Apply(result, value)
 			case <-done:
+				// the values still in the buffer were handed over as well
+				for i := len(slice); i > 0; i-- {
+					result = s.BinaryOp.Apply(result, <-slice)
+				}
 				out <- result
 				close(out)
 				return
-- 
2.43.0


From ae7454ed61e23af2765225bee0c85edee8124583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 22/22] fix: registry tells types apart by identity, not by
 their bare name

---
 matrixRegistry.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/matrixRegistry.go b/matrixRegistry.go
index 943687e..327bdf6 100644
--- a/matrixRegistry.go
+++ b/matrixRegistry.go
@@ -14,7 +14,7 @@ import (
 	"github.com/rossmerr/graphblas/constraints"
 )
 
-var sparseMatrixRegistry = make(map[string]reflect.Type)
+var sparseMatrixRegistry = make(map[reflect.Type]bool)
 
 // sparseMatrixLock guards the registry
 var sparseMatrixLock sync.RWMutex
@@ -24,31 +24,45 @@ var sparseMatrixNames = make(map[string]bool)
 
 // RegisterMatrix add's the sparse matrix to the registry
 func RegisterMatrix(matrix reflect.Type) {
+	matrix = matrixType(matrix)
+
 	sparseMatrixLock.Lock()
 	defer sparseMatrixLock.Unlock()
 
-	if _, found := sparseMatrixRegistry[matrix.Name()]; found {
+	if _, found := sparseMatrixRegistry[matrix]; found {
 		log.Panicf("Already registered Matrix %q.", matrix.Name())
 	}
-	sparseMatrixRegistry[matrix.Name()] = matrix
-	sparseMatrixNames[genericName(matrix)] = true
+	sparseMatrixRegistry[matrix] = true
+	if name, ok := genericName(matrix); ok {
+		sparseMatrixNames[name] = true
+	}
+}
 
+// matrixType the type of the matrix itself, methods are often on the pointer
+func matrixType(t reflect.Type) reflect.Type {
+	if t.Kind() == reflect.Ptr {
+		t = t.Elem()
+	}
+	return t
 }
 
-// genericName the name of the type without its type arguments
-func genericName(t reflect.Type) string {
-	return strings.SplitN(t.Name(), "[", 2)[0]
+// genericName the name of a generic type without its type arguments
+func genericName(t reflect.Type) (string, bool) {
+	parts := strings.SplitN(t.Name(), "[", 2)
+	return t.PkgPath() + "." + parts[0], len(parts) == 2
 }
 
 // IsSparseMatrix is 's' a sparse matrix
 func IsSparseMatrix[T constraints.Type](s MatrixLogical[T]) bool {
-	t := reflect.TypeOf(s)
-	if t.Kind() == reflect.Ptr {
-		t = t.Elem()
-	}
+	t := matrixType(reflect.TypeOf(s))
+
 	sparseMatrixLock.RLock()
 	defer sparseMatrixLock.RUnlock()
 
-	_, found := sparseMatrixNames[genericName(t)]
+	if name, ok := genericName(t); ok {
+		_, found := sparseMatrixNames[name]
+		return found
+	}
+	_, found := sparseMatrixRegistry[t]
 	return found
 }
-- 
2.43.0

