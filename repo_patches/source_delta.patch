From 117cd811cf07abbc97b437a9951578d7f48ad1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 01/20] fix: merge sets and maps whose elements share a full
 hash

Combining two twigs, or a twig and a leaf, panicked or dropped elements
when three or more elements collided on all hash bits.
---
 internal/pkg/tree/leaf1.go |  2 ++
 internal/pkg/tree/leaf2.go |  2 ++
 internal/pkg/tree/twig.go  | 35 ++++++++++-------------------------
 3 files changed, 14 insertions(+), 25 deletions(-)

diff --git a/internal/pkg/tree/leaf1.go b/internal/pkg/tree/leaf1.go
index 9c99baf..df25f9c 100644
--- a/internal/pkg/tree/leaf1.go
+++ b/internal/pkg/tree/leaf1.go
@@ -70,6 +70,8 @@ func (l *leaf1[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf1[T]:
 		if args.eq(l.data, n.data) {
 			return newLeaf1(args.f(l.data, n.data)), 1
diff --git a/internal/pkg/tree/leaf2.go b/internal/pkg/tree/leaf2.go
index 1659aab..7177178 100644
--- a/internal/pkg/tree/leaf2.go
+++ b/internal/pkg/tree/leaf2.go
@@ -69,6 +69,8 @@ func (l *leaf2[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 	switch n := n.(type) {
 	case *branch[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		l0, l1 := l.data[0], l.data[1]
 		n0, n1 := n.data[0], n.data[1]
diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index 8c29839..78bbfbf 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -102,47 +102,32 @@ func (l *twig[T]) Canonical(depth int) node[T] {
 	}
 }
 
-func (l *twig[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T], matches int) { //nolint:cyclop
+func (l *twig[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T], matches int) {
 	var ndata []T
 	switch n := n.(type) {
+	case *leaf1[T]:
+		ndata = []T{n.data}
+	case *leaf2[T]:
+		ndata = n.data[:]
 	case *twig[T]:
 		ndata = n.data
 	default:
 		panic(errors.ErrWTF)
 	}
 
-	cloned := false
+	ret := l.cloneWithExtra(len(ndata))
 scanning:
-	for i, e := range ndata {
+	for _, e := range ndata {
 		for j, f := range l.data {
 			if args.eq(f, e) {
-				if !cloned {
-					l = l.cloneWithExtra(0)
-					cloned = true
-				}
-				l.data[j] = args.f(f, e)
+				ret.data[j] = args.f(f, e)
 				matches++
 				continue scanning
 			}
 		}
-		if len(l.data) < maxLeafLen {
-			l = newTwig(append(l.data, e)...)
-		} else {
-			b := &branch[T]{}
-			for _, e := range l.data {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
-			for _, e := range ndata[i:] {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
-		}
-	}
-	if len(l.data) > maxLeafLen {
-		panic(errors.ErrWTF)
+		ret.data = append(ret.data, e)
 	}
-	return l.Canonical(depth), matches
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) AppendTo(dest []T) []T {
-- 
2.43.0


From 494eab69e82b483c41f96c16b146d192eef7c68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 02/20] fix: do not append into an element list shared with
 other sets

twig.With and WithFast appended in place when the element list had spare
capacity, so two sets derived from the same ancestor overwrote each
other's new element.
---
 internal/pkg/tree/twig.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index 78bbfbf..a056ad9 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -273,7 +273,9 @@ func (l *twig[T]) With(args *CombineArgs[T], v T, depth int, _ hasher) (_ node[T
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	ret := l.cloneWithExtra(1)
+	ret.data = append(ret.data, v)
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
@@ -285,7 +287,9 @@ func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	ret := l.cloneWithExtra(1)
+	ret.data = append(ret.data, v)
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) Without(v T, depth int, _ hasher) (_ node[T], matches int) {
-- 
2.43.0


From 14b3d3a0bb65c38f123c8caee14d8fb0e13bae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 03/20] fix: data races when combining sets and maps in
 parallel

branch.Combine updated the shared child mask from every goroutine, and
CombineArgs.Flip cached the flipped arguments without synchronisation.
The mask is recomputed from the children afterwards anyway.
---
 internal/pkg/tree/branch.go   |  4 ++--
 internal/pkg/tree/nodeArgs.go | 17 +++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/internal/pkg/tree/branch.go b/internal/pkg/tree/branch.go
index 8a9aa92..43d5138 100644
--- a/internal/pkg/tree/branch.go
+++ b/internal/pkg/tree/branch.go
@@ -98,9 +98,9 @@ func (b *branch[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[
 		_, matches = args.Parallel(depth, b.p.mask|n.p.mask, func(i int) (_ bool, matches int) {
 			x, y := b.p.data[i], n.p.data[i]
 			if x == nil {
-				ret.p.SetNonNilChild(i, y)
+				ret.p.data[i] = y
 			} else if y == nil {
-				ret.p.SetNonNilChild(i, x)
+				ret.p.data[i] = x
 			} else {
 				var n node[T]
 				n, matches = x.Combine(args, y, depth+1)
diff --git a/internal/pkg/tree/nodeArgs.go b/internal/pkg/tree/nodeArgs.go
index b5a109e..bde2d2f 100644
--- a/internal/pkg/tree/nodeArgs.go
+++ b/internal/pkg/tree/nodeArgs.go
@@ -38,15 +38,16 @@ func NewCombineArgs[T any](ea *EqArgs[T], combine func(a, b T) T) *CombineArgs[T
 }
 
 func (a *CombineArgs[T]) Flip() *CombineArgs[T] {
-	if a.flipped == nil {
-		f := a.f
-		a.flipped = &CombineArgs[T]{
-			EqArgs:  a.EqArgs,
-			f:       func(a, b T) T { return f(b, a) },
-			flipped: a,
-		}
+	if a.flipped != nil {
+		return a.flipped
+	}
+	// Not cached in a, which concurrent goroutines may share.
+	f := a.f
+	return &CombineArgs[T]{
+		EqArgs:  a.EqArgs,
+		f:       func(a, b T) T { return f(b, a) },
+		flipped: a,
 	}
-	return a.flipped
 }
 
 type EqArgs[T any] struct {
-- 
2.43.0


From d2c36f993a15ab2106893358b2770eeef465e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 04/20] fix: place negative integers in the right bit of an
 IntSet cell

i%cellBits is negative for negative i, so the bit mask was zero and
negative values (other than multiples of 64) were lost.
---
 intset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intset.go b/intset.go
index 5fe4545..bfd8402 100644
--- a/intset.go
+++ b/intset.go
@@ -23,7 +23,7 @@ const (
 )
 
 func locateCell[I integer](i I) (cell I, bitMask cellMask) {
-	return i >> cellShift, cellMask(1) << uint(i%cellBits)
+	return i >> cellShift, cellMask(1) << uint(i&(cellBits-1))
 }
 
 // NewIntSet returns an IntSet with the values provided.
-- 
2.43.0


From 434807b75b8d4323ee2bae875b84ce6a7d02babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 05/20] fix: remove only the given bit in BitIterator.Without

&^ and << have the same precedence, so the result was shifted.
---
 bititer.go                       | 2 +-
 internal/pkg/iterator/bititer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bititer.go b/bititer.go
index 9535fb9..dc731e5 100644
--- a/bititer.go
+++ b/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
diff --git a/internal/pkg/iterator/bititer.go b/internal/pkg/iterator/bititer.go
index a8d4f86..daf38d5 100644
--- a/internal/pkg/iterator/bititer.go
+++ b/internal/pkg/iterator/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
-- 
2.43.0


From 3c9b000f3d9d1a70ba062960f375a63f9f6667ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 06/20] fix: stop Iota3 when the next element overflows

A range whose next element after the last one is not representable
wrapped around and never ended.
---
 set_extra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/set_extra.go b/set_extra.go
index 31384ef..52988f5 100644
--- a/set_extra.go
+++ b/set_extra.go
@@ -27,11 +27,11 @@ func Iota3[T ~int](start, stop, step T) Set[T] {
 	}
 	var b SetBuilder[T]
 	if step > 0 {
-		for i := start; i < stop; i += step {
+		for i, prev := start, start; prev <= i && i < stop; i, prev = i+step, i {
 			b.Add(i)
 		}
 	} else {
-		for i := start; i > stop; i += step {
+		for i, prev := start, start; prev >= i && i > stop; i, prev = i+step, i {
 			b.Add(i)
 		}
 	}
-- 
2.43.0


From a2fa849b0de9d0233efab9c0b8f04e0cbe86ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:39 +0000
Subject: [PATCH 07/20] fix: lazy difference excludes the elements of its right
 operand from Has

---
 lazy/set_diff.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lazy/set_diff.go b/lazy/set_diff.go
index cb550c6..db1ec43 100644
--- a/lazy/set_diff.go
+++ b/lazy/set_diff.go
@@ -18,14 +18,19 @@ func difference(a, b Set) Set {
 }
 
 func (s *differenceSet) Has(el any) bool {
-	return s.a.Has(el) || s.b.Has(el)
+	return s.a.Has(el) && !s.b.Has(el)
 }
 
 func (s *differenceSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && !aHas {
+		return false, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return false, true
+	}
+	return aHas && !bHas, aOk && bOk
 }
 
 func (s *differenceSet) Range() SetIterator {
-- 
2.43.0


From d0c0beb660da0c92e615eeb554a31b7332b048be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 08/20] fix: lazy union consults its right operand in FastHas

---
 lazy/set_union.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lazy/set_union.go b/lazy/set_union.go
index f25c009..832466c 100644
--- a/lazy/set_union.go
+++ b/lazy/set_union.go
@@ -32,10 +32,15 @@ func (s *unionSet) Has(el any) bool {
 }
 
 func (s *unionSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return has, ok
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && aHas {
+		return true, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return true, true
+	}
+	return false, aOk && bOk
 }
 
 func (s *unionSet) Range() SetIterator {
-- 
2.43.0


From 20b101e5ada0223264be0299acd1b3a1ae28c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 09/20] fix: lazy EmptySet is equal to empty sets only

---
 lazy/set_empty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_empty.go b/lazy/set_empty.go
index d46248f..250a6c1 100644
--- a/lazy/set_empty.go
+++ b/lazy/set_empty.go
@@ -38,7 +38,7 @@ func (EmptySet) Freeze() Set {
 
 func (EmptySet) Equal(set any) bool {
 	if set, ok := set.(Set); ok {
-		return set.EqualSet(set)
+		return EmptySet{}.EqualSet(set)
 	}
 	return false
 }
-- 
2.43.0


From d9e51906b1aeaf7f07a5103a0af741064cf561f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 10/20] fix: count each element of a lazy set once

---
 lazy/set_base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_base.go b/lazy/set_base.go
index 27b5830..7fb9632 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -43,7 +43,7 @@ func (s *baseSet) CountUpTo(limit int) int {
 		return count
 	}
 	n := 0
-	for i := s.set.Range(); n < limit && i.Next(); {
+	for i := memo(s.set).Range(); n < limit && i.Next(); {
 		n++
 	}
 	return n
-- 
2.43.0


From 9ac686a1a6b057be71df14360192edd5e98e2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 11/20] fix: hash of a lazy set depends on its elements only

---
 lazy/set_base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_base.go b/lazy/set_base.go
index 7fb9632..374265e 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -75,8 +75,8 @@ func (s *baseSet) EqualSet(t Set) bool {
 
 func (s *baseSet) Hash(seed uintptr) uintptr {
 	h := hash.Uintptr(hashSeed, seed)
-	for i := s.set.Range(); i.Next(); {
-		h = hash.Any(i.Value(), h)
+	for i := memo(s.set).Range(); i.Next(); {
+		h ^= hash.Any(i.Value(), seed)
 	}
 	return h
 }
-- 
2.43.0


From 6cd8b101589c4a92d083dcc1047bb409b8234993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 12/20] fix: calling Next after the end does not empty a lazy
 set

---
 lazy/set_memo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lazy/set_memo.go b/lazy/set_memo.go
index 3b920fe..0014493 100644
--- a/lazy/set_memo.go
+++ b/lazy/set_memo.go
@@ -41,15 +41,20 @@ type cachingIterator struct {
 	iter SetIterator
 	s    *memoSet
 	seen frozen.SetBuilder[any]
+	done bool
 }
 
 func (i *cachingIterator) Next() bool {
+	if i.done {
+		return false
+	}
 	for i.iter.Next() {
 		if val := i.iter.Value(); !i.seen.Has(val) {
 			i.seen.Add(val)
 			return true
 		}
 	}
+	i.done = true
 	seen := Frozen(i.seen.Finish())
 	atomic.StorePointer(i.s.pointer(), unsafe.Pointer(&seen))
 	return false
-- 
2.43.0


From c877d2e7cc72096f3140bb88f66f15865dbcc1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 13/20] fix: count each common element once in lazy IsSubsetOf

---
 lazy/set_frozen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_frozen.go b/lazy/set_frozen.go
index 4145683..db4f685 100644
--- a/lazy/set_frozen.go
+++ b/lazy/set_frozen.go
@@ -58,7 +58,7 @@ func (s *frozenSet) IsSubsetOf(set Set) bool {
 	}
 
 	n := s.set.Count()
-	for i := set.Range(); n > 0 && i.Next(); {
+	for i := memo(set).Range(); n > 0 && i.Next(); {
 		if s.set.Has(i.Value()) {
 			n--
 		}
-- 
2.43.0


From 775df589c156386c6827c70b3273e46c2851bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 14/20] fix: lazy powerset has its subsets and is never empty

---
 lazy/set_powerset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index 21482cc..b11995d 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -18,7 +18,7 @@ func powerset(set Set) Set {
 }
 
 func (s *powerSet) IsEmpty() bool {
-	return s.set.IsEmpty()
+	return false
 }
 
 func (s *powerSet) FastIsEmpty() (empty, ok bool) {
@@ -57,8 +57,8 @@ func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 }
 
 func (s *powerSet) Has(el any) bool {
-	ss, ok := el.(frozen.Set[any])
-	return ok && Frozen(ss).IsSubsetOf(s.set)
+	ss, ok := el.(Set)
+	return ok && ss.IsSubsetOf(s.set)
 }
 
 func (s *powerSet) Range() SetIterator {
-- 
2.43.0


From fe9d6d584975895d3e9baa7719e30c649b1ffe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:39 +0000
Subject: [PATCH 15/20] fix: bound counts of large lazy powersets without
 overflow

---
 lazy/set_powerset.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index b11995d..99c4a2e 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -26,7 +26,7 @@ func (s *powerSet) FastIsEmpty() (empty, ok bool) {
 }
 
 func (s *powerSet) Count() int {
-	if count := s.set.Count(); count < int(8*unsafe.Sizeof(0)) {
+	if count := s.set.Count(); count < int(8*unsafe.Sizeof(0))-1 {
 		return 1 << uint(count)
 	}
 	panic("Count(): too many elements")
@@ -34,7 +34,7 @@ func (s *powerSet) Count() int {
 
 func (s *powerSet) FastCount() (count int, ok bool) {
 	if count, ok := s.set.FastCount(); ok {
-		if count < int(8*unsafe.Sizeof(0)) {
+		if count < int(8*unsafe.Sizeof(0))-1 {
 			return 1 << uint(count), true
 		}
 		panic("Count(): too many elements")
@@ -44,14 +44,13 @@ func (s *powerSet) FastCount() (count int, ok bool) {
 
 func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 	if count, ok := s.set.FastCount(); ok {
-		if count < int(8*unsafe.Sizeof(0)) {
+		if count < int(8*unsafe.Sizeof(0))-1 {
 			n := 1 << uint(count)
 			if n < limit {
 				return n, true
 			}
-			return limit, true
 		}
-		panic("Count(): too many elements")
+		return limit, true
 	}
 	return 0, false
 }
-- 
2.43.0


From f8b7df58272d433f0d20c8ee88bcd31fdf2533db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 16/20] fix: a lazy set less an empty one lists each element
 once

---
 lazy/set_diff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_diff.go b/lazy/set_diff.go
index db1ec43..ba44efd 100644
--- a/lazy/set_diff.go
+++ b/lazy/set_diff.go
@@ -10,7 +10,7 @@ func difference(a, b Set) Set {
 		return a
 	}
 	if empty, ok := b.FastIsEmpty(); ok && empty {
-		return a
+		return memo(a)
 	}
 	s := &differenceSet{a: a, b: b}
 	s.baseSet.set = s
-- 
2.43.0


From 5843fefa011b253565a56cd865e8552a9fa032ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 17/20] fix: joining with an empty relation gives the empty
 relation

---
 pkg/rel/relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rel/relation.go b/pkg/rel/relation.go
index 3d40aa1..a46ddec 100644
--- a/pkg/rel/relation.go
+++ b/pkg/rel/relation.go
@@ -59,7 +59,7 @@ func Join(relations ...Relation) Relation {
 
 func join(s, t Relation) Relation {
 	if s.IsEmpty() || t.IsEmpty() {
-		return s
+		return Relation{}
 	}
 	if s.Equal(trueSet) {
 		return t
-- 
2.43.0


From d86eea83229a7db11353d72fdbc483f066e548f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 18/20] fix: Nest groups by the attributes that are not nested
 at all

---
 pkg/rel/relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rel/relation.go b/pkg/rel/relation.go
index a46ddec..c33a6df 100644
--- a/pkg/rel/relation.go
+++ b/pkg/rel/relation.go
@@ -144,7 +144,7 @@ func Nest(s Relation, attrAttrs frozen.Map[string, frozen.Set[string]]) Relation
 	// attrAttrs = {aa: {a}}
 
 	// {a}
-	keyAttrs := frozen.Intersection(attrAttrs.Values().Elements()...).Elements()
+	keyAttrs := frozen.Union(attrAttrs.Values().Elements()...).Elements()
 	log.Print("keyAttrs = ", keyAttrs)
 
 	// {
-- 
2.43.0


From de56ae7593fa4ab119d1548702352e1a06d98553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 19/20] fix: formatting an empty set or map with %+v does not
 panic

---
 internal/pkg/tree/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/pkg/tree/tree.go b/internal/pkg/tree/tree.go
index 72e6ace..b187331 100644
--- a/internal/pkg/tree/tree.go
+++ b/internal/pkg/tree/tree.go
@@ -41,6 +41,7 @@ func (t Tree[T]) String() string {
 func (t Tree[T]) Format(f fmt.State, verb rune) {
 	if t.root == nil {
 		fu.WriteString(f, "∅")
+		return
 	}
 	t.root.Format(f, verb)
 }
-- 
2.43.0


From 84f77af976d524a7d6d2a68549dd70acfc72a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 20/20] fix: the first n elements are all of them when n
 exceeds the count

---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index d3b552f..9e574ac 100644
--- a/set.go
+++ b/set.go
@@ -104,6 +104,9 @@ func (s Set[T]) AnyN(n int) Set[T] {
 
 // OrderedFirstN returns a list of elements in a defined order.
 func (s Set[T]) OrderedFirstN(n int, less tree.Less[T]) []T {
+	if count := s.Count(); n > count {
+		n = count
+	}
 	result := make([]T, 0, n)
 	currentLength := 0
 	for i := s.tree.OrderedIterator(less, n); i.Next() && currentLength < n; currentLength++ {
-- 
2.43.0

