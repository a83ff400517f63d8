From bf23511f830b4e51fd6ec8f95ecaec190d67b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 01/26] fix: set difference with False as left operand is False

Apply(False, n, OPdiff) returned n instead of False.
---
 operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index e4ccd8b..3c7cd77 100644
--- a/operations.go
+++ b/operations.go
@@ -236,7 +236,7 @@ func (b *BDD) apply(left int, right int) int {
 			return 0
 		}
 		if left == 0 {
-			return right
+			return 0
 		}
 	case OPless:
 		if (left == right) || (left == 1) {
-- 
2.43.0


From 5456f81ec649189ea5ad3100b3a07f2e3d05e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 02/26] fix: operations on nil nodes report an error instead of
 panicking

The messages built when checkptr refuses a node dereferenced the node, so that
a nil operand (the result of any operation that fails) caused a panic instead
of an error. A nil Replacer is refused too.
---
 operations.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/operations.go b/operations.go
index 3c7cd77..0970066 100644
--- a/operations.go
+++ b/operations.go
@@ -101,7 +101,7 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 // the zero-terminal with references to the one-terminal and vice versa.
 func (b *BDD) Not(n Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong operand in call to Not (%d)", *n)
+		return b.seterror("Wrong operand in call to Not")
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -145,10 +145,10 @@ func (b *BDD) not(n int) int {
 //    OPinvimp      reverse implication      [1,0,1,1]
 func (b *BDD) Apply(n1, n2 Node, op Operator) Node {
 	if b.checkptr(n1) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: %d, n2: ...)", op, *n1)
+		return b.seterror("Wrong operand in call to Apply %s (n1)", op)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: ..., n2: %d)", op, *n2)
+		return b.seterror("Wrong operand in call to Apply %s (n2)", op)
 	}
 	b.applycache.op = int(op)
 	b.Initref()
@@ -305,13 +305,13 @@ func (b *BDD) apply(left int, right int) int {
 // & g) | (!f & h)] more efficiently than doing the three operations separately.
 func (b *BDD) Ite(f, g, h Node) Node {
 	if b.checkptr(f) != nil {
-		return b.seterror("Wrong operand in call to Ite (f: %d)", *f)
+		return b.seterror("Wrong operand in call to Ite (f)")
 	}
 	if b.checkptr(g) != nil {
-		return b.seterror("Wrong operand in call to Ite (g: %d)", *g)
+		return b.seterror("Wrong operand in call to Ite (g)")
 	}
 	if b.checkptr(h) != nil {
-		return b.seterror("Wrong operand in call to Ite (h: %d)", *h)
+		return b.seterror("Wrong operand in call to Ite (h)")
 	}
 	b.Initref()
 	b.Pushref(*f)
@@ -393,10 +393,10 @@ func (b *BDD) ite(f, g, h int) int {
 // nil and set the error flag in b if there is an error.
 func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong node in call to Exist (n: %d)", *n)
+		return b.seterror("Wrong node in call to Exist (n)")
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
+		return b.seterror("Wrong varset in call to Exist")
 	}
 	if err := b.quantset2cache(*varset); err != nil {
 		return nil
@@ -448,16 +448,16 @@ func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 		return b.seterror("operator %s not supported in call to AppEx")
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("wrong varset in call to AppEx (%d)", *varset)
+		return b.seterror("wrong varset in call to AppEx")
 	}
 	if *varset < 2 { // we have an empty set
 		return b.Apply(n1, n2, op)
 	}
 	if b.checkptr(n1) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(left: %d)", op, *n1)
+		return b.seterror("wrong operand in call to AppEx %s (left)", op)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(right: %d)", op, *n2)
+		return b.seterror("wrong operand in call to AppEx %s (right)", op)
 	}
 	if err := b.quantset2cache(*varset); err != nil {
 		return nil
@@ -592,7 +592,10 @@ func (b *BDD) appquant(left, right, varset int) int {
 // variables with new ones. See type Replacer.
 func (b *BDD) Replace(n Node, r Replacer) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("wrong operand in call to Replace (%d)", *n)
+		return b.seterror("wrong operand in call to Replace")
+	}
+	if r == nil {
+		return b.seterror("nil Replacer in call to Replace")
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -658,7 +661,7 @@ func (b *BDD) correctify(level int32, low, high int) int {
 func (b *BDD) Satcount(n Node) *big.Int {
 	res := big.NewInt(0)
 	if b.checkptr(n) != nil {
-		b.seterror("Wrong operand in call to Satcount (%d)", *n)
+		b.seterror("Wrong operand in call to Satcount")
 		return res
 	}
 	// We compute 2^level with a bit shift 1 << level
@@ -698,7 +701,7 @@ func (b *BDD) satcount(n int, satc map[int]*big.Int) *big.Int {
 // point.
 func (b *BDD) Allsat(f func([]int) error, n Node) error {
 	if b.checkptr(n) != nil {
-		return fmt.Errorf("wrong node in call to Allsat (%d)", *n)
+		return fmt.Errorf("wrong node in call to Allsat; %s", b.error)
 	}
 	prof := make([]int, b.varnum)
 	for k := range prof {
-- 
2.43.0


From 079b7fe03b29906e1750bbbfe6ee1d0c47438796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 03/26] fix: Ithvar and NIthvar refuse indices above 2^31

The index was truncated to 32 bits before it was compared with the number of
variables.
---
 bdd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdd.go b/bdd.go
index 002580d..4b24291 100644
--- a/bdd.go
+++ b/bdd.go
@@ -263,7 +263,7 @@ func (b *BDD) checkptr(n Node) error {
 // expression xi), otherwise we set the error status in the BDD and returns the
 // nil node. The requested variable must be in the range [0..Varnum).
 func (b *BDD) Ithvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to ithvar", i)
 	}
 	// we do not need to reference count variables
@@ -274,7 +274,7 @@ func (b *BDD) Ithvar(i int) Node {
 // success (the expression !xi), otherwise the nil node. See *ithvar* for
 // further info.
 func (b *BDD) NIthvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to nithvar", i)
 	}
 	// we do not need to reference count variables
-- 
2.43.0


From 53db2cd501c22cec59d8172539fa280fc4fa3164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 04/26] fix: Makeset and Makecube check their variables

A variable outside the BDD created a malformed node, instead of setting the
error condition. Makeset also built malformed nodes from lists that are not
sorted or that contain repetitions.
---
 operations.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index 0970066..6d1897c 100644
--- a/operations.go
+++ b/operations.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"math/big"
+	"sort"
 )
 
 // Scanset returns the set of variables (levels) found when following the high
@@ -43,13 +44,25 @@ func (b *BDD) Makeset(varset []int) Node {
 	// 	res = tmp
 	// }
 	// return res
+	for _, v := range varset {
+		if v < 0 || v >= int(b.varnum) {
+			b.seterror("Unknown variable used (%d) in call to Makeset", v)
+			return bddzero
+		}
+	}
+	// nodes must be created by order of decreasing levels, without repetition
+	varset = append([]int(nil), varset...)
+	sort.Ints(varset)
 	res := 1
 	b.Initref()
 	for k := len(varset) - 1; k >= 0; k-- {
+		if k > 0 && varset[k] == varset[k-1] {
+			continue
+		}
 		res = b.Makenode(int32(varset[k]), 0, res)
 		b.Pushref(res)
 	}
-	b.Popref(len(varset))
+	b.Initref()
 	return b.Retnode(res)
 }
 
@@ -83,6 +96,11 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 	if len(varset) != len(polarity) {
 		return b.seterror("wrong size for slices in Makecube")
 	}
+	for _, v := range varset {
+		if v < 0 || v >= int(b.varnum) {
+			return b.seterror("Unknown variable used (%d) in call to Makecube", v)
+		}
+	}
 	b.Initref()
 	for k := len(polarity) - 1; k >= 0; k-- {
 		if polarity[k] {
-- 
2.43.0


From 1d9a59b5a3456cbf097ff8fb00e093b6c73e06e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 05/26] fix: Exist with an empty set of variables returns its
 operand

The test for an empty set came after quantset2cache, which refuses constants, so
Exist(n, True) returned nil and set the error status.
---
 operations.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operations.go b/operations.go
index 6d1897c..8e942f0 100644
--- a/operations.go
+++ b/operations.go
@@ -416,12 +416,12 @@ func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(varset) != nil {
 		return b.seterror("Wrong varset in call to Exist")
 	}
-	if err := b.quantset2cache(*varset); err != nil {
-		return nil
-	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
 	}
+	if err := b.quantset2cache(*varset); err != nil {
+		return nil
+	}
 
 	b.quantcache.id = cacheidEXIST
 	b.applycache.op = int(OPor)
-- 
2.43.0


From 45b461fa586037996f93bf56fea9207778dd9bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 06/26] fix: NewReplacer checks its variables before using them

Indices outside [0..Varnum) caused a panic, and a variable found twice in
newvars was accepted.
---
 replace.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/replace.go b/replace.go
index 6a33658..d54b156 100644
--- a/replace.go
+++ b/replace.go
@@ -73,17 +73,22 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 	for k := range res.image {
 		res.image[k] = int32(k)
 	}
+	newsupport := make([]bool, varnum)
 	for k, v := range oldvars {
+		if v < 0 || v >= varnum {
+			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
+		}
+		if newvars[k] < 0 || newvars[k] >= varnum {
+			return nil, fmt.Errorf("invalid variable in newvars (%d)", newvars[k])
+		}
 		if support[v] {
 			return nil, fmt.Errorf("duplicate variable (%d) in oldvars", v)
 		}
-		if v >= varnum {
-			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
-		}
-		if newvars[k] >= varnum {
-			return nil, fmt.Errorf("invalid variable in newvars (%d)", v)
+		if newsupport[newvars[k]] {
+			return nil, fmt.Errorf("duplicate variable (%d) in newvars", newvars[k])
 		}
 		support[v] = true
+		newsupport[newvars[k]] = true
 		res.image[v] = int32(newvars[k])
 		if int32(v) > res.last {
 			res.last = int32(v)
-- 
2.43.0


From 2782e54a2833c94d901efa0113f1ed726898d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 07/26] fix: the counter of replacers is safe for concurrent
 use

It is shared by all BDDs, so that using two BDDs from two goroutines was a data
race.
---
 replace.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/replace.go b/replace.go
index d54b156..1731316 100644
--- a/replace.go
+++ b/replace.go
@@ -7,9 +7,12 @@ package rudd
 import (
 	"fmt"
 	"math"
+	"sync/atomic"
 )
 
-var _REPLACEID = 1
+// _REPLACEID is the number of replacers created so far. It is shared between all
+// BDDs, that can be used from different goroutines.
+var _REPLACEID int64
 
 // Replacer is the types of substitution objects used in a Replace operation,
 // that substitutes variables in a BDD "function". The only method returning an
@@ -62,11 +65,11 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 	if len(oldvars) != len(newvars) {
 		return nil, fmt.Errorf("unmatched length of slices")
 	}
-	if _REPLACEID == (math.MaxInt32 >> 2) {
+	id := int(atomic.AddInt64(&_REPLACEID, 1))
+	if id >= (math.MaxInt32 >> 2) {
 		return nil, fmt.Errorf("too many replacers created")
 	}
-	res.id = (_REPLACEID << 2) | cacheidREPLACE
-	_REPLACEID++
+	res.id = (id << 2) | cacheidREPLACE
 	varnum := b.Varnum()
 	support := make([]bool, varnum)
 	res.image = make([]int32, varnum)
-- 
2.43.0


From aa26d083b2752ca0a14968547cf918b345d064a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 08/26] fix: Allsat stops and returns the error of its callback

---
 operations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operations.go b/operations.go
index 8e942f0..1bc3baf 100644
--- a/operations.go
+++ b/operations.go
@@ -744,7 +744,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(low, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 
@@ -754,7 +754,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(high, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From c793522bcbde2d53d6dbd2d21a924164708b1482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 09/26] fix: the buddy table can grow by less than a prime gap

With a small Maxnodeincrease, or close to Maxnodesize, the largest prime below
the new size could be the current size, in which case the operation failed.
---
 bkernel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bkernel.go b/bkernel.go
index 9983ede..741d553 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -128,7 +128,10 @@ func (b *tables) noderesize() error {
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
 		nodesize = b.maxnodesize
 	}
-	nodesize = primeLte(nodesize)
+	// we prefer a prime number, but not when it would prevent the table to grow
+	if p := primeLte(nodesize); p > oldsize {
+		nodesize = p
+	}
 	if nodesize <= oldsize {
 		// b.seterror("Unable to grow size of BDD (%d nodes)", nodesize)
 		return errMemory
-- 
2.43.0


From 0c9df4c2550bd8cd7573e22036244492fc01c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 10/26] fix: Allnodes does not leave marks on nodes while it
 calls its function

The function given to Allnodes can use the BDD. A nested call to Allnodes, or a
garbage collection, found the marks of the visit in progress: nodes were not
visited, or were visited twice, or were not protected.
---
 bkernel.go |  9 ---------
 buddy.go   | 12 ++++++++----
 hkernel.go |  9 ---------
 hudd.go    | 23 +++++++++--------------
 4 files changed, 17 insertions(+), 36 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 741d553..d098414 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -259,12 +259,3 @@ func (b *tables) markrec(n int) {
 	b.markrec(b.nodes[n].low)
 	b.markrec(b.nodes[n].high)
 }
-
-func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
-			continue
-		}
-		b.unmarknode(k)
-	}
-}
diff --git a/buddy.go b/buddy.go
index 3f6e8c3..1bb8aed 100644
--- a/buddy.go
+++ b/buddy.go
@@ -178,13 +178,17 @@ func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node)
 	// 	b.unmarkall()
 	// 	return err
 	// }
+	// we clear the marks before calling f, that can use the BDD
+	ids := []int{}
 	for k := range b.nodes {
 		if b.ismarked(k) {
 			b.unmarknode(k)
-			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
-				b.unmarkall()
-				return err
-			}
+			ids = append(ids, k)
+		}
+	}
+	for _, k := range ids {
+		if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
+			return err
 		}
 	}
 	return nil
diff --git a/hkernel.go b/hkernel.go
index 554c344..b74424a 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -207,12 +207,3 @@ func (b *tables) markrec(n int) {
 	b.markrec(b.nodes[n].low)
 	b.markrec(b.nodes[n].high)
 }
-
-func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
-			continue
-		}
-		b.unmarknode(k)
-	}
-}
diff --git a/hudd.go b/hudd.go
index bd817d1..bda7ac2 100644
--- a/hudd.go
+++ b/hudd.go
@@ -252,22 +252,17 @@ func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node)
 	// 	b.unmarkall()
 	// 	return err
 	// }
-	b.RLock()
-	count := len(b.nodes)
-	b.RUnlock()
-
-	for k := 0; k < count; k++ {
-		b.RLock()
-		if k >= len(b.nodes) {
-			break
-		}
-		b.RUnlock()
+	// we clear the marks before calling f, that can use the BDD
+	ids := []int{}
+	for k := range b.nodes {
 		if b.ismarked(k) {
 			b.unmarknode(k)
-			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
-				b.unmarkall()
-				return err
-			}
+			ids = append(ids, k)
+		}
+	}
+	for _, k := range ids {
+		if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From 1b545f575b143171476845e8a3889df1e847f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 11/26] fix: Allsat and Allnodes keep their arguments alive

When the argument was the last reference to a node, a garbage collection
triggered from the callback could reclaim the diagram being visited.
---
 operations.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index 1bc3baf..b659c96 100644
--- a/operations.go
+++ b/operations.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"math/big"
+	"runtime"
 	"sort"
 )
 
@@ -726,7 +727,8 @@ func (b *BDD) Allsat(f func([]int) error, n Node) error {
 		prof[k] = -1
 	}
 	// the function does not create new nodes, so we do not need to take care of
-	// possible resizing
+	// possible resizing. But f can use the BDD, so n should not be reclaimed.
+	defer runtime.KeepAlive(n)
 	return b.allsat(*n, prof, f)
 }
 
@@ -780,5 +782,7 @@ func (b *BDD) Allnodes(f func(id, level, low, high int) error, n ...Node) error
 		// we call f over all active nodes
 		return b.allnodes(f)
 	}
+	// f can use the BDD, so the nodes in n should not be reclaimed.
+	defer runtime.KeepAlive(n)
 	return b.allnodesfrom(f, n)
 }
-- 
2.43.0


From 9448eb820a89cb523531e53f1c7096f28dc16022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 12/26] fix: finalizers do not race with the operations on the
 BDD

Finalizers run in a goroutine of the Go runtime. They changed the reference
counts, and read the node table, while an operation could be updating the same
count, or copying the table to a bigger one. A lost update keeps a node forever
or reclaims a node that is still referenced. Finalizers now only record which
reference was dropped, and the goroutine that uses the BDD updates the counts.
---
 bkernel.go |  7 +++++--
 buddy.go   |  5 ++---
 hkernel.go |  7 +++++--
 hudd.go    |  7 ++-----
 kernel.go  | 34 ++++++++++++++++++++++++++++++++++
 5 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index d098414..dde03b4 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -10,7 +10,6 @@ import (
 	"log"
 	"math"
 	"runtime"
-	"sync/atomic"
 )
 
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
@@ -28,12 +27,13 @@ func (b *tables) Retnode(n int) Node {
 	if n == 1 {
 		return bddone
 	}
+	b.release()
 	x := n
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
 		if _DEBUG {
-			atomic.AddUint64(&(b.setfinalizers), 1)
+			b.setfinalizers++
 			if _LOGLEVEL > 2 {
 				log.Printf("inc refcou %d\n", n)
 			}
@@ -195,6 +195,9 @@ func (b *tables) gbc(refstack []int) {
 	//
 	// runtime.GC()
 
+	// we take into account the external references that were reclaimed
+	b.release()
+
 	// we append the current stats to the GC history
 	if _DEBUG {
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
diff --git a/buddy.go b/buddy.go
index 1bb8aed..083d0ca 100644
--- a/buddy.go
+++ b/buddy.go
@@ -9,7 +9,6 @@ package rudd
 import (
 	"fmt"
 	"log"
-	"sync/atomic"
 	"unsafe"
 )
 
@@ -26,6 +25,7 @@ type tables struct {
 	uniqueChain   int         // iterations through the cache chains in the unique node table
 	uniqueHit     int         // entries actually found in the the unique node table
 	uniqueMiss    int         // entries not found in the the unique node table
+	released                  // External references reclaimed by the Go runtime
 	gcstat                    // Information about garbage collections
 	configs                   // Configurable parameters
 }
@@ -121,12 +121,11 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl.gcstat.history = []gcpoint{}
 	impl.nodefinalizer = func(n *int) {
 		if _DEBUG {
-			atomic.AddUint64(&(impl.gcstat.calledfinalizers), 1)
 			if _LOGLEVEL > 2 {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		impl.released.add(*n)
 	}
 	for k := 0; k < config.varnum; k++ {
 		v0, _ := impl.makenode(int32(k), 0, 1, nil)
diff --git a/hkernel.go b/hkernel.go
index b74424a..e1c8b93 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -10,7 +10,6 @@ import (
 	"log"
 	"math"
 	"runtime"
-	"sync/atomic"
 )
 
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
@@ -28,12 +27,13 @@ func (b *tables) Retnode(n int) Node {
 	if n == 1 {
 		return bddone
 	}
+	b.release()
 	x := n
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
 		if _DEBUG {
-			atomic.AddUint64(&(b.setfinalizers), 1)
+			b.setfinalizers++
 			if _LOGLEVEL > 2 {
 				log.Printf("inc refcou %d\n", n)
 			}
@@ -93,6 +93,9 @@ func (b *tables) gbc(refstack []int) {
 
 	// runtime.GC()
 
+	// we take into account the external references that were reclaimed
+	b.release()
+
 	// we append the current stats to the GC history
 	if _DEBUG {
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
diff --git a/hudd.go b/hudd.go
index bda7ac2..1cd6597 100644
--- a/hudd.go
+++ b/hudd.go
@@ -11,7 +11,6 @@ import (
 	"fmt"
 	"log"
 	"sync"
-	"sync/atomic"
 	"unsafe"
 )
 
@@ -32,6 +31,7 @@ type tables struct {
 	uniqueAccess  int                    // accesses to the unique node table
 	uniqueHit     int                    // entries actually found in the the unique node table
 	uniqueMiss    int                    // entries not found in the the unique node table
+	released                             // External references reclaimed by the Go runtime
 	gcstat                               // Information about garbage collections
 	configs                              // Configurable parameters
 }
@@ -142,15 +142,12 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	}
 	impl.gcstat.history = []gcpoint{}
 	impl.nodefinalizer = func(n *int) {
-		b.Lock()
-		defer b.Unlock()
 		if _DEBUG {
-			atomic.AddUint64(&(impl.gcstat.calledfinalizers), 1)
 			if _LOGLEVEL > 2 {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		impl.released.add(*n)
 	}
 	b.tables = impl
 	b.cacheinit(config)
diff --git a/kernel.go b/kernel.go
index 214df37..bdd9435 100644
--- a/kernel.go
+++ b/kernel.go
@@ -6,6 +6,7 @@ package rudd
 
 import (
 	"errors"
+	"sync"
 )
 
 // number of bytes in a int (adapted from uintSize in the math/bits package)
@@ -34,3 +35,36 @@ const _DEFAULTMAXNODEINC int = 1 << 20
 var errMemory = errors.New("unable to free memory or resize BDD")
 var errResize = errors.New("should cache resize") // when gbc and then noderesize
 var errReset = errors.New("should cache reset")   // when gbc only, without resizing
+
+// released lists the external references that were reclaimed by the Go runtime
+// and whose reference count should be decremented. Finalizers run in their own
+// goroutine, concurrently with the operations on the BDD, so they only add to
+// this list.
+type released struct {
+	mu    sync.Mutex
+	nodes []int
+}
+
+func (r *released) add(n int) {
+	r.mu.Lock()
+	r.nodes = append(r.nodes, n)
+	r.mu.Unlock()
+}
+
+func (r *released) take() []int {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	res := r.nodes
+	r.nodes = nil
+	return res
+}
+
+// release updates the reference counts of the nodes found in the list released.
+func (b *tables) release() {
+	for _, n := range b.released.take() {
+		b.nodes[n].refcou--
+		if _DEBUG {
+			b.calledfinalizers++
+		}
+	}
+}
-- 
2.43.0


From 9e6a43475681ba74082a7a9d4f01fea6eaf99b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 13/26] fix: a node with a saturated reference count is never
 reclaimed

References above _MAXREFCOUNT are not counted and have no finalizer. Dropping
the references that were counted brought the count to zero, and the node was
reclaimed while the other references were still in use.
---
 kernel.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kernel.go b/kernel.go
index bdd9435..e43cf9b 100644
--- a/kernel.go
+++ b/kernel.go
@@ -62,7 +62,11 @@ func (r *released) take() []int {
 // release updates the reference counts of the nodes found in the list released.
 func (b *tables) release() {
 	for _, n := range b.released.take() {
-		b.nodes[n].refcou--
+		// nodes that reached the maximal count are kept forever, because there
+		// can be references to them that were not counted
+		if b.nodes[n].refcou < _MAXREFCOUNT {
+			b.nodes[n].refcou--
+		}
 		if _DEBUG {
 			b.calledfinalizers++
 		}
-- 
2.43.0


From b283c79a3951c877e77bfa64faf5bd81b37aa5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 14/26] fix: Maxnodesize limits the size of the node table

The option was ignored. When the limit is reached, an operation now sets the
error status and returns a nil node: we stop at the first allocation that fails,
we reset the caches, since there was a garbage collection, and we never build
nodes from the result of a failed computation. We also use the free nodes that
are left when the table cannot be resized.
---
 bdd.go        |  9 +++++++++
 bkernel.go    |  7 ++++---
 buddy.go      |  1 +
 hkernel.go    |  7 ++++---
 hudd.go       |  1 +
 operations.go | 21 +++++++++++++++++++++
 6 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/bdd.go b/bdd.go
index 4b24291..d54be13 100644
--- a/bdd.go
+++ b/bdd.go
@@ -152,6 +152,7 @@ type BDD struct {
 	varnum   int32    // Number of BDD variables.
 	varset   [][2]int // Set of variables used for Ithvar and NIthvar: we have a pair for each variable for its positive and negative occurrence
 	refstack []int    // Internal node reference stack, used to avoid collecting nodes while they are being processed.
+	failed   bool     // True when the operation in progress cannot be completed; we stop computing as soon as possible in this case.
 	error             // Error status: we use nil Nodes to signal a problem and store the error in this field. This help chain operations together.
 	caches            // Set of caches used for the operations in the BDD
 	*tables           // Underlying struct that encapsulates the list of nodes
@@ -167,6 +168,9 @@ func (b *BDD) Varnum() int {
 // exist or creates a new one in the BDD. You can create a node from the value
 // returned by Makenode using function Retnode.
 func (b *BDD) Makenode(level int32, low, high int) int {
+	if low < 0 || high < 0 {
+		return -1
+	}
 	res, err := b.tables.makenode(level, low, high, b.refstack)
 	if err == nil {
 		return res
@@ -183,6 +187,10 @@ func (b *BDD) Makenode(level int32, low, high int) int {
 		b.cacheresize(b.size())
 		return res
 	}
+	// There is no room for a new node. We had a GC, like with a reset.
+	b.cachereset()
+	b.failed = true
+	b.seterror("%s", err)
 	return res
 }
 
@@ -202,6 +210,7 @@ type caches struct {
 // Initref in a function that creates new nodes.
 func (b *BDD) Initref() {
 	b.refstack = b.refstack[:0]
+	b.failed = false
 }
 
 // Pushref is a kernel function of the BDD package. Use it at your own risk.
diff --git a/bkernel.go b/bkernel.go
index dde03b4..7abcdec 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -78,9 +78,10 @@ func (b *tables) makenode(level int32, low, high int, refstack []int) (int, erro
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			// we can still use the free nodes found during the GC, if any, when
+			// we cannot resize
+			if b.noderesize() == errResize {
+				err = errResize
 			}
 			hash = b.nodehash(level, low, high)
 		}
diff --git a/buddy.go b/buddy.go
index 083d0ca..19c0e62 100644
--- a/buddy.go
+++ b/buddy.go
@@ -94,6 +94,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	b.error = nil
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
+	impl.maxnodesize = config.maxnodesize
 	impl.maxnodeincrease = config.maxnodeincrease
 	nodesize := primeGte(config.nodesize)
 	impl.nodes = make([]buddynode, nodesize)
diff --git a/hkernel.go b/hkernel.go
index e1c8b93..b13642b 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -70,9 +70,10 @@ func (b *tables) makenode(level int32, low int, high int, refstack []int) (int,
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			// we can still use the free nodes found during the GC, if any, when
+			// we cannot resize
+			if b.noderesize() == errResize {
+				err = errResize
 			}
 		}
 		// Panic if we still have no free positions after all this
diff --git a/hudd.go b/hudd.go
index 1cd6597..faa89d8 100644
--- a/hudd.go
+++ b/hudd.go
@@ -94,6 +94,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	b.error = nil
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
+	impl.maxnodesize = config.maxnodesize
 	impl.maxnodeincrease = config.maxnodeincrease
 	// initializing the list of nodes
 	nodesize := config.nodesize
diff --git a/operations.go b/operations.go
index b659c96..7d413e0 100644
--- a/operations.go
+++ b/operations.go
@@ -130,6 +130,9 @@ func (b *BDD) Not(n Node) Node {
 }
 
 func (b *BDD) not(n int) int {
+	if b.failed {
+		return -1
+	}
 	if n == 0 {
 		return 1
 	}
@@ -179,6 +182,9 @@ func (b *BDD) Apply(n1, n2 Node, op Operator) Node {
 }
 
 func (b *BDD) apply(left int, right int) int {
+	if b.failed {
+		return -1
+	}
 	switch Operator(b.applycache.op) {
 	case OPand:
 		if left == right {
@@ -374,6 +380,9 @@ func min3(p, q, r int32) int32 {
 }
 
 func (b *BDD) ite(f, g, h int) int {
+	if b.failed {
+		return -1
+	}
 	switch {
 	case f == 1:
 		return g
@@ -435,6 +444,9 @@ func (b *BDD) Exist(n, varset Node) Node {
 }
 
 func (b *BDD) quant(n, varset int) int {
+	if b.failed {
+		return -1
+	}
 	if (n < 2) || (b.level(n) > b.quantlast) {
 		return n
 	}
@@ -496,6 +508,9 @@ func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 }
 
 func (b *BDD) appquant(left, right, varset int) int {
+	if b.failed {
+		return -1
+	}
 	switch Operator(b.appexcache.op) {
 	case OPand:
 		if left == 0 || right == 0 {
@@ -625,6 +640,9 @@ func (b *BDD) Replace(n Node, r Replacer) Node {
 }
 
 func (b *BDD) replace(n int, r Replacer) int {
+	if b.failed {
+		return -1
+	}
 	image, ok := r.Replace(b.level(n))
 	if !ok {
 		return n
@@ -640,6 +658,9 @@ func (b *BDD) replace(n int, r Replacer) int {
 }
 
 func (b *BDD) correctify(level int32, low, high int) int {
+	if b.failed {
+		return -1
+	}
 	/* FIXME: we do not use the cache here */
 	if (level < b.level(low)) && (level < b.level(high)) {
 		return b.Makenode(level, low, high)
-- 
2.43.0


From 008998223d910bd7bd2ec2c4ccb471d9d71eb420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 15/26] fix: Replace fails cleanly when a new variable occurs
 in its operand

The error was detected but the computation went on with a negative node index,
which caused a panic or created malformed nodes.
---
 operations.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/operations.go b/operations.go
index 7d413e0..ad762ed 100644
--- a/operations.go
+++ b/operations.go
@@ -667,6 +667,7 @@ func (b *BDD) correctify(level int32, low, high int) int {
 	}
 
 	if (level == b.level(low)) || (level == b.level(high)) {
+		b.failed = true
 		b.seterror("error in replace level (%d) == low (%d:%d) or high (%d:%d)", level, low, b.level(low), high, b.level(high))
 		return -1
 	}
-- 
2.43.0


From 735b4ef1b5a7e3afb4a51c1a430eb715bdf7f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 16/26] fix: error messages are not used as formatting strings

---
 errors.go     | 3 +--
 operations.go | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/errors.go b/errors.go
index 7db6976..95de5e5 100644
--- a/errors.go
+++ b/errors.go
@@ -24,8 +24,7 @@ func (b *BDD) Errored() bool {
 
 func (b *BDD) seterror(format string, a ...interface{}) Node {
 	if b.error != nil {
-		format = format + "; " + b.Error()
-		b.error = fmt.Errorf(format, a...)
+		b.error = fmt.Errorf("%s; %s", fmt.Sprintf(format, a...), b.Error())
 		return nil
 	}
 	b.error = fmt.Errorf(format, a...)
diff --git a/operations.go b/operations.go
index ad762ed..e169071 100644
--- a/operations.go
+++ b/operations.go
@@ -476,7 +476,7 @@ func (b *BDD) quant(n, varset int) int {
 func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 	// FIXME: should check that op is a binary operation
 	if int(op) > 3 {
-		return b.seterror("operator %s not supported in call to AppEx")
+		return b.seterror("operator %s not supported in call to AppEx", op)
 	}
 	if b.checkptr(varset) != nil {
 		return b.seterror("wrong varset in call to AppEx")
-- 
2.43.0


From aae9064e6cc61b53a0df2d913452b87d172219b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 17/26] fix: Dot reports the error when one of its nodes is
 invalid

---
 stdio.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdio.go b/stdio.go
index 05686f8..725244f 100644
--- a/stdio.go
+++ b/stdio.go
@@ -94,13 +94,13 @@ func printSet(w io.Writer, nodes [][4]int) {
 func (b *BDD) Dot(w io.Writer, n ...Node) error {
 	if mesg := b.Error(); mesg != "" {
 		fmt.Fprintf(w, "Error: %s\n", mesg)
-		return fmt.Errorf(mesg)
+		return b.error
 	}
 	// we write the result by visiting each node but we never draw edges to the
 	// False constant.
 	fmt.Fprintln(w, "digraph G {")
 	fmt.Fprintln(w, "1 [shape=box, label=\"1\", style=filled, shape=box, height=0.3, width=0.3];")
-	_ = b.Allnodes(func(id, level, low, high int) error {
+	err := b.Allnodes(func(id, level, low, high int) error {
 		if id > 1 {
 			fmt.Fprintf(w, "%d %s\n", id, dotlabel(id, level))
 			if low != 0 {
@@ -113,7 +113,7 @@ func (b *BDD) Dot(w io.Writer, n ...Node) error {
 		return nil
 	}, n...)
 	fmt.Fprintln(w, "}")
-	return nil
+	return err
 }
 
 func dotlabel(a int, b int) string {
-- 
2.43.0


From 092edbec4bdd4b6bb2c089e816d294066f970fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:07 +0000
Subject: [PATCH 18/26] fix: Retnode refuses the first index after the node
 table

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 7abcdec..48797a9 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -15,7 +15,7 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
 		}
diff --git a/hkernel.go b/hkernel.go
index b13642b..83a91e8 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -15,7 +15,7 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("b.retnode(%d) not valid\n", n)
 		}
-- 
2.43.0


From f7f8b2da60b3c6450a79e4de08c601492dc2a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 19/26] fix: operations that fail return nil with the build tag
 debug

An operation that cannot be completed (unsupported operator, impossible
replacement, table at its maximal size) returns nil. With the build tag debug,
Retnode panicked instead.
---
 bkernel.go    | 2 +-
 hkernel.go    | 2 +-
 operations.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 48797a9..6d8f242 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -17,7 +17,7 @@ import (
 func (b *tables) Retnode(n int) Node {
 	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
-			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
+			log.Printf("unexpected error; b.retnode(%d) not valid\n", n)
 		}
 		return nil
 	}
diff --git a/hkernel.go b/hkernel.go
index 83a91e8..e522697 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -17,7 +17,7 @@ import (
 func (b *tables) Retnode(n int) Node {
 	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
-			log.Panicf("b.retnode(%d) not valid\n", n)
+			log.Printf("b.retnode(%d) not valid\n", n)
 		}
 		return nil
 	}
diff --git a/operations.go b/operations.go
index e169071..2767db9 100644
--- a/operations.go
+++ b/operations.go
@@ -560,7 +560,7 @@ func (b *BDD) appquant(left, right, varset int) int {
 		// OPnot and OPsimplify should not be used in apply.
 		//
 		// FIXME: we are raising an error for other operations that would be OK.
-		b.seterror("unauthorized operation (%s) in AppEx", b.applycache.op)
+		b.seterror("unauthorized operation (%s) in AppEx", Operator(b.appexcache.op))
 		return -1
 	}
 
-- 
2.43.0


From 8bb4cb4b69f7289b4f41f786cc72c5e1599b753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 20/26] fix: the initial table of the buddy implementation
 respects Maxnodesize

The size was rounded up to a prime number that could exceed the limit.
---
 buddy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/buddy.go b/buddy.go
index 19c0e62..36bf16f 100644
--- a/buddy.go
+++ b/buddy.go
@@ -97,6 +97,9 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl.maxnodesize = config.maxnodesize
 	impl.maxnodeincrease = config.maxnodeincrease
 	nodesize := primeGte(config.nodesize)
+	if config.maxnodesize > 0 && nodesize > config.maxnodesize {
+		nodesize = config.nodesize
+	}
 	impl.nodes = make([]buddynode, nodesize)
 	for k := range impl.nodes {
 		impl.nodes[k] = buddynode{
-- 
2.43.0


From 81e540d783442bf558e6461e9b1ca6f45b9f2efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 21/26] fix: And and Or check their operand when there is only
 one

---
 bdd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bdd.go b/bdd.go
index d54be13..8b2467c 100644
--- a/bdd.go
+++ b/bdd.go
@@ -326,6 +326,9 @@ func (b *BDD) High(n Node) Node {
 // computes the intersection of a sequence of Boolean vectors.
 func (b *BDD) And(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return b.seterror("Wrong operand in call to And")
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
@@ -338,6 +341,9 @@ func (b *BDD) And(n ...Node) Node {
 // the union of a sequence of Boolean vectors.
 func (b *BDD) Or(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return b.seterror("Wrong operand in call to Or")
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
-- 
2.43.0


From 8772a2570498697c79b61018d3b4a08358cb232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 22/26] fix: grow the node table when no node is free, whatever
 Minfreenodes is

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 6d8f242..36dda07 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -77,7 +77,7 @@ func (b *tables) makenode(level int32, low, high int, refstack []int) (int, erro
 		b.gbc(refstack)
 		err = errReset
 		// We also test if we are under the threshold for resising.
-		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
+		if b.freepos == 0 || (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
 			// we can still use the free nodes found during the GC, if any, when
 			// we cannot resize
 			if b.noderesize() == errResize {
diff --git a/hkernel.go b/hkernel.go
index e522697..c6d8f42 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -69,7 +69,7 @@ func (b *tables) makenode(level int32, low int, high int, refstack []int) (int,
 		b.gbc(refstack)
 		err = errReset
 		// We also test if we are under the threshold for resising.
-		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
+		if b.freepos == 0 || (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
 			// we can still use the free nodes found during the GC, if any, when
 			// we cannot resize
 			if b.noderesize() == errResize {
-- 
2.43.0


From 109a92a7d757a6695ad318a65f2f035d4715c7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 23/26] fix: a very large Maxnodeincrease does not prevent the
 table from growing

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 36dda07..c4e9749 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -123,7 +123,7 @@ func (b *tables) noderesize() error {
 	} else {
 		nodesize = nodesize << 1
 	}
-	if b.maxnodeincrease > 0 && nodesize > (oldsize+b.maxnodeincrease) {
+	if b.maxnodeincrease > 0 && nodesize-oldsize > b.maxnodeincrease {
 		nodesize = oldsize + b.maxnodeincrease
 	}
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
diff --git a/hkernel.go b/hkernel.go
index c6d8f42..eb29f07 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -169,7 +169,7 @@ func (b *tables) noderesize() error {
 	} else {
 		nodesize = nodesize << 1
 	}
-	if b.maxnodeincrease > 0 && nodesize > (oldsize+b.maxnodeincrease) {
+	if b.maxnodeincrease > 0 && nodesize-oldsize > b.maxnodeincrease {
 		nodesize = oldsize + b.maxnodeincrease
 	}
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
-- 
2.43.0


From 6eca2575910e3bb4c24f56e8fa6adfd2845f3ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 24/26] fix: the default implementation compiles on 32-bit
 architectures

---
 hudd.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/hudd.go b/hudd.go
index faa89d8..7a91435 100644
--- a/hudd.go
+++ b/hudd.go
@@ -165,19 +165,21 @@ func (b *tables) huddhash(level int32, low, high int) {
 	b.hbuff[6] = byte(low >> 16)
 	b.hbuff[7] = byte(low >> 24)
 	if huddsize == 20 {
-		// 64 bits machine
+		// 64 bits machine. We use a slice since, on 32 bits machines, the last
+		// indices are outside the bounds of the array.
+		hbuff := b.hbuff[:]
 		b.hbuff[8] = byte(low >> 32)
 		b.hbuff[9] = byte(low >> 40)
 		b.hbuff[10] = byte(low >> 48)
 		b.hbuff[11] = byte(low >> 56)
-		b.hbuff[12] = byte(high)
-		b.hbuff[13] = byte(high >> 8)
-		b.hbuff[14] = byte(high >> 16)
-		b.hbuff[15] = byte(high >> 24)
-		b.hbuff[16] = byte(high >> 32)
-		b.hbuff[17] = byte(high >> 40)
-		b.hbuff[18] = byte(high >> 48)
-		b.hbuff[19] = byte(high >> 56)
+		hbuff[12] = byte(high)
+		hbuff[13] = byte(high >> 8)
+		hbuff[14] = byte(high >> 16)
+		hbuff[15] = byte(high >> 24)
+		hbuff[16] = byte(high >> 32)
+		hbuff[17] = byte(high >> 40)
+		hbuff[18] = byte(high >> 48)
+		hbuff[19] = byte(high >> 56)
 		return
 	}
 	// 32 bits machine
-- 
2.43.0


From 5e3417c65a85e055e21afc45bffb89096adb6fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:26 +0000
Subject: [PATCH 25/26] fix: the percentage of free nodes overflowed on 32-bit
 platforms

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index c4e9749..2ab90d2 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -77,7 +77,7 @@ func (b *tables) makenode(level int32, low, high int, refstack []int) (int, erro
 		b.gbc(refstack)
 		err = errReset
 		// We also test if we are under the threshold for resising.
-		if b.freepos == 0 || (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
+		if b.freepos == 0 || (int64(b.freenum)*100)/int64(len(b.nodes)) <= int64(b.minfreenodes) {
 			// we can still use the free nodes found during the GC, if any, when
 			// we cannot resize
 			if b.noderesize() == errResize {
diff --git a/hkernel.go b/hkernel.go
index eb29f07..2eb3647 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -69,7 +69,7 @@ func (b *tables) makenode(level int32, low int, high int, refstack []int) (int,
 		b.gbc(refstack)
 		err = errReset
 		// We also test if we are under the threshold for resising.
-		if b.freepos == 0 || (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
+		if b.freepos == 0 || (int64(b.freenum)*100)/int64(len(b.nodes)) <= int64(b.minfreenodes) {
 			// we can still use the free nodes found during the GC, if any, when
 			// we cannot resize
 			if b.noderesize() == errResize {
-- 
2.43.0


From 7fb577339c39fe13d92936453f64b339e884cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:26 +0000
Subject: [PATCH 26/26] fix: the size of the caches overflowed on 32-bit
 platforms

---
 cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache.go b/cache.go
index cdb727c..cea97ef 100644
--- a/cache.go
+++ b/cache.go
@@ -63,7 +63,7 @@ func (bc *data4ncache) init(size, ratio int) {
 
 func (bc *data4ncache) resize(size int) {
 	if bc.ratio > 0 {
-		size = primeGte((size * bc.ratio) / 100)
+		size = primeGte(int((int64(size) * int64(bc.ratio)) / 100))
 		bc.table = make([]data4n, size)
 	}
 	bc.reset()
@@ -98,7 +98,7 @@ func (bc *data3ncache) init(size, ratio int) {
 
 func (bc *data3ncache) resize(size int) {
 	if bc.ratio > 0 {
-		size = primeGte((size * bc.ratio) / 100)
+		size = primeGte(int((int64(size) * int64(bc.ratio)) / 100))
 		bc.table = make([]data3n, size)
 	}
 	bc.reset()
-- 
2.43.0

