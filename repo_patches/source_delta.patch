From 3bca9bcdaaaabc4e4edcfe660c25a8f6958425cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:39 +0000
Subject: [PATCH 1/8] fix: domaintree InplaceInsert below a node created by
 Insert

Nodes created by Insert have no label tree until they get a child, so
in-place insertion of a subdomain of such a node panicked.
---
 domaintree/domaintree.go                      | 8 ++++----
 uintX/domaintree16/domaintree.go              | 8 ++++----
 uintX/domaintree32/domaintree.go              | 8 ++++----
 uintX/domaintree64/domaintree.go              | 8 ++++----
 uintX/domaintree8/domaintree.go               | 8 ++++----
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 8 ++++----
 6 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index 87fabef..c23c674 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -54,11 +54,11 @@ func (n *Node) Insert(d domain.Name, v interface{}) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v interface{}) {
-	if n.branches == nil {
-		n.branches = dltree.NewTree()
-	}
-
 	d.GetLabels(func(label string) error {
+		if n.branches == nil {
+			n.branches = dltree.NewTree()
+		}
+
 		item, ok := n.branches.RawGet(label)
 		if ok {
 			n = item.(*Node)
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index 4306e21..2f73d2e 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -52,11 +52,11 @@ func (n *Node) Insert(d domain.Name, v uint16) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint16) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index 063fc45..f359301 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -52,11 +52,11 @@ func (n *Node) Insert(d domain.Name, v uint32) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint32) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 09c2574..4f86206 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -52,11 +52,11 @@ func (n *Node) Insert(d domain.Name, v uint64) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint64) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 34719c3..d362a9a 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -52,11 +52,11 @@ func (n *Node) Insert(d domain.Name, v uint8) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint8) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index fd04450..d3cde25 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -52,11 +52,11 @@ func (n *Node) Insert(d domain.Name, v uint{{.bits}}) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint{{.bits}}) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
-- 
2.43.0


From db75195077d70f5ec86787d871538cd409638e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 2/8] fix: domaintree deletion of a name with maximum number of
 labels

The path to a name of 127 labels has 128 nodes with the root so Delete and
DeleteSubdomains panicked with index out of range.
---
 domaintree/domaintree.go                      | 11 +++++++----
 uintX/domaintree16/domaintree.go              | 11 +++++++----
 uintX/domaintree32/domaintree.go              | 11 +++++++----
 uintX/domaintree64/domaintree.go              | 11 +++++++----
 uintX/domaintree8/domaintree.go               | 11 +++++++----
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 11 +++++++----
 6 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index c23c674..332be86 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -24,6 +24,9 @@ type Pair struct {
 	Value interface{}
 }
 
+// maxBranch is maximum number of nodes on the path to a domain (the root and a node for each label).
+const maxBranch = domain.MaxLabels + 1
+
 var errStopIterations = errors.New("stop iterations")
 
 // Insert puts value using given domain as a key. The method returns new tree (old one remains unaffected).
@@ -120,8 +123,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [maxBranch]string
+		nodes  [maxBranch]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -148,8 +151,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [maxBranch]string
+		nodes  [maxBranch]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index 2f73d2e..db827b8 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -23,6 +23,9 @@ type Pair struct {
 	Value uint16
 }
 
+// maxBranch is maximum number of nodes on the path to a domain (the root and a node for each label).
+const maxBranch = domain.MaxLabels + 1
+
 var errStopIterations = errors.New("stop iterations")
 
 // Insert puts value using given domain as a key. The method returns new tree (old one remains unaffected).
@@ -118,8 +121,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [maxBranch]string
+		nodes  [maxBranch]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +149,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [maxBranch]string
+		nodes  [maxBranch]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index f359301..6470fa2 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -23,6 +23,9 @@ type Pair struct {
 	Value uint32
 }
 
+// maxBranch is maximum number of nodes on the path to a domain (the root and a node for each label).
+const maxBranch = domain.MaxLabels + 1
+
 var errStopIterations = errors.New("stop iterations")
 
 // Insert puts value using given domain as a key. The method returns new tree (old one remains unaffected).
@@ -118,8 +121,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [maxBranch]string
+		nodes  [maxBranch]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +149,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [maxBranch]string
+		nodes  [maxBranch]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 4f86206..3883c55 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -23,6 +23,9 @@ type Pair struct {
 	Value uint64
 }
 
+// maxBranch is maximum number of nodes on the path to a domain (the root and a node for each label).
+const maxBranch = domain.MaxLabels + 1
+
 var errStopIterations = errors.New("stop iterations")
 
 // Insert puts value using given domain as a key. The method returns new tree (old one remains unaffected).
@@ -118,8 +121,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [maxBranch]string
+		nodes  [maxBranch]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +149,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [maxBranch]string
+		nodes  [maxBranch]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index d362a9a..939a8e4 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -23,6 +23,9 @@ type Pair struct {
 	Value uint8
 }
 
+// maxBranch is maximum number of nodes on the path to a domain (the root and a node for each label).
+const maxBranch = domain.MaxLabels + 1
+
 var errStopIterations = errors.New("stop iterations")
 
 // Insert puts value using given domain as a key. The method returns new tree (old one remains unaffected).
@@ -118,8 +121,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [maxBranch]string
+		nodes  [maxBranch]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +149,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [maxBranch]string
+		nodes  [maxBranch]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index d3cde25..fe5e60a 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -23,6 +23,9 @@ type Pair struct {
 	Value uint{{.bits}}
 }
 
+// maxBranch is maximum number of nodes on the path to a domain (the root and a node for each label).
+const maxBranch = domain.MaxLabels + 1
+
 var errStopIterations = errors.New("stop iterations")
 
 // Insert puts value using given domain as a key. The method returns new tree (old one remains unaffected).
@@ -118,8 +121,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [maxBranch]string
+		nodes  [maxBranch]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +149,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [maxBranch]string
+		nodes  [maxBranch]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
-- 
2.43.0


From 8cc4221feb068049421a65d500b7a28bc78153cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 3/8] fix: domaintree Get ignored value of the root domain

Value stored for the root was enumerated and could be deleted but Get never
returned it neither for the root itself nor for its subdomains.
---
 domaintree/domaintree.go                      | 3 +--
 uintX/domaintree16/domaintree.go              | 3 +--
 uintX/domaintree32/domaintree.go              | 3 +--
 uintX/domaintree64/domaintree.go              | 3 +--
 uintX/domaintree8/domaintree.go               | 3 +--
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 3 +--
 6 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index 332be86..2830517 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -96,8 +96,7 @@ func (n *Node) Get(d domain.Name) (interface{}, bool) {
 		return nil, false
 	}
 
-	var value interface{}
-	hasValue := false
+	value, hasValue := n.value, n.hasValue
 
 	d.GetLabels(func(label string) error {
 		item, ok := n.branches.RawGet(label)
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index db827b8..4b2faa7 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -94,8 +94,7 @@ func (n *Node) Get(d domain.Name) (uint16, bool) {
 		return 0, false
 	}
 
-	var value uint16
-	hasValue := false
+	value, hasValue := n.value, n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index 6470fa2..9da3eac 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -94,8 +94,7 @@ func (n *Node) Get(d domain.Name) (uint32, bool) {
 		return 0, false
 	}
 
-	var value uint32
-	hasValue := false
+	value, hasValue := n.value, n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 3883c55..4145f00 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -94,8 +94,7 @@ func (n *Node) Get(d domain.Name) (uint64, bool) {
 		return 0, false
 	}
 
-	var value uint64
-	hasValue := false
+	value, hasValue := n.value, n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 939a8e4..024a43d 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -94,8 +94,7 @@ func (n *Node) Get(d domain.Name) (uint8, bool) {
 		return 0, false
 	}
 
-	var value uint8
-	hasValue := false
+	value, hasValue := n.value, n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index fe5e60a..c72cbf1 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -94,8 +94,7 @@ func (n *Node) Get(d domain.Name) (uint{{.bits}}, bool) {
 		return 0, false
 	}
 
-	var value uint{{.bits}}
-	hasValue := false
+	value, hasValue := n.value, n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
-- 
2.43.0


From 1acf60dfb7ae7aab877c8f64c5d1793444e4db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:06 +0000
Subject: [PATCH 4/8] fix: uintX iptree DeleteByNet by short IPv6 prefix absent
 in the tree

Networks contained by an IPv6 prefix shorter than 64 bits were deleted only
if the prefix itself was in the tree (unlike IPv4 and generic iptree).
---
 uintX/iptree16/iptree.go              | 7 ++++++-
 uintX/iptree32/iptree.go              | 7 ++++++-
 uintX/iptree64/iptree.go              | 7 ++++++-
 uintX/iptree8/iptree.go               | 7 ++++++-
 uintX/iptree{{.bits}}/iptree.{{.ext}} | 7 ++++++-
 5 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/uintX/iptree16/iptree.go b/uintX/iptree16/iptree.go
index 9a4f7ec..90bd2d5 100644
--- a/uintX/iptree16/iptree.go
+++ b/uintX/iptree16/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree32/iptree.go b/uintX/iptree32/iptree.go
index 6a505d6..2f342f6 100644
--- a/uintX/iptree32/iptree.go
+++ b/uintX/iptree32/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree64/iptree.go b/uintX/iptree64/iptree.go
index 6ffa3ae..d757585 100644
--- a/uintX/iptree64/iptree.go
+++ b/uintX/iptree64/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree8/iptree.go b/uintX/iptree8/iptree.go
index 9a98de8..a5a00df 100644
--- a/uintX/iptree8/iptree.go
+++ b/uintX/iptree8/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree{{.bits}}/iptree.{{.ext}} b/uintX/iptree{{.bits}}/iptree.{{.ext}}
index d3790c3..20ff2a5 100644
--- a/uintX/iptree{{.bits}}/iptree.{{.ext}}
+++ b/uintX/iptree{{.bits}}/iptree.{{.ext}}
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
-- 
2.43.0


From 789400bcfcdb164b4570af4338bdfcdd287ac5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:07 +0000
Subject: [PATCH 5/8] fix: UpdateDescendants for IPv6 network which is absent
 in the tree

Root of 64-bit subtree was taken as target even if it had no data, so
networks were updated for a target which had never been inserted.
---
 iptree/iptree.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/iptree/iptree.go b/iptree/iptree.go
index 2912ee2..1484998 100644
--- a/iptree/iptree.go
+++ b/iptree/iptree.go
@@ -144,12 +144,7 @@ func (t *Tree) UpdateDescendants(n *net.IPNet, callback UpdateDescendantsCallbac
 		}
 		s, ok := target.Value.(subTree64)
 		if ok {
-			s2 := (*numtree.Node64)(s)
-			if s2.Key == LSKey && int(s2.Bits) == LSBits {
-				target = s2
-			} else {
-				target = s2.FindNode(LSKey, LSBits)
-			}
+			target = (*numtree.Node64)(s).FindNode(LSKey, LSBits)
 			if target == nil {
 				return
 			}
-- 
2.43.0


From 87fe36f4808b891c7024c860614ee573b762f833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:09 +0000
Subject: [PATCH 6/8] fix: UpdateDescendants panic on nil tree or nil network

---
 iptree/iptree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iptree/iptree.go b/iptree/iptree.go
index 1484998..46c0992 100644
--- a/iptree/iptree.go
+++ b/iptree/iptree.go
@@ -117,6 +117,10 @@ func updateNode64(MSIP net.IP, n *numtree.Node64, callback UpdateDescendantsCall
 
 // UpdateDescendants accepts a target network (node) and a callback, and updates all the descendants of the target node if the callback returns true as its second return value
 func (t *Tree) UpdateDescendants(n *net.IPNet, callback UpdateDescendantsCallback) {
+	if t == nil || n == nil {
+		return
+	}
+
 	if key, bits := iPv4NetToUint32(n); bits >= 0 {
 		target := t.root32.FindNode(key, bits)
 		if target == nil {
-- 
2.43.0


From 66f812e1fc4be0e345869186cd712622eeb24ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 7/8] fix: numtree Match on empty tree returned typed nil
 pointer as value

Value returned with false was a non-nil interface holding nil node (it also
went out of iptree GetByNet and GetByIP).
---
 numtree/node32.go | 2 +-
 numtree/node64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/numtree/node32.go b/numtree/node32.go
index cc1c2c1..8c30e6c 100644
--- a/numtree/node32.go
+++ b/numtree/node32.go
@@ -108,7 +108,7 @@ func (n *Node32) Match(key uint32, bits int) (interface{}, bool) {
 	// If tree is empty -
 	if n == nil {
 		// report nothing.
-		return n, false
+		return nil, false
 	}
 
 	// Adjust bits.
diff --git a/numtree/node64.go b/numtree/node64.go
index 304f5d6..a0b3553 100644
--- a/numtree/node64.go
+++ b/numtree/node64.go
@@ -112,7 +112,7 @@ func (n *Node64) Enumerate() chan *Node64 {
 // Match locates node which key is equal to or "contains" the key passed as argument.
 func (n *Node64) Match(key uint64, bits int) (interface{}, bool) {
 	if n == nil {
-		return n, false
+		return nil, false
 	}
 
 	if bits < 0 {
-- 
2.43.0


From 44ec2597db0d9ed5425bbec5291da6f2dd5c2351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 8/8] fix: MakeHumanReadableLabel panic on more than 252
 upper-case letters

---
 domain/label.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/label.go b/domain/label.go
index ef43c7d..441ef59 100644
--- a/domain/label.go
+++ b/domain/label.go
@@ -59,6 +59,10 @@ func MakeHumanReadableLabel(s string) string {
 
 			j += 4
 		} else if c >= 'A' && c <= 'Z' {
+			if j >= len(label) {
+				return string(label[:j])
+			}
+
 			label[j] = c | 0x20
 			j++
 		} else {
-- 
2.43.0

