From 7310623694e9078702ee1ddc0dc3d0f527748545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:10 +0000
Subject: [PATCH 01/44] fix: a key set on an existing inner node must become a
 leaf

Setting 'app.dump' after 'app.dump.to' only flagged the node as having
data but left it a branch, so Get reported it missing and GetM/GetR
dropped it.
---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index bf86cf2..0dc40ef 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -246,7 +246,7 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		}
 	} else {
 		// hit this node,
-		base.nType |= NTData
+		base.nType |= NTLeaf | NTData
 		node, oldData, base.data = base, base.data, data
 		if cb != nil {
 			cb(fullPath, oldData, node, trie)
-- 
2.43.0


From aa3e0e20bcfb923e924bb4bc8d77b927a43063cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:46 +0000
Subject: [PATCH 02/44] fix: splitting a node must not hand its identity to the
 new branch

split() turned the existing node into the branch and moved the key into a
fresh one. A Node returned by Set, or held by a pending TTL job, then
pointed at the branch: the TTL dropped sibling keys and kept the expired
one, and Modified/Tag/Data of the handle described the wrong key. It also
mixed byte and rune lengths when cutting pathS, corrupting the path of
branches above non-ASCII keys.
---
 radix/node.go | 64 +++++++++++++++++++++------------------------------
 1 file changed, 26 insertions(+), 38 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 0dc40ef..926a7de 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -217,12 +217,6 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		cpl = base.findCommonPrefixLength(word)
 	}
 
-	if cpl < ourLen {
-		// eg: insert 'apple' into 'appZ', or insert 'appZ' into 'apple'
-		base.split(cpl, word) // split this as 'app' and 'Z'/'le'
-		// eg2: insert '/app/:client/tokens' into '/app/:client/tokens/:token',
-	}
-
 	if cpl < wordLen {
 		// eg: insert 'apple' into 'app'
 		if cpl > 0 {
@@ -230,6 +224,11 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		}
 		matched, child := base.matchChildren(word)
 		if matched {
+			if pos := child.findCommonPrefixLength(word); pos < len(child.path) {
+				// eg: insert 'apple' into 'appZ', or insert 'appZ' into 'apple'
+				child = base.splitChild(child, pos, word) // split child as 'app' and 'Z'/'le'
+				// eg2: insert '/app/:client/tokens' into '/app/:client/tokens/:token',
+			}
 			var n Node[T]
 			n, oldData = child.insert(word, fullPath, data, trie, cb)
 			if nn, ok := n.(*nodeS[T]); ok {
@@ -255,41 +254,30 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 	return
 }
 
-func (s *nodeS[T]) split(pos int, word []rune) (newNode *nodeS[T]) {
-	tip("[store/radix] split original path %q by word %q at pos %d", string(s.path), string(word), pos)
-
-	// origPath, origPathS := s.path, s.pathS
-	// if assertEnabled {
-	// 	defer func() {
-	// 		origPath, origPathS = []rune(origPathS), string(origPath)
-	// 	}()
-	// }
+// splitChild inserts a new branch node holding the first pos runes of
+// child's path between s and child.
+//
+// child keeps its identity (it is only moved one level down), so a Node
+// held by a caller or a pending TTL job still represents the same key.
+func (s *nodeS[T]) splitChild(child *nodeS[T], pos int, word []rune) (branch *nodeS[T]) {
+	tip("[store/radix] split original path %q by word %q at pos %d", string(child.path), string(word), pos)
+
+	branch = &nodeS[T]{
+		path:     child.path[:pos:pos],
+		pathS:    s.pathS + string(child.path[:pos]),
+		children: []*nodeS[T]{child},
+		nType:    NTBranch,
+	}
 
-	d := len(s.path) - pos
-	_ = word
+	child.path = child.path[pos:]
+	assert(strings.HasSuffix(child.pathS, string(child.path)), "child: pathS should end with path")
 
-	newNode = &nodeS[T]{
-		path:        s.path[pos:],
-		pathS:       s.pathS, // [pos:], // s.pathS[len(s.pathS)-d:],
-		children:    s.children,
-		data:        s.data,
-		description: s.description,
-		comment:     s.comment,
-		tag:         s.tag,
-		nType:       s.nType,
+	for i, c := range s.children {
+		if c == child {
+			s.children[i] = branch
+			break
+		}
 	}
-	assert(strings.HasSuffix(newNode.pathS, string(newNode.path)), "newNode: pathS should end with path")
-
-	s.path = s.path[:pos]
-	s.pathS = s.pathS[:len(s.pathS)-d] // s.pathS[:pos] //
-	s.children = []*nodeS[T]{newNode}
-	s.nType = NTBranch
-	s.description = ""
-	s.comment = ""
-	s.tag = nil
-	var t T
-	s.data = t
-	assert(strings.HasSuffix(s.pathS, string(s.path)), "parentNode: pathS(%q) should end with path(%q)", s.pathS, string(s.path))
 	return
 }
 
-- 
2.43.0


From ae705cc3f3b776dfeab21b311a1c268f7c8c8b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:12 +0000
Subject: [PATCH 03/44] fix: continue matching after a route variable by the
 consumed input

After a ':id' piece matched, the remaining input was decided by the shorter
of pattern and input lengths. '/a/:x/c' never matched a long value, and
'/a/:x/c' + '/a/:x/d' never matched a short one.
---
 radix/node.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 926a7de..7edadab 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -434,16 +434,16 @@ masterLoop:
 	} else if minL >= l && srcMatchedL == minL && minL > 0 && srcMatchedL > 0 && !partialMatched {
 		matched, child, parent = true, base, parentNode
 	}
-	if minL < wl {
+	if dstMatchedL == 0 {
+		dstMatchedL = minL
+	}
+	if dstMatchedL < wl {
 		if len(base.children) == 0 {
 			matched, partialMatched = false, true
 			return
 		}
 
 		// restPart := word[minL:]
-		if dstMatchedL == 0 {
-			dstMatchedL = minL
-		}
 		restPart := word[dstMatchedL:]
 		for _, child = range base.children {
 			matched, partialMatched, child, parent = child.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
-- 
2.43.0


From 23a96a607821b2d8c439d6c1afdc70e4d0703a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:43 +0000
Subject: [PATCH 04/44] fix: a split point inside a path piece is not an
 existing path

With 'app.debug' and 'app.dump' the radix node 'app.d' was reported by
Has/Search/Locate as found (the doc says Has("app.l") must be false), so
Remove("app.d") dropped both keys. SetTag and SetComment also accepted
partial matches and changed the metadata of another key.
---
 radix/node.go | 31 +++++++++++++++++++++++++++++++
 radix/trie.go | 12 ++++++------
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 7edadab..3280472 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -180,6 +180,37 @@ func (s *nodeS[T]) endsWith(ch rune) bool { //nolint:revive
 // 	return s.path[len(s.path)-1] == ch
 // }
 
+// isEndpoint tests if this node stands for a path on its own: a key, or a
+// section having keys below it.
+//
+// A branch made by splitting two keys inside of a path piece doesn't, such
+// as 'app.d' for 'app.debug' and 'app.dump'.
+func (s *nodeS[T]) isEndpoint(delimiter rune) bool {
+	if !s.isBranch() || len(s.path) == 0 {
+		return true
+	}
+	whole := s.endsWith(delimiter)
+	for _, c := range s.children {
+		if (whole || c.StartsWith(delimiter)) && c.hasKeys() {
+			return true
+		}
+	}
+	return false
+}
+
+// hasKeys tests if there is a key at or below this node.
+func (s *nodeS[T]) hasKeys() bool {
+	if !s.isBranch() {
+		return true
+	}
+	for _, c := range s.children {
+		if c.hasKeys() {
+			return true
+		}
+	}
+	return false
+}
+
 func (s *nodeS[T]) remove(item *nodeS[T]) (removed bool) { //nolint:revive
 	if item == nil {
 		return
diff --git a/radix/trie.go b/radix/trie.go
index 606e87f..4e0ac62 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -452,8 +452,8 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, partialMatched := s.search(path, nil)
+	if ok = node != nil && !partialMatched; ok {
 		node.description, node.comment = description, comment
 	}
 	return
@@ -466,8 +466,8 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, partialMatched := s.search(path, nil)
+	if ok = node != nil && !partialMatched; ok {
 		node.tag = tag
 	}
 	return
@@ -735,7 +735,7 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 
 	// stringtoslicerune needs two pass full-scanning for a string, but it have to be to do.
 	if matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair); matched || pm {
-		return child, prnt, pm
+		return child, prnt, pm || !child.isEndpoint(s.delimiter)
 	}
 
 	if s.recursiveMode == RecusiveUp && strings.Contains(word, string(s.delimiter)) {
@@ -747,7 +747,7 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 			w = strings.Join(a, string(s.delimiter))
 			mctx.fullPath = w
 			if matched, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched || pm {
-				return child, prnt, pm
+				return child, prnt, pm || !child.isEndpoint(s.delimiter)
 			}
 			goto retry
 		}
-- 
2.43.0


From 55308a977c184de5a72f13fd9de81b03ee448874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:29 +0000
Subject: [PATCH 05/44] fix: Remove must take exactly the key and the keys
 below it

Remove("app.debug") also dropped 'app.debugger', Remove("app") dropped
'apple', while Remove/Has("app.server") ignored a section holding the
single key 'app.server.start' (Search documents it as FOUND).
---
 radix/node.go | 30 ++++++++++++++++++++++++++++++
 radix/trie.go | 17 +++++++++++------
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 3280472..d41a159 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -225,6 +225,36 @@ func (s *nodeS[T]) remove(item *nodeS[T]) (removed bool) { //nolint:revive
 	return
 }
 
+// detach removes a child, its key and the keys below it, and returns them.
+//
+// The other keys sharing the path with it (eg: 'app.debugger' while removing
+// 'app.debug') will be kept.
+func (s *nodeS[T]) detach(item *nodeS[T], delimiter rune) (detached *nodeS[T]) {
+	var below, others []*nodeS[T]
+	for _, c := range item.children {
+		if c.StartsWith(delimiter) || item.endsWith(delimiter) {
+			below = append(below, c)
+		} else {
+			others = append(others, c)
+		}
+	}
+	if len(others) == 0 {
+		if s.remove(item) {
+			detached = item
+		}
+		return
+	}
+
+	for i, c := range s.children {
+		if c == item {
+			s.children[i] = &nodeS[T]{path: item.path, pathS: item.pathS, children: others, nType: NTBranch}
+			item.children, detached = below, item
+			break
+		}
+	}
+	return
+}
+
 func (s *nodeS[T]) findCommonPrefixLength(word []rune) (length int) {
 	ml := min(len(word), len(s.path))
 	for length < ml && word[length] == s.path[length] {
diff --git a/radix/trie.go b/radix/trie.go
index 4e0ac62..4641898 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -496,7 +496,7 @@ func (s *trieS[T]) Search(path string) (found bool) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	found = node != nil && !partialMatched // && !node.isBranch()
+	found = node != nil && (!partialMatched || s.isBelow(node, path)) // && !node.isBranch()
 	return
 }
 
@@ -536,10 +536,16 @@ func (s *trieS[T]) Has(path string) (found bool) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	found = node != nil && !partialMatched // && !node.isBranch()
+	found = node != nil && (!partialMatched || s.isBelow(node, path)) // && !node.isBranch()
 	return
 }
 
+// isBelow tests if a partial-matched node is located below path, which
+// means path is a section, such as 'a.b' for the key 'a.b.c'.
+func (s *trieS[T]) isBelow(node *nodeS[T], path string) bool {
+	return strings.HasPrefix(node.pathS, path+string(s.delimiter)) && node.hasKeys()
+}
+
 // HasPart tests if a path exists even if partial matched.
 //
 // Using Location to retrieve more info for searching a path.
@@ -570,12 +576,11 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, parent, partialMatched := s.search(path, nil)
-	found := node != nil && !partialMatched // && !node.isBranch()
+	found := node != nil && (!partialMatched || s.isBelow(node, path)) // && !node.isBranch()
 	if found {
 		if parent != nil {
-			removed = parent.remove(node)
-			if removed {
-				nodeRemoved, nodeParent = node, parent
+			if node = parent.detach(node, s.delimiter); node != nil {
+				nodeRemoved, nodeParent, removed = node, parent, true
 			}
 		} else {
 			logz.Warn("if given path found and return node, its parent MUST NOT be nil", "node", node, "parent", parent)
-- 
2.43.0


From 027ea7e47660ccbeb1eca16360e5d9cdb1abb6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:12 +0000
Subject: [PATCH 06/44] fix: BR lookup must pass over partial matches of nearer
 sections

A key merely sharing its first letters with the wanted one in a nearer
section ended the lookup, hiding the value of an outer section.
---
 radix/trie.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 4641898..98f600f 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -739,8 +739,9 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 	defer putBack(mctx)
 
 	// stringtoslicerune needs two pass full-scanning for a string, but it have to be to do.
-	if matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair); matched || pm {
-		return child, prnt, pm || !child.isEndpoint(s.delimiter)
+	matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair)
+	if pm = pm || (matched && !child.isEndpoint(s.delimiter)); matched && !pm {
+		return child, prnt, pm
 	}
 
 	if s.recursiveMode == RecusiveUp && strings.Contains(word, string(s.delimiter)) {
@@ -751,13 +752,17 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 			a = append(a[:len(a)-2], a[len(a)-1])
 			w = strings.Join(a, string(s.delimiter))
 			mctx.fullPath = w
-			if matched, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched || pm {
-				return child, prnt, pm || !child.isEndpoint(s.delimiter)
+			// a partial match is not a hit, keep looking up
+			if matched, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched && !pm && child.isEndpoint(s.delimiter) {
+				return child, prnt, pm
 			}
 			goto retry
 		}
 	}
 
+	if matched || pm {
+		return child, prnt, pm
+	}
 	found = nil
 	return
 }
-- 
2.43.0


From 9d88fd0ecd84da353a129b8dd5880d6836e9efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:54 +0000
Subject: [PATCH 07/44] fix: GetM/GetR must return exactly the keys of the
 asked section

GetM(path) lost inner pieces of keys below a multi-piece path, named a
leaf by its radix fragment, and both GetM and GetR included siblings that
merely share the leading characters ('apple' for 'app'). GetM("") on a
prefixed store cut keys at the wrong offset (or panicked), which Save
relies on.
---
 radix/cvter.go | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 9a0f345..0e028ab 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -366,8 +366,9 @@ func (s *trieS[T]) GetR(path string, defaultVal ...map[string]any) (ret map[stri
 	if found || partialMatched {
 		_, _, ret = branch, partialMatched, make(map[string]any)
 
+		section := s.sectionPath(path)
 		nodeX.Walk(func(path, fragment string, node Node[T]) {
-			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
+			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() && s.inSection(path, section) {
 				// For a trie like:
 				//
 				//     app.                          <B>
@@ -420,9 +421,9 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 		for _, opt := range opts {
 			opt(&putter)
 		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1 // s.prefix + '.'
+		under := "" // s.prefix + '.'
+		if s.prefix != "" {
+			under = s.sectionPath("") + string(s.delimiter)
 		}
 		s.root.Walk(func(path, fragment string, node Node[T]) {
 			if (path == "" || !s.simpleEndsWith(path, s.delimiter)) && !node.IsBranch() {
@@ -433,8 +434,8 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 				}
 				if putter.keepPrefix {
 					ret[path] = node.Data()
-				} else if prelen <= len(path) {
-					ret[path[prelen+1:]] = node.Data()
+				} else if strings.HasPrefix(path, under) {
+					ret[path[len(under):]] = node.Data()
 				}
 			}
 		})
@@ -447,32 +448,21 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 	nodeX, branch, partialMatched, found = s.Locate(path, nil)
 	if found || partialMatched {
 		_, _, ret = branch, partialMatched, make(map[string]any)
-		putter := prefixPutter[T]{prefix: strings.Split(s.Join(s.prefix, path), string(s.delimiter))}
+		section := s.sectionPath(path)
+		putter := prefixPutter[T]{prefix: strings.Split(section, string(s.delimiter))}
 		for _, opt := range opts {
 			opt(&putter)
 		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1
-		}
-		prelen += len(path) + 1
-		prelen--
 		logz.Verbose("[GetM] loop subtree and return as a map", "path", putter.prefix)
 		nodeX.Walk(func(path, fragment string, node Node[T]) {
-			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
+			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() && s.inSection(path, section) {
 				logz.Verbose("  - put into map", "path", path, "fragment", fragment)
 				if putter.filterFn != nil {
 					if !putter.filterFn(node) {
 						return
 					}
 				}
-				if putter.keepPrefix {
-					putter.put(ret, path, string(s.delimiter), node.Data())
-				} else if prelen+1 == len(path) {
-					putter.put(ret, fragment, string(s.delimiter), node.Data())
-				} else if prelen < len(path) {
-					putter.put(ret, path[prelen+1:], string(s.delimiter), node.Data())
-				}
+				putter.put(ret, path, string(s.delimiter), node.Data())
 			}
 		})
 		logz.Verbose("[GetM] ", "ret", ret)
@@ -483,6 +473,17 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 	return
 }
 
+// sectionPath returns the full path of a section without the tailing delimiter.
+func (s *trieS[T]) sectionPath(path string) string {
+	return strings.TrimSuffix(s.Join(s.prefix, path), string(s.delimiter))
+}
+
+// inSection tests if the full path is the section itself or is below it.
+func (s *trieS[T]) inSection(path, section string) bool {
+	rest, ok := strings.CutPrefix(path, section)
+	return ok && (rest == "" || strings.HasPrefix(rest, string(s.delimiter)))
+}
+
 func (s *trieS[T]) MustM(path string, opts ...MOpt[T]) (ret map[string]any) {
 	ret, _ = s.GetM(path, opts...)
 	return
-- 
2.43.0


From 70da1d45219892304a8d6d3d09821b89bf1f35de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:03 +0000
Subject: [PATCH 08/44] fix: an empty tree matches nothing, not even partially

HasPart("x") was true and GetM/GetR("x") dereferenced a nil node.
---
 radix/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/trie.go b/radix/trie.go
index 98f600f..95c41f7 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -760,7 +760,7 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 		}
 	}
 
-	if matched || pm {
+	if child != nil && (matched || pm) {
 		return child, prnt, pm
 	}
 	found = nil
-- 
2.43.0


From 84475fc0fc35f5a70f0e1ffd88ff3450248ef09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:37 +0000
Subject: [PATCH 09/44] fix: SetEx calls back exactly once, SetNode stores its
 tag

SetEx skipped the callback for the first key of an empty tree and repeated
it once per tree level otherwise; SetNode dropped the tag argument.
---
 radix/trie.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 95c41f7..8c5683b 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -401,8 +401,11 @@ func (s *trieS[T]) SetEx(path string, data T, cb OnSetEx[T]) (oldData any) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	_, oldData = s.root.insert([]rune(path), path, data, s, cb)
-	return
+	node, oldData := s.root.insert([]rune(path), path, data, s, nil)
+	if cb != nil {
+		cb(path, oldData, node, s)
+	}
+	return oldData
 }
 
 // SetNode sets the all node fields at once.
@@ -411,6 +414,7 @@ func (s *trieS[T]) SetNode(path string, data T, tag any, descriptionAndComments
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, old := s.root.insertInternal([]rune(path), path, data, s, nil)
+	node.tag = tag
 	switch len(descriptionAndComments) {
 	case 0:
 	case 1:
-- 
2.43.0


From 2bb0b15bdac80e1d69c316e043a2fda0bc8bdcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:07 +0000
Subject: [PATCH 10/44] fix: Update must keep the data of an existing key

It inserted a zero value first, so updating a comment as shown in README
erased the value.
---
 radix/trie.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/radix/trie.go b/radix/trie.go
index 8c5683b..33e1a4f 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -444,6 +444,10 @@ func (s *trieS[T]) Update(path string, cb func(node Node[T], old any)) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	if node, _, partialMatched := s.search(path, nil); node != nil && !partialMatched && !node.isBranch() && node.pathS == path {
+		cb(node, node.Data()) // existed, don't touch its data
+		return
+	}
 	var v T
 	node, old := s.root.insertInternal([]rune(path), path, v, s, nil)
 	cb(node, old)
-- 
2.43.0


From ec0fe7cc7fe96518df0e95b06efd8b8f65618352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:42 +0000
Subject: [PATCH 11/44] fix: TTL on prefixed trees and views

A branch TTL removed <prefix>.<full path> (never existing) when the tree
has a prefix, and once a TTL was used each WithPrefix/Merge/Load'ed key
leaked a goroutine by cloning the TTL runner.
---
 radix/trie.go | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 33e1a4f..55f682d 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -111,18 +111,6 @@ func newttls[T any](t *trieS[T]) *TTL[T] {
 	return s
 }
 
-func (s *TTL[T]) dupS() *TTL[T] {
-	ctx, cancel := context.WithCancel(context.Background())
-	n := &TTL[T]{
-		treevec: []*trieS[T]{s.treevec[0]},
-		cancel:  cancel,
-		done:    ctx.Done(),
-		adder:   make(chan ttljobS[T]),
-	}
-	go n.run()
-	return n
-}
-
 func (s *TTL[T]) Close() {
 	s.cancel()
 }
@@ -157,7 +145,7 @@ func (s *TTL[T]) run() {
 						job.action(s, job.node)
 					}
 					if job.node.isBranch() {
-						s.treevec[0].Remove(job.node.pathS)
+						s.treevec[0].removeAt(job.node.pathS)
 					} else {
 						job.node.SetEmpty()
 					}
@@ -248,10 +236,6 @@ func (s *trieS[T]) dupS(root *nodeS[T], prefix string) (newTrie *trieS[T]) { //n
 		delimiter:     s.delimiter,
 		recursiveMode: s.recursiveMode,
 	}
-	if s.ttlpresent.Load() > 0 {
-		newTrie.ttls = s.ttls.dupS()
-		newTrie.ttlpresent.Add(1)
-	}
 	return
 }
 
@@ -583,6 +567,11 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	return s.removeAt(path)
+}
+
+// removeAt deleting a full path (including the prefix).
+func (s *trieS[T]) removeAt(path string) (nodeRemoved, nodeParent Node[T], removed bool) {
 	node, parent, partialMatched := s.search(path, nil)
 	found := node != nil && (!partialMatched || s.isBelow(node, path)) // && !node.isBranch()
 	if found {
-- 
2.43.0


From 6bed3266b3c67fbc0f686994619e32e9f265547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:50 +0000
Subject: [PATCH 12/44] fix: Dup keeps description, comment and tag of the
 nodes

An exact deep copy is documented but the metadata was lost.
---
 radix/node.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index d41a159..116cc18 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -607,9 +607,12 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 // The cost of cloneing a large tree or node is expensive.
 func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 	newNode = &nodeS[T]{
-		path:  s.path,
-		pathS: s.pathS,
-		nType: s.nType,
+		path:        s.path,
+		pathS:       s.pathS,
+		description: s.description,
+		comment:     s.comment,
+		tag:         s.tag,
+		nType:       s.nType,
 	}
 
 	newNode.children = make([]*nodeS[T], 0, len(s.children))
-- 
2.43.0


From b5ace1fb6152df8b30c36c8f45eb4919ab588453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:50 +0000
Subject: [PATCH 13/44] fix: Store.RecursiveMode recursed into itself forever

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 78b5ab8..1959d4b 100644
--- a/store.go
+++ b/store.go
@@ -485,7 +485,7 @@ func (s *storeS) SetPrefix(newPrefix ...string) {
 func (s *storeS) N() (newStore Store)               { return s.dupS(s.Trie.N()) }
 func (s *storeS) R() (newStore Store)               { return s.dupS(s.Trie.R()) }
 func (s *storeS) BR() (newStore Store)              { return s.dupS(s.Trie.BR()) }
-func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.RecursiveMode() }
+func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.Trie.RecursiveMode() }
 
 // To finds a given path and loads the subtree into
 // 'holder', typically 'holder' could be a struct.
-- 
2.43.0


From 74500fdca7888cd823f585ae24ad550b6db54203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:50 +0000
Subject: [PATCH 14/44] fix: Store.Close stops the pending TTL jobs

It is documented as a must after SetTTL but never reached the tree.
---
 store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store.go b/store.go
index 1959d4b..b4b1f23 100644
--- a/store.go
+++ b/store.go
@@ -221,6 +221,9 @@ func (s *storeS) Close() {
 	for _, c := range s.closers {
 		c.Close()
 	}
+	if c, ok := s.Trie.(Peripheral); ok {
+		c.Close() // stop the TTL jobs
+	}
 }
 
 // MustGet is a shortcut to Get without error returning.
-- 
2.43.0


From 14f5dee720d72704e425de1b85419cfb35b1c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:32 +0000
Subject: [PATCH 15/44] fix: Merge must put nested data below the merging point

Trie.Merge lost the merging point for nested maps, doubled the prefix for
slices and panicked on a nil value; Store.Merge ignored the store prefix.
---
 radix/load.go | 10 +++++-----
 store.go      |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/radix/load.go b/radix/load.go
index 5d1896c..2d33694 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -68,7 +68,7 @@ func (s *trieS[T]) loadMap(m map[string]any) (err error) {
 func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k string, v any) { //nolint:revive,unparam
 	switch vv := v.(type) {
 	case map[string]any:
-		ec.Attach(s.withPrefixReplacedImpl(k).loadMap(vv))
+		ec.Attach(s.withPrefixImpl(k).loadMap(vv))
 	case []map[string]any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
@@ -81,10 +81,6 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 	case []any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
-			if s.prefix != "" {
-				buf = append(buf, s.prefix...)
-				buf = append(buf, byte(s.delimiter))
-			}
 			buf = append(buf, k...)
 			buf = append(buf, byte(s.delimiter))
 			buf = strconv.AppendInt(buf, int64(i), 10)
@@ -92,6 +88,10 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 			buf = buf[:0]
 		}
 	default:
+		if v == nil {
+			s.Set(k, *new(T))
+			break
+		}
 		s.Set(k, v.(T))
 	}
 }
diff --git a/store.go b/store.go
index b4b1f23..52c18e4 100644
--- a/store.go
+++ b/store.go
@@ -301,7 +301,7 @@ func (s *storeS) Merge(pathAt string, data map[string]any) (err error) {
 	// 	return
 	// }
 
-	err = s.loadMap(data, pathAt, false, nil)
+	err = s.loadMap(data, s.join(s.Prefix(), pathAt), false, nil)
 	// s.tryOnSet(pathAt, true, old, data)
 	return
 }
-- 
2.43.0


From 28fbccad77dd2132aa4680d9302c704721b11cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:28 +0000
Subject: [PATCH 16/44] fix: loaded value packs keep their description, comment
 and tag

They were applied only outside of loading, i.e. never by Load.
---
 load.go  | 17 ++++++++++++-----
 store.go |  6 +++---
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/load.go b/load.go
index e7afe7e..b7be85c 100644
--- a/load.go
+++ b/load.go
@@ -148,14 +148,21 @@ func (s *storeS) loadMapDedicated(m map[string]ValPkg, position string, creating
 	ec := errors.New()
 	defer ec.Defer(&err)
 	for k, v := range m {
-		s.loadMapByValueType(ec, position, k, v.Value, creating, func(node radix.Node[any]) {
-			node.SetComment(v.Desc, v.Comment)
-			node.SetTag(v.Tag)
-		})
+		s.loadMapByValueType(ec, position, k, v.Value, creating, v.annotate)
 	}
 	return
 }
 
+// annotate copies the extra info of a value pack into its node.
+func (v ValPkg) annotate(node radix.Node[any]) {
+	if v.Desc != "" || v.Comment != "" {
+		node.SetComment(v.Desc, v.Comment)
+	}
+	if v.Tag != nil {
+		node.SetTag(v.Tag)
+	}
+}
+
 func (s *storeS) loadMapAny(m map[any]any, position string, creating bool, onSet lmOnSet) (err error) {
 	ec := errors.New()
 	defer ec.Defer(&err)
@@ -184,7 +191,7 @@ func privateSetter(ss *storeS, position, k string, v any, creating bool, onSet l
 func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any, creating bool, onSet lmOnSet) {
 	switch vv := v.(type) {
 	case ValPkg:
-		s.loadMapByValueType(ec, position, k, vv.Value, creating, onSet)
+		s.loadMapByValueType(ec, position, k, vv.Value, creating, vv.annotate)
 	case map[string]any:
 		ec.Attach(s.loadMap(vv, s.join(position, k), creating, onSet))
 	case map[any]any:
diff --git a/store.go b/store.go
index 52c18e4..5934bf3 100644
--- a/store.go
+++ b/store.go
@@ -331,6 +331,9 @@ func (s *storeS) Update(path string, cb func(node radix.Node[any], old any)) {
 
 func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet) (node radix.Node[any], oldData any) {
 	node, oldData = s.Trie.Set(path, data)
+	if node != nil && onSet != nil {
+		onSet(node)
+	}
 	loading := s.inLoading()
 	user := !loading
 	if user {
@@ -338,9 +341,6 @@ func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet
 			createOrModify = false // set it to is-modifying instead of is-creating
 		}
 		if node != nil {
-			if onSet != nil {
-				onSet(node)
-			}
 			node.SetModified(true)
 		}
 	}
-- 
2.43.0


From bd69e138d7969da9df4758a2ffa25cf6e48948e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 17/44] fix: change handlers see Merge and Load, with the
 documented flag

mergingMapOrLoading was passed inverted, the handlers never fired for
Merge and Load, and a new key at a section path was reported as changed.
---
 load.go  | 11 ++++++++---
 store.go | 20 +++++++++++---------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/load.go b/load.go
index b7be85c..73afa38 100644
--- a/load.go
+++ b/load.go
@@ -183,9 +183,12 @@ func (s *storeS) loadMap(m map[string]any, position string, creating bool, onSet
 }
 
 func privateSetter(ss *storeS, position, k string, v any, creating bool, onSet lmOnSet) {
-	set := ss.WithPrefixReplaced(position).(*storeS)
+	set := ss.WithPrefixReplaced().(*storeS)
+	set.parent, set.merging = ss, true // notify the handlers of ss
 	defer func() { atomic.StoreInt32(&set.loading, 0) }()
-	set.setKV(k, v, creating, onSet)
+	path := ss.join(position, k)
+	_, branch, found, _ := set.Trie.Query(path, nil)
+	set.setKV(path, v, !found || branch, onSet)
 }
 
 func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any, creating bool, onSet lmOnSet) {
@@ -446,7 +449,9 @@ func WithCodec(codec Codec) LoadOpt {
 // location that the external settings will be merged at.
 func WithStorePrefix(prefix string) LoadOpt {
 	return func(s *Loader) {
-		s.storeS = s.storeS.WithPrefixReplaced(prefix).(*storeS)
+		parent := s.storeS
+		s.storeS = parent.WithPrefixReplaced(prefix).(*storeS)
+		s.storeS.parent = parent // notify its handlers
 	}
 }
 
diff --git a/store.go b/store.go
index 5934bf3..55bed58 100644
--- a/store.go
+++ b/store.go
@@ -107,6 +107,8 @@ type storeS struct {
 
 	parent *storeS
 
+	merging bool // the private setter of Merge and Load
+
 	flattenSlice bool
 	allowWatch   bool
 }
@@ -257,7 +259,7 @@ func (s *storeS) Set(path string, data any) (node radix.Node[any], oldData any)
 		oldData = old
 	}
 
-	node, oldData = s.setKV(path, data, !found, nil)
+	node, oldData = s.setKV(path, data, !found || branch, nil)
 	// s.tryOnSet(path, false, old, data)
 	return
 }
@@ -344,18 +346,18 @@ func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet
 			node.SetModified(true)
 		}
 	}
-	s.tryOnSet(path, user, oldData, data, createOrModify)
+	s.tryOnSet(path, loading || s.merging, oldData, data, createOrModify)
 	return
 }
 
-func (s *storeS) tryOnSet(path string, user bool, oldData, data any, createOrModify bool) {
+func (s *storeS) tryOnSet(path string, mergingMapOrLoading bool, oldData, data any, createOrModify bool) {
 	ptr := s
 
 	if createOrModify {
 	retryPN:
 		for _, cb := range ptr.onNewHandlers {
 			if cb != nil {
-				cb(path, data, user)
+				cb(path, data, mergingMapOrLoading)
 			}
 		}
 		if ptr.parent != nil {
@@ -368,7 +370,7 @@ func (s *storeS) tryOnSet(path string, user bool, oldData, data any, createOrMod
 retryPM:
 	for _, cb := range ptr.onChangeHandlers {
 		if cb != nil {
-			cb(path, data, oldData, user)
+			cb(path, data, oldData, mergingMapOrLoading)
 		}
 	}
 	if ptr.parent != nil {
@@ -377,13 +379,13 @@ retryPM:
 	}
 }
 
-func (s *storeS) tryOnDelete(path string, user bool, oldData any, node, np radix.Node[any]) {
+func (s *storeS) tryOnDelete(path string, mergingMapOrLoading bool, oldData any, node, np radix.Node[any]) {
 	ptr := s
 	_, _ = node, np
 retryPD:
 	for _, cb := range ptr.OnDeleteHandlers {
 		if cb != nil {
-			cb(path, oldData, user)
+			cb(path, oldData, mergingMapOrLoading)
 		}
 	}
 	if ptr.parent != nil {
@@ -398,7 +400,7 @@ func (s *storeS) Remove(path string) (removed bool) {
 	if removed {
 		loading := s.inLoading()
 		data := rmn.Data()
-		s.tryOnDelete(path, !loading, data, rmn, np)
+		s.tryOnDelete(path, loading, data, rmn, np)
 	}
 	return
 }
@@ -408,7 +410,7 @@ func (s *storeS) RemoveEx(path string) (nodeRemoved, nodeParent radix.Node[any],
 	if removed {
 		loading := s.inLoading()
 		data := nodeRemoved.Data()
-		s.tryOnDelete(path, !loading, data, nodeRemoved, nodeParent)
+		s.tryOnDelete(path, loading, data, nodeRemoved, nodeParent)
 	}
 	return
 }
-- 
2.43.0


From 1e136117cfd619ac39a0785d9c224e17cb30c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:11 +0000
Subject: [PATCH 18/44] fix: Close the watchers started by Load with a store
 prefix

They were registered on the loader's temporary copy, out of reach of
Store.Close.
---
 load.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/load.go b/load.go
index 73afa38..c1fe8e8 100644
--- a/load.go
+++ b/load.go
@@ -315,7 +315,11 @@ func (s *storeS) startWatch(ctx context.Context, loader *Loader) {
 		if err := w.Watch(ctx, s.applyExternalChanges); err != nil {
 			logz.Error("[Watcher.StartWatch.ERROR]", "err", err)
 		} else {
-			s.closers = append(s.closers, w)
+			owner := s // the loader may work on a prefixed copy of the user's store
+			for owner.parent != nil {
+				owner = owner.parent
+			}
+			owner.closers = append(owner.closers, w)
 		}
 	}
 }
-- 
2.43.0


From bb42551df3d6727593d61f8a892c691f4ebfb765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:05 +0000
Subject: [PATCH 19/44] fix: Op can read back the text it writes

MarshalText gives upper-cased names which UnmarshalText refused, and
unknown values were printed as a pointer.
---
 op.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op.go b/op.go
index 7244e83..cbfe872 100644
--- a/op.go
+++ b/op.go
@@ -33,7 +33,7 @@ var opStringsRev = map[string]Op{
 
 func (s *Op) UnmarshalText(text []byte) error {
 	// panic("implement me")
-	op, ok := opStringsRev[string(text)]
+	op, ok := opStringsRev[strings.ToLower(string(text))]
 	if ok {
 		*s = op
 		return nil
@@ -46,7 +46,7 @@ func (s *Op) MarshalText() (text []byte, err error) {
 	if ok {
 		return []byte(strings.ToUpper(sz)), nil
 	}
-	return []byte(fmt.Sprintf("Op(%d)", s)), nil
+	return []byte(fmt.Sprintf("Op(%d)", uint32(*s))), nil
 }
 
 func (s *Op) Marshal() []byte {
-- 
2.43.0


From 5682ec507c50d705241630892f43de09c0e1c78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:05 +0000
Subject: [PATCH 20/44] fix: gob codec returns the encoded data and can be used
 repeatedly

Marshal always returned nil, and the cached encoder/decoder tied every
later call to the first buffer.
---
 codecs/gob/gob.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/codecs/gob/gob.go b/codecs/gob/gob.go
index bf39032..43e934b 100644
--- a/codecs/gob/gob.go
+++ b/codecs/gob/gob.go
@@ -17,27 +17,19 @@ func New() store.Codec {
 	return &ldr{}
 }
 
-type ldr struct {
-	dec *gob.Decoder
-	enc *gob.Encoder
-}
+type ldr struct{}
 
 // Unmarshal parses the given bytes.
 func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
-	if p.dec == nil {
-		r := bytes.NewReader(b)
-		p.dec = gob.NewDecoder(r)
-	}
-	err = p.dec.Decode(&data)
+	err = gob.NewDecoder(bytes.NewReader(b)).Decode(&data)
 	return
 }
 
 // Marshal marshals the given config map to bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
-	if p.enc == nil {
-		sb := bytes.NewBuffer(data)
-		p.enc = gob.NewEncoder(sb)
+	var sb bytes.Buffer
+	if err = gob.NewEncoder(&sb).Encode(m); err == nil {
+		data = sb.Bytes()
 	}
-	err = p.enc.Encode(m)
 	return
 }
-- 
2.43.0


From cc68280ec982457381f8af1cc6b8ac793ae32d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:05 +0000
Subject: [PATCH 21/44] fix: json codec drops the pretty output

---
 codecs/json/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/json/json.go b/codecs/json/json.go
index d2fa6d4..0ba10c9 100644
--- a/codecs/json/json.go
+++ b/codecs/json/json.go
@@ -44,7 +44,7 @@ func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
 // Marshal marshals the given config map to JSON bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
 	if p.pretty {
-		json.MarshalIndent(m, "", "  ")
+		return json.MarshalIndent(m, "", "  ")
 	}
 	return json.Marshal(m)
 }
-- 
2.43.0


From ff7909bb7cc7372c0138921eb9fe6dcb99757100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:05 +0000
Subject: [PATCH 22/44] fix: env and flags providers iterate their keys

Next reported the end of list inverted (and ran out of range), a name
fully stripped by its prefix panicked, and flags upper-cased the wanted
prefix so that no ordinary flag could match it.
---
 providers/env/env.go     | 4 ++--
 providers/flags/flags.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index 8478937..40f8627 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -122,7 +122,7 @@ func (s *pvdr) prepare() (err error) {
 			if s.stripped != "" {
 				k = strings.TrimPrefix(k, s.stripped)
 			}
-			if s.underline2dot {
+			if s.underline2dot && k != "" {
 				k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 			}
 			if s.cb != nil {
@@ -150,7 +150,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index b6700b9..61b63f9 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -48,7 +48,7 @@ func WithCodec(codec store.Codec) Opt {
 // The filtered names will be stripped by strippedPrefix.
 func WithPrefix(prefix string, strippedPrefix ...string) Opt {
 	return func(s *pvdr) {
-		s.prefix = strings.ToUpper(prefix)
+		s.prefix = prefix
 		for _, ss := range strippedPrefix {
 			s.stripped = ss
 		}
@@ -106,7 +106,7 @@ func (s *pvdr) prepare() (err error) {
 		if s.stripped != "" {
 			k = strings.TrimPrefix(k, s.stripped)
 		}
-		if s.underline2dot {
+		if s.underline2dot && k != "" {
 			k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 		}
 		if s.cb != nil {
@@ -144,7 +144,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
-- 
2.43.0


From e0e97cdd835400845ae9ec5e733699db95c5c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:47 +0000
Subject: [PATCH 23/44] fix: maps provider loses or misplaces dotted keys

{"a.b":1, "a":{"c":2}} kept 'a.b' or not depending on the map order, and
{"a":1, "a.b":2} could put 'b' at the top level.
---
 internal/cvt/cvt.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index 5c9778a..7195470 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -2,6 +2,7 @@ package cvt
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hedzr/evendeep"
@@ -71,7 +72,15 @@ func Deflate(m map[string]any, delimiter string) (data map[string]any) {
 	data = make(map[string]any)
 
 	// Iterate through the flat conf map.
-	for k, v := range m {
+	//
+	// Sorted, so that a parent always goes before its dotted children.
+	flat := make([]string, 0, len(m))
+	for k := range m {
+		flat = append(flat, k)
+	}
+	sort.Strings(flat)
+	for _, k := range flat {
+		v := m[k]
 		var (
 			keys = strings.Split(k, delimiter)
 			next = data
@@ -79,20 +88,35 @@ func Deflate(m map[string]any, delimiter string) (data map[string]any) {
 
 		// Iterate through key parts, for eg:, parent.child.key
 		// will be ["parent", "child", "key"]
-		for _, kk := range keys[:len(keys)-1] {
+		for len(keys) > 1 {
+			kk := keys[0]
 			sub, ok := next[kk]
 			if !ok {
 				// If the key does not exist in the map, create it.
 				sub = make(map[string]any)
 				next[kk] = sub
 			}
-			if n, ok1 := sub.(map[string]any); ok1 {
-				next = n
+			n, ok1 := sub.(map[string]any)
+			if !ok1 {
+				break // occupied by a value, keep the rest dotted
 			}
+			next, keys = n, keys[1:]
 		}
 
 		// Assign the value.
-		next[keys[len(keys)-1]] = v
+		assign(next, strings.Join(keys, delimiter), v)
 	}
 	return
 }
+
+// assign puts a value into m, and merges it if both are maps.
+func assign(m map[string]any, key string, v any) {
+	src, ok1 := v.(map[string]any)
+	if dst, ok2 := m[key].(map[string]any); ok1 && ok2 {
+		for k, vv := range src {
+			assign(dst, k, vv)
+		}
+		return
+	}
+	m[key] = v
+}
-- 
2.43.0


From e648fba7537784530d1caa566804c66e220272ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:57 +0000
Subject: [PATCH 24/44] fix: kibi/kilo bytes parser indexed runes by byte
 length

'5<nbsp>k' panicked.
---
 radix/cvter.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 0e028ab..a946d4d 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -5,6 +5,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	logz "github.com/hedzr/logg/slog"
 
@@ -1553,12 +1554,12 @@ func (s *trieS[T]) FromKibiBytes(sz string) (ir64 uint64) {
 	var err error
 	if strings.ContainsRune(szr, '.') {
 		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKibiBytes(r)))
 		}
 	} else {
 		if ir64, err = strconv.ParseUint(szr, 0, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 *= s.fromKibiBytes(r)
 		}
 	}
@@ -1639,12 +1640,12 @@ func (s *trieS[T]) FromKiloBytes(sz string) (ir64 uint64) {
 	var err error
 	if strings.ContainsRune(szr, '.') {
 		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKilobytes(r)))
 		}
 	} else {
 		if ir64, err = strconv.ParseUint(szr, 0, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 *= s.fromKilobytes(r)
 		}
 	}
-- 
2.43.0


From 98d4e08b6cedf3b44538d996da9c2d44bb8dea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:07 +0000
Subject: [PATCH 25/44] fix: removing a section takes all keys below it,
 whatever they share

Removing 'a' from 'a.a' and 'a.aa' kept 'a.aa': the node 'a.a' was
located below the section as a whole, but only its children starting
with a delimiter were taken.
---
 radix/trie.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 55f682d..250533b 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -576,8 +576,13 @@ func (s *trieS[T]) removeAt(path string) (nodeRemoved, nodeParent Node[T], remov
 	found := node != nil && (!partialMatched || s.isBelow(node, path)) // && !node.isBranch()
 	if found {
 		if parent != nil {
-			if node = parent.detach(node, s.delimiter); node != nil {
-				nodeRemoved, nodeParent, removed = node, parent, true
+			if partialMatched { // the whole node is located below path
+				removed = parent.remove(node)
+			} else if node = parent.detach(node, s.delimiter); node != nil {
+				removed = true
+			}
+			if removed {
+				nodeRemoved, nodeParent = node, parent
 			}
 		} else {
 			logz.Warn("if given path found and return node, its parent MUST NOT be nil", "node", node, "parent", parent)
-- 
2.43.0


From dd3524f6fff6666c7d93f21205a4b0b977221bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:12 +0000
Subject: [PATCH 26/44] fix: loading from a stream provider failed after all
 its items were set

---
 load.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/load.go b/load.go
index c1fe8e8..c33dcd7 100644
--- a/load.go
+++ b/load.go
@@ -541,8 +541,10 @@ func (s *Loader) tryLoad(ctx context.Context) (data map[string]ValPkg, bin map[s
 				if eol {
 					break
 				}
-				s.setKV(k, fp.MustValue(k), true, nil)
+				privateSetter(s.storeS, s.Prefix(), k, fp.MustValue(k), true, nil)
 			}
+			data = make(map[string]ValPkg) // all the keys are set, nothing to decode
+			return
 		}
 	}
 	if err != nil {
-- 
2.43.0


From 729fc72565fe8abff7cdb1b4d5bf5bdf5120c013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:25 +0000
Subject: [PATCH 27/44] fix: yaml codec decoded a file into nothing; close the
 files read and written

---
 codecs/json/json.go | 1 +
 codecs/yaml/yaml.go | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/codecs/json/json.go b/codecs/json/json.go
index 0ba10c9..65a756a 100644
--- a/codecs/json/json.go
+++ b/codecs/json/json.go
@@ -57,6 +57,7 @@ func (l *ldr) Load(file string) (data map[string]any, err error) {
 	if f, err = os.Open(file); err != nil {
 		return
 	}
+	defer f.Close()
 	dec := json.NewDecoder(f)
 	if err = dec.Decode(&data); err != nil {
 		return
diff --git a/codecs/yaml/yaml.go b/codecs/yaml/yaml.go
index 9d26376..a891565 100644
--- a/codecs/yaml/yaml.go
+++ b/codecs/yaml/yaml.go
@@ -33,8 +33,9 @@ func (l *ldr) Load(file string) (data map[string]any, err error) {
 	if f, err = os.Open(file); err != nil {
 		return
 	}
+	defer f.Close()
 	dec := yamlv3.NewDecoder(f)
-	if err = dec.Decode(data); err != nil {
+	if err = dec.Decode(&data); err != nil {
 		return
 	}
 	return
@@ -45,6 +46,7 @@ func (l *ldr) Save(file string, data map[string]any) (err error) {
 	if f, err = os.Create(file); err != nil {
 		return
 	}
+	defer f.Close()
 	enc := yamlv3.NewEncoder(f)
 	if err = enc.Encode(data); err != nil {
 		return
-- 
2.43.0


From e409bc7459f7cd9df0a15c537a32f82698702241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:25 +0000
Subject: [PATCH 28/44] fix: To dropped the repeated elements of a slice, and
 raced in concurrent use

The copier merged a slice into the holder, which drops equal elements:
[80, 80] was extracted as [80]. And each call saved and restored the flags
of the copier shared by the whole process. Use a copier of its own which
copies the slices.
---
 radix/cvter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index a946d4d..3f5d76c 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -10,6 +10,7 @@ import (
 	logz "github.com/hedzr/logg/slog"
 
 	"github.com/hedzr/evendeep"
+	"github.com/hedzr/evendeep/flags/cms"
 )
 
 // TypedGetters makes a formal specification for Trie[any]
@@ -545,8 +546,9 @@ func (s *trieS[T]) submap(src map[string]any, keys []string, v any) {
 // removed yaml.v3, instead with evendeep.
 func reloadIntoStruct(m map[string]any, holder any, opts ...evendeep.Opt) (err error) {
 	// evendeep.Copy(m, holder) // evendeep.WithAutoExpandStructOpt, // evendeep.WithSyncAdvancingOpt,
-	defer evendeep.DefaultCopyController.SaveFlagsAndRestore()()
-	err = evendeep.DefaultCopyController.CopyTo(m, holder, opts...)
+	// a slice is taken as it is, the duplicated elements of it shall be kept
+	opts = append([]evendeep.Opt{evendeep.WithCleanStrategies(cms.SliceCopy, cms.MapMerge)}, opts...)
+	err = evendeep.New(opts...).CopyTo(m, holder)
 	return
 }
 
-- 
2.43.0


From d61aed7fd48db8541e1f6fdd0e21913a2c0e378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:04 +0000
Subject: [PATCH 29/44] fix: To cleared the holder for a path which only
 partially matches

---
 radix/cvter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 3f5d76c..8083c87 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -565,8 +565,10 @@ func (s *trieS[T]) To(path string, holder any, opts ...MOpt[T]) (err error) {
 	var m map[string]any
 	ret, err = s.GetM(path, opts...)
 	if err == nil && ret != nil {
-		m = s.splitCompactKeys(ret)
-		err = reloadIntoStruct(m, holder)
+		if len(ret) > 0 { // nothing found, nothing to fill in
+			m = s.splitCompactKeys(ret)
+			err = reloadIntoStruct(m, holder)
+		}
 	} else {
 		ret, err = s.GetR(path)
 		if err == nil && ret != nil {
-- 
2.43.0


From 4f686ca34fb2de2fd671c0209b50aaf12ee6c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:42 +0000
Subject: [PATCH 30/44] fix: maps provider lost repeated and empty elements of
 slices

The copy of the given map was made by merging it into a new one, which
drops the equal elements of a slice, and the empty maps in it.
---
 internal/cvt/cvt.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index 7195470..b023d12 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -2,19 +2,50 @@ package cvt
 
 import (
 	"fmt"
+	"reflect"
 	"sort"
 	"strings"
-
-	"github.com/hedzr/evendeep"
 )
 
 // Copy copies a map deeply
+//
+// Each element of a slice is kept as is, the repeated and the empty ones too.
 func Copy(m map[string]any) (data map[string]any) {
 	data = make(map[string]any)
-	evendeep.Copy(&m, &data)
+	for k, v := range m {
+		data[k] = copyAny(v)
+	}
 	return
 }
 
+// copyAny copies the nested maps and slices.
+func copyAny(v any) any {
+	if v == nil {
+		return nil
+	}
+	return copyValue(reflect.ValueOf(v)).Interface()
+}
+
+func copyValue(v reflect.Value) (ret reflect.Value) {
+	switch k := v.Kind(); {
+	case k == reflect.Interface && !v.IsNil():
+		return copyValue(v.Elem())
+	case k == reflect.Map && !v.IsNil():
+		ret = reflect.MakeMapWithSize(v.Type(), v.Len())
+		for it := v.MapRange(); it.Next(); {
+			ret.SetMapIndex(it.Key(), copyValue(it.Value()))
+		}
+		return
+	case k == reflect.Slice && !v.IsNil():
+		ret = reflect.MakeSlice(v.Type(), v.Len(), v.Len())
+		for i := 0; i < v.Len(); i++ {
+			ret.Index(i).Set(copyValue(v.Index(i)))
+		}
+		return
+	}
+	return v
+}
+
 // Normalize make a map formal with nested map[string]any objects.
 func Normalize(m map[string]any, worker func(k string, v any)) map[string]any {
 	for k, v := range m {
-- 
2.43.0


From 9dd87f81856df005a32aa80cc1fab8f77b3ba903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:08 +0000
Subject: [PATCH 31/44] fix: consul provider crashed on a missing key in
 non-recursive mode

---
 providers/consul/consul.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 05f43c5..b97aa64 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -205,7 +205,7 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 	}
 
 	pair, _, err = kv.Get(s.position, nil)
-	if err != nil {
+	if err != nil || pair == nil { // pair is nil if the key doesn't exist
 		return
 	}
 
-- 
2.43.0


From 65bb32327e2d876b76e3bc49ac7247aa0c5ac855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:46 +0000
Subject: [PATCH 32/44] fix: consul watcher lost coalesced changes and
 removals, and delivered bytes

---
 providers/consul/change.go | 133 +++++++++++++++----------------------
 providers/consul/consul.go |   3 +-
 2 files changed, 56 insertions(+), 80 deletions(-)

diff --git a/providers/consul/change.go b/providers/consul/change.go
index 9b2e5c0..ed1efb3 100644
--- a/providers/consul/change.go
+++ b/providers/consul/change.go
@@ -10,9 +10,10 @@ import (
 )
 
 type changeS struct {
-	val   any
-	idx   int
-	index uint64 // consul action index
+	pairs api.KVPairs // the pairs of this event
+	idx   int         // next pair to be returned
+	last  api.KVPairs // the whole dataset seen at last time
+	ready bool        // false before seeing the dataset
 
 	lastOp        store.Op
 	lastEvent     string
@@ -25,100 +26,76 @@ type changeS struct {
 // func (s *changeS) Key() string              { return string(s.ev.Kv.Key) }
 // func (s *changeS) Val() any                 { return s.val }
 
-func (s *changeS) Path() string             { return s.val.(string) }
+func (s *changeS) Path() string             { return "" }
 func (s *changeS) Op() store.Op             { return s.lastOp }
 func (s *changeS) Has(op store.Op) bool     { return uint64(s.lastOp)&uint64(op) != 0 }
 func (s *changeS) Timestamp() time.Time     { return s.lastEventTime }
 func (s *changeS) Provider() store.Provider { return s.provider }
 func (s *changeS) Next() (key string, val any, ok bool) {
-	if s.provider.(*pvdr).recursive {
-		if pairs, yes := s.val.(api.KVPairs); yes {
-		RetryNextPair:
-			if s.idx < len(pairs) {
-				kvp := pairs[s.idx]
-				if s.lastOp == store.OpRemove || s.checkOpIndex(kvp) {
-					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), kvp.Value, true
-				} else {
-					s.idx++
-					goto RetryNextPair
-				}
-				s.idx++
-			}
-		}
-	} else {
-		if kvp, yes := s.val.(*api.KVPair); yes {
-			if s.idx == 0 {
-				if s.checkOpIndex(kvp) {
-					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), kvp.Value, true
-				}
-				s.idx++
-			}
-		}
+	if s.idx < len(s.pairs) {
+		kvp := s.pairs[s.idx]
+		s.idx++
+		key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), string(kvp.Value), true
 	}
 	return
 }
 
-func (s *changeS) Set(val any, idx uint64) (df func()) {
-	s.lastEventTime = time.Now()
-	s.index, s.idx = idx, 0
-	df = s.findOpIndex(idx, val)
-	if df == nil {
-		df = func() {}
+// notify splits a dataset received from consul into the created, written and
+// removed pairs, and invokes cb for each of these groups.
+func (s *changeS) notify(val any, idx uint64, cb func(event any, err error)) {
+	created, written, removed := s.diff(val, idx)
+	for _, group := range []struct {
+		op    store.Op
+		pairs api.KVPairs
+	}{{store.OpRemove, removed}, {store.OpCreate, created}, {store.OpWrite, written}} {
+		if len(group.pairs) > 0 {
+			s.lastOp, s.pairs, s.idx = group.op, group.pairs, 0
+			s.lastEventTime = time.Now()
+			cb(s, nil)
+		}
 	}
-	return
 }
 
-func (s *changeS) findOpIndex(idx uint64, val any) (df func()) {
-	if s.provider.(*pvdr).recursive {
-		if pairs, ok := val.(api.KVPairs); ok {
-			for ix := 0; ix < len(pairs); ix++ {
-				kvp := pairs[ix]
-				if s.checkOpIndex(kvp) {
-					s.val = val
-					return
-				}
-			}
+// diff compares a dataset received from consul with the last one. There can
+// be more than one changes between them.
+func (s *changeS) diff(val any, idx uint64) (created, written, removed api.KVPairs) {
+	var pairs api.KVPairs
+	switch v := val.(type) {
+	case api.KVPairs:
+		pairs = v
+	case *api.KVPair:
+		pairs = api.KVPairs{v}
+	} // or nil, if there is no such key any more
 
-			s.lastOp = store.OpRemove
-			df = func() { s.val = val }
-			var removed api.KVPairs
-			if s.val != nil {
-				for _, p := range s.val.(api.KVPairs) {
-					var found bool
-					for _, q := range pairs {
-						if p.Key == q.Key {
-							found = true
-							break
-						}
-					}
-					if !found {
-						removed = append(removed, p)
-					}
-				}
+	for _, kvp := range pairs {
+		old := find(s.last, kvp.Key)
+		switch {
+		case !s.ready: // the dataset has been loaded already
+			if kvp.CreateIndex == idx {
+				created = append(created, kvp)
+			} else if kvp.ModifyIndex == idx {
+				written = append(written, kvp)
 			}
-			s.val = removed
+		case old == nil:
+			created = append(created, kvp)
+		case old.ModifyIndex != kvp.ModifyIndex:
+			written = append(written, kvp)
 		}
-	} else {
-		if kvp, ok := val.(*api.KVPair); ok {
-			if !s.checkOpIndex(kvp) {
-				s.lastOp = store.OpRemove
-				df = func() { s.val = val }
-				return
-			}
-			s.val = val
-			return
+	}
+	for _, kvp := range s.last {
+		if find(pairs, kvp.Key) == nil {
+			removed = append(removed, kvp)
 		}
 	}
+	s.last, s.ready = pairs, true
 	return
 }
 
-func (s *changeS) checkOpIndex(pair *api.KVPair) bool {
-	if pair.CreateIndex == s.index {
-		s.lastOp = store.OpCreate
-		return true
-	} else if pair.ModifyIndex == s.index {
-		s.lastOp = store.OpWrite
-		return true
+func find(pairs api.KVPairs, key string) *api.KVPair {
+	for _, kvp := range pairs {
+		if kvp.Key == key {
+			return kvp
+		}
 	}
-	return false
+	return nil
 }
diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index b97aa64..07e5cbc 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -298,8 +298,7 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 
 	s.plan = lastChange.plan
 	s.plan.Handler = func(idx uint64, val any) {
-		defer lastChange.Set(val, idx)()
-		cb(&lastChange, nil)
+		lastChange.notify(val, idx, cb)
 	}
 	// s.plan.HybridHandler = func(bpv watch.BlockingParamVal, val interface{}) {
 	// 	lastChange.Set(val)
-- 
2.43.0


From 2035e3b0844097148107393cbea085c688f7f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:56 +0000
Subject: [PATCH 33/44] fix: etcd watcher spun forever after the client was
 closed

---
 providers/etcd/etcd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/providers/etcd/etcd.go b/providers/etcd/etcd.go
index bf1e380..9b0a7ca 100644
--- a/providers/etcd/etcd.go
+++ b/providers/etcd/etcd.go
@@ -244,7 +244,10 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) error {
 			select {
 			case <-ctx.Done():
 				return
-			case wresp := <-w:
+			case wresp, ok := <-w:
+				if !ok {
+					return // closed, with the client
+				}
 				for _, ev := range wresp.Events {
 					lastChange.Set(ev)
 					cb(&lastChange, nil)
-- 
2.43.0


From 3f7b2d26a022af95418f5ee6361b77169d4aab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:34 +0000
Subject: [PATCH 34/44] fix: Dump deadlocked with a concurrent read or expiry
 of a key which has a TTL

---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index 116cc18..d7a0bdc 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -573,7 +573,7 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 				_, _ = sb.WriteString(" ")
 				_, _ = sb.WriteString(s.pathS)
 				_, _ = sb.WriteString(" => ")
-				_, _ = sb.WriteString(ColorToDim(fmt.Sprint(s.Data())))
+				_, _ = sb.WriteString(ColorToDim(fmt.Sprint(s.data))) // already locked, Data() would lock again
 			}
 
 			if s.comment != "" {
-- 
2.43.0


From 9469f5f7ff412980282740e59bd14ea12b4688a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:40 +0000
Subject: [PATCH 35/44] fix: Tag raced with the expiry of a key which has a TTL

---
 radix/node.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index d7a0bdc..6117f21 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -42,7 +42,6 @@ func (s *nodeS[T]) isEmpty() bool       { return s.nType&NTData == 0 }        //
 func (s *nodeS[T]) Modified() bool      { return s.nType&NTModified != 0 }    // modification state
 func (s *nodeS[T]) Description() string { return s.description }              // description field
 func (s *nodeS[T]) Comment() string     { return s.comment }                  // comment field
-func (s *nodeS[T]) Tag() any            { return s.tag }                      // tag field
 func (s *nodeS[T]) Key() string         { return s.pathS }                    // key field is the full path of this node
 func (s *nodeS[T]) KeyPiece() string    { return string(s.path) }             // key piece field for this node
 func (s *nodeS[T]) IsLeaf() bool        { return s.nType&NTMask == NTLeaf }   // leaf node?
@@ -107,6 +106,14 @@ func (s *nodeS[T]) Data() (data T) {
 	return
 }
 
+// Tag returns the Tag field of a node.
+func (s *nodeS[T]) Tag() (tag any) {
+	s.readLockFor(func(s *nodeS[T]) { // it is cleared when a TTL arrives
+		tag = s.tag
+	})
+	return
+}
+
 // SetData sets the Data field of a node.
 func (s *nodeS[T]) SetData(data T) {
 	// if !s.isBranch() {
-- 
2.43.0


From f682dd8bd930786ae643b1430e33e8a673f6d7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:29 +0000
Subject: [PATCH 36/44] fix: GetM and To wrote the entries below a key into the
 map value of it

---
 radix/cvter.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 8083c87..f1e8563 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -498,18 +498,32 @@ func (s *trieS[T]) splitCompactKeys(in map[string]any) (out map[string]any) {
 			a := strings.Split(k, string(s.delimiter))
 			s.submap(out, a, v)
 		} else {
-			out[k] = v
+			out[k] = ownMap(v)
 		}
 	}
 	return
 }
 
+// ownMap copies a map value, so that the entries below its key can be
+// put into the copy but not into the map in the tree.
+func ownMap(v any) any {
+	m, ok := v.(map[string]any)
+	if !ok {
+		return v
+	}
+	cp := make(map[string]any, len(m))
+	for k, x := range m {
+		cp[k] = ownMap(x)
+	}
+	return cp
+}
+
 func (s *trieS[T]) submap(src map[string]any, keys []string, v any) {
 	if len(keys) == 0 {
 		return
 	}
 	if len(keys) == 1 {
-		src[keys[0]] = v
+		src[keys[0]] = ownMap(v)
 		return
 	}
 
@@ -660,7 +674,7 @@ func (s *prefixPutter[T]) putKeys(m map[string]any, keys []string, v any) {
 		return
 	}
 	if len(keys) == 1 {
-		m[keys[0]] = v
+		m[keys[0]] = ownMap(v)
 		return
 	}
 
-- 
2.43.0


From 3bc99e1f5e895da10851fce87d22d19cf90f7135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:12 +0000
Subject: [PATCH 37/44] fix: hcl codec reads values and blocks, and writes
 floats, nulls and mixed lists

Since the upgrade to hcl v2 a loaded document held unevaluated
*hcl.Attribute objects and blocks were refused, floats were written as
null, and a list of mixed types caused a panic.
---
 codecs/hcl/hcl.go | 164 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 130 insertions(+), 34 deletions(-)

diff --git a/codecs/hcl/hcl.go b/codecs/hcl/hcl.go
index 5e48d85..d6b9164 100644
--- a/codecs/hcl/hcl.go
+++ b/codecs/hcl/hcl.go
@@ -2,9 +2,12 @@ package hcl
 
 import (
 	"fmt"
+	"math/big"
 	"reflect"
+	"strconv"
 
-	"github.com/hashicorp/hcl/v2/hclsimple"
+	"github.com/hashicorp/hcl/v2"
+	"github.com/hashicorp/hcl/v2/hclsyntax"
 	"github.com/hashicorp/hcl/v2/hclwrite"
 	"github.com/zclconf/go-cty/cty"
 
@@ -30,25 +33,14 @@ type ldr struct{ flattenSlices bool }
 
 // Unmarshal parses the given hcl bytes.
 func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
-	if err = hclsimple.Decode(
-		"example.hcl", b,
-		nil, &data,
-	); err != nil {
-		return
+	file, diags := hclsyntax.ParseConfig(b, "example.hcl", hcl.InitialPos)
+	if diags.HasErrors() {
+		return nil, diags
 	}
 
-	// err = hcl.Unmarshal(b, &data)
-
-	// var o *ast.File
-
-	// o, err = hcl.Parse(string(b))
-	// if err != nil {
-	// 	return
-	// }
-
-	// if err = hcl.DecodeObject(&data, o); err != nil {
-	// 	return
-	// }
+	if data, err = decodeBody(file.Body.(*hclsyntax.Body)); err != nil {
+		return nil, err
+	}
 
 	if p.flattenSlices {
 		flattenHCL(data)
@@ -56,6 +48,88 @@ func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
 	return
 }
 
+// decodeBody extracts the attributes and the blocks of a body.
+//
+// The blocks with the same type are collected into a slice, and the labels
+// of a block are treated as nested blocks.
+func decodeBody(body *hclsyntax.Body) (data map[string]any, err error) {
+	data = make(map[string]any)
+	for k, attr := range body.Attributes {
+		val, diags := attr.Expr.Value(nil)
+		if diags.HasErrors() {
+			return nil, diags
+		}
+		if data[k], err = goValue(val); err != nil {
+			return
+		}
+	}
+	for _, block := range body.Blocks {
+		m, err := decodeBody(block.Body)
+		if err != nil {
+			return nil, err
+		}
+		for i := len(block.Labels) - 1; i >= 0; i-- {
+			m = map[string]any{block.Labels[i]: []map[string]any{m}}
+		}
+		vec, ok := data[block.Type].([]map[string]any)
+		if _, exists := data[block.Type]; exists && !ok {
+			return nil, fmt.Errorf("[hcl-read] %q is both an attribute and a block", block.Type)
+		}
+		data[block.Type] = append(vec, m)
+	}
+	return
+}
+
+func goValue(val cty.Value) (ret any, err error) {
+	if val.IsNull() {
+		return
+	}
+	switch ty := val.Type(); {
+	case ty == cty.Bool:
+		ret = val.True()
+	case ty == cty.String:
+		ret = val.AsString()
+	case ty == cty.Number:
+		ret = goNumber(val.AsBigFloat())
+	case ty.IsListType(), ty.IsTupleType(), ty.IsSetType():
+		vec := make([]any, 0, val.LengthInt())
+		for it := val.ElementIterator(); it.Next(); {
+			_, v := it.Element()
+			var x any
+			if x, err = goValue(v); err != nil {
+				return
+			}
+			vec = append(vec, x)
+		}
+		ret = vec
+	case ty.IsMapType(), ty.IsObjectType():
+		m := make(map[string]any)
+		for it := val.ElementIterator(); it.Next(); {
+			k, v := it.Element()
+			if m[k.AsString()], err = goValue(v); err != nil {
+				return
+			}
+		}
+		ret = m
+	default:
+		err = fmt.Errorf("[hcl-read] unprocessed value: %#v", val)
+	}
+	return
+}
+
+func goNumber(bf *big.Float) any {
+	if bf.IsInt() {
+		if i, acc := bf.Int64(); acc == big.Exact {
+			return int(i)
+		}
+		if u, acc := bf.Uint64(); acc == big.Exact {
+			return u
+		}
+	}
+	f, _ := bf.Float64()
+	return f
+}
+
 func ctyValue(v any) (ret cty.Value, err error) {
 	switch z := v.(type) {
 	// case map[string]any:
@@ -88,6 +162,20 @@ func ctyValue(v any) (ret cty.Value, err error) {
 		ret = cty.NumberUIntVal(uint64(z))
 	case uint64:
 		ret = cty.NumberUIntVal(uint64(z))
+	case float32:
+		ret, err = cty.ParseNumberVal(strconv.FormatFloat(float64(z), 'f', -1, 32))
+	case float64:
+		ret, err = cty.ParseNumberVal(strconv.FormatFloat(z, 'f', -1, 64))
+	case nil:
+		ret = cty.NullVal(cty.DynamicPseudoType)
+	case map[string]any:
+		values := make(map[string]cty.Value, len(z))
+		for k, x := range z {
+			if values[k], err = ctyValue(x); err != nil {
+				return
+			}
+		}
+		ret = cty.ObjectVal(values)
 	default:
 		rv := reflect.ValueOf(z)
 		if rv.Kind() == reflect.Slice {
@@ -95,15 +183,15 @@ func ctyValue(v any) (ret cty.Value, err error) {
 				var values []cty.Value
 				for ix := 0; ix < l; ix++ {
 					iv := rv.Index(ix)
-					if val, err := ctyValue(iv.Interface()); err == nil {
-						values = append(values, val)
-					} else {
-						err = fmt.Errorf("[hcl-write][ctyValue] unprocessed v: v = %+v\n", v)
+					var val cty.Value
+					if val, err = ctyValue(iv.Interface()); err != nil {
+						return
 					}
+					values = append(values, val)
 				}
-				ret = cty.ListVal(values)
+				ret = cty.TupleVal(values) // the types of the elements can be different
 			} else {
-				ret = cty.ListValEmpty(cty.Type{})
+				ret = cty.EmptyTupleVal
 			}
 		} else {
 			err = fmt.Errorf("[hcl-write][ctyValue] unprocessed v: v = %+v\n", v)
@@ -112,33 +200,42 @@ func ctyValue(v any) (ret cty.Value, err error) {
 	return
 }
 
-func fill(p *ldr, body *hclwrite.Body, k string, v any) {
+func fill(p *ldr, body *hclwrite.Body, k string, v any) (err error) {
+	if !hclsyntax.ValidIdentifier(k) {
+		return fmt.Errorf("[hcl-write][fill] invalid k: k = %q", k)
+	}
+
 	switch z := v.(type) {
 	case map[string]any:
 		bazBlock := body.AppendNewBlock(k, nil)
 		bazBody := bazBlock.Body()
-		p.fill(bazBody, z)
+		err = p.fill(bazBody, z)
 
 	default:
-		val, err := ctyValue(z)
-		if err != nil {
-			err = fmt.Errorf("[hcl-write][fill] unprocessed k: k = %v, err: %w\n", k, err)
+		var val cty.Value
+		if val, err = ctyValue(z); err != nil {
+			return fmt.Errorf("[hcl-write][fill] unprocessed k: k = %v, err: %w", k, err)
 		}
 		body.SetAttributeValue(k, val)
 	}
+	return
 }
 
-func (p *ldr) fill(body *hclwrite.Body, m map[string]any) {
+func (p *ldr) fill(body *hclwrite.Body, m map[string]any) (err error) {
 	for k, v := range m {
-		fill(p, body, k, v)
+		if err = fill(p, body, k, v); err != nil {
+			return
+		}
 	}
+	return
 }
 
-// Marshal marshals the given config map to hcl bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
 	f := hclwrite.NewEmptyFile()
 	rootBody := f.Body()
-	p.fill(rootBody, m)
+	if err = p.fill(rootBody, m); err != nil {
+		return
+	}
 
 	// rootBody.SetAttributeValue("string", cty.StringVal("bar")) // this is overwritten later
 	// rootBody.AppendNewline()
@@ -174,7 +271,6 @@ func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
 	// bazBody.SetAttributeValue("baz", cty.ListValEmpty(cty.String))
 
 	data = f.Bytes()
-	err = nil
 	// err = store.ErrNotImplemented
 	return
 }
-- 
2.43.0


From e128a0e85cda1b39f4326658b9e05697d260fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:20 +0000
Subject: [PATCH 38/44] fix: looking up a path hung on a pattern with an empty
 parameter name

A segment of just ':' (or a key ending with the delimiter ':') let the
extractor go back to the start of the path piece, over and over.
---
 radix/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radix/node.go b/radix/node.go
index 6117f21..1f0f7c7 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -377,6 +377,9 @@ func (s *nodeS[T]) matchChildren(word []rune) (matched bool, child *nodeS[T]) {
 }
 
 func extractor(from, to int, src, piece []rune, delimiter rune) (ret string, pos int, end bool) {
+	if from >= to {
+		return "", to, true // nothing left
+	}
 	j := 0
 	for i := from; i < to; j++ {
 		if src[i] == delimiter {
-- 
2.43.0


From 2595c1560c9040224554e4b10293c51d991b5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:55 +0000
Subject: [PATCH 39/44] fix: a view made while its store is loading stays in
 the loading state forever

The loading flag was copied into a view when the view was made, so keys set
through a view that was made within a loading block were never marked as
modified, such a view (or copy) could not load anything any more, and a view
made before the block marked keys set within it.
---
 load.go  | 5 +++--
 store.go | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/load.go b/load.go
index c33dcd7..390a841 100644
--- a/load.go
+++ b/load.go
@@ -16,7 +16,9 @@ import (
 	"github.com/hedzr/store/radix"
 )
 
-func (s *storeS) inLoading() bool { return atomic.LoadInt32(&s.loading) == 1 }
+func (s *storeS) inLoading() bool {
+	return atomic.LoadInt32(&s.loading) == 1 || s.origin != nil && s.origin.inLoading()
+}
 
 // WithinLoading is a helper to 'load' a 'fn'. The 'fn' will be
 // run as is, and the internal flag 's.loading' will be set at
@@ -185,7 +187,6 @@ func (s *storeS) loadMap(m map[string]any, position string, creating bool, onSet
 func privateSetter(ss *storeS, position, k string, v any, creating bool, onSet lmOnSet) {
 	set := ss.WithPrefixReplaced().(*storeS)
 	set.parent, set.merging = ss, true // notify the handlers of ss
-	defer func() { atomic.StoreInt32(&set.loading, 0) }()
 	path := ss.join(position, k)
 	_, branch, found, _ := set.Trie.Query(path, nil)
 	set.setKV(path, v, !found || branch, onSet)
diff --git a/store.go b/store.go
index 55bed58..de3cb8a 100644
--- a/store.go
+++ b/store.go
@@ -106,6 +106,7 @@ type storeS struct {
 	// See dupS()
 
 	parent *storeS
+	origin *storeS // the store a view was made from
 
 	merging bool // the private setter of Merge and Load
 
@@ -142,7 +143,7 @@ func (s *storeS) dupS(trie radix.Trie[any]) (newStore *storeS) {
 		Trie:         trie,
 		flattenSlice: s.flattenSlice,
 		allowWatch:   s.allowWatch,
-		loading:      s.loading,
+		origin:       s, // a view is in loading while its origin is
 		// don't dup the member 'parent' here
 	}
 	return
@@ -442,7 +443,9 @@ func (s *storeS) Clone() (newStore Store) { return s.Dup() } // make a clone for
 //
 // At this scene, the parent store still holds the cleanup closers.
 func (s *storeS) Dup() (newStore Store) {
-	return s.dupS(s.Trie.Dup())
+	d := s.dupS(s.Trie.Dup())
+	d.origin = nil // a copy doesn't follow the loading state of its original
+	return d
 }
 
 // WithPrefix makes a lightweight copy from current storeS.
-- 
2.43.0


From 7c9bc9b30d6e1cae4f52eebfeb8f33abcc4c77e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:47 +0000
Subject: [PATCH 40/44] fix: consul watcher lost the changes made between
 loading and the first watch

The first dataset the watcher received was not compared with the loaded one;
only the entries with the very last index were taken as changed.
---
 providers/consul/consul.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 07e5cbc..e7c814c 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -37,7 +37,8 @@ type pvdr struct {
 	stripPrefix, prependPrefix string
 	delimiter                  string // replace consul slash '/' with delimiter
 
-	plan *watch.Plan
+	plan   *watch.Plan
+	loaded *api.KVPairs // the pairs returned by Read at last time
 
 	// onUpdated OnUpdated
 }
@@ -161,6 +162,7 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 		if err != nil {
 			return
 		}
+		s.loaded = &pairs
 
 		// Detailed information can be obtained via hedzr/store.GetString(key), which key are:
 		//
@@ -205,9 +207,14 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 	}
 
 	pair, _, err = kv.Get(s.position, nil)
-	if err != nil || pair == nil { // pair is nil if the key doesn't exist
+	if err != nil {
+		return
+	}
+	s.loaded = &pairs
+	if pair == nil { // pair is nil if the key doesn't exist
 		return
 	}
+	pairs = api.KVPairs{pair}
 
 	if s.processMeta {
 		m := make(map[string]any)
@@ -290,6 +297,9 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 	}
 
 	var lastChange = changeS{provider: s}
+	if s.loaded != nil { // the first dataset might have changed since it was loaded
+		lastChange.last, lastChange.ready = *s.loaded, true
+	}
 
 	lastChange.plan, err = watch.Parse(p)
 	if err != nil {
-- 
2.43.0


From 4cf4e872b7d0f59f24958fb0e23f842a85646b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:47 +0000
Subject: [PATCH 41/44] fix: etcd watcher lost the changes made between loading
 and watching

The watch starts right after the revision that was loaded.
---
 providers/etcd/etcd.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/providers/etcd/etcd.go b/providers/etcd/etcd.go
index 9b0a7ca..ac5c0be 100644
--- a/providers/etcd/etcd.go
+++ b/providers/etcd/etcd.go
@@ -33,6 +33,7 @@ type pvdr struct {
 	delimiter                  string
 	limit                      bool
 	maxLimit                   int64
+	revision                   int64 // of the data loaded by Read
 	processMeta                bool
 }
 
@@ -190,6 +191,9 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 		}
 	}
 
+	if resp.Header != nil {
+		s.revision = resp.Header.Revision
+	}
 	data = make(map[string]store.ValPkg, len(resp.Kvs))
 	for _, r := range resp.Kvs {
 		data[s.NormalizeKey(string(r.Key))] = store.ValPkg{
@@ -234,11 +238,14 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) error {
 	var lastChange = changeS{provider: s}
 
 	go func() {
+		var opts []clientv3.OpOption
 		if s.prefixOrKey {
-			w = s.Client.Watch(context.Background(), s.storePrefix, clientv3.WithPrefix())
-		} else {
-			w = s.Client.Watch(context.Background(), s.storePrefix)
+			opts = append(opts, clientv3.WithPrefix())
+		}
+		if s.revision > 0 { // don't lose what has changed since it was loaded
+			opts = append(opts, clientv3.WithRev(s.revision+1))
 		}
+		w = s.Client.Watch(context.Background(), s.storePrefix, opts...)
 
 		for {
 			select {
-- 
2.43.0


From 451c6dd92673d0b406b7198067a1cae0a4a20462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:41 +0000
Subject: [PATCH 42/44] fix: writing through a back-recursive view changed the
 keys of outer sections

---
 radix/trie.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 250533b..46cae7b 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -201,7 +201,7 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, nil)
+	node, _, partialMatched := s.searchExactly(path)
 	found := node != nil && !partialMatched // && !node.isBranch()
 	state = -1
 	if found {
@@ -444,7 +444,7 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, nil)
+	node, _, partialMatched := s.searchExactly(path)
 	if ok = node != nil && !partialMatched; ok {
 		node.description, node.comment = description, comment
 	}
@@ -458,7 +458,7 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, nil)
+	node, _, partialMatched := s.searchExactly(path)
 	if ok = node != nil && !partialMatched; ok {
 		node.tag = tag
 	}
@@ -572,7 +572,7 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 
 // removeAt deleting a full path (including the prefix).
 func (s *trieS[T]) removeAt(path string) (nodeRemoved, nodeParent Node[T], removed bool) {
-	node, parent, partialMatched := s.search(path, nil)
+	node, parent, partialMatched := s.searchExactly(path)
 	found := node != nil && (!partialMatched || s.isBelow(node, path)) // && !node.isBranch()
 	if found {
 		if parent != nil {
@@ -736,6 +736,16 @@ func (s *trieS[T]) Query(path string, kvpair KVPair) (data T, branch, found bool
 //
 // Since v1.4.29, matchR supports look last key according to RecursiveMode.
 func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T], partialMatched bool) { //nolint:revive
+	return s.searchWith(word, kvpair, s.recursiveMode)
+}
+
+// searchExactly searches the node to be modified, which must not be
+// one of the outer sections, whatever RecursiveMode is.
+func (s *trieS[T]) searchExactly(word string) (found, parent *nodeS[T], partialMatched bool) {
+	return s.searchWith(word, nil, RecusiveNone)
+}
+
+func (s *trieS[T]) searchWith(word string, kvpair KVPair, mode RecusiveMode) (found, parent *nodeS[T], partialMatched bool) { //nolint:revive
 	found = s.root
 	mctx := getMatchCtx(word, s.delimiter)
 	defer putBack(mctx)
@@ -746,7 +756,7 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 		return child, prnt, pm
 	}
 
-	if s.recursiveMode == RecusiveUp && strings.Contains(word, string(s.delimiter)) {
+	if mode == RecusiveUp && strings.Contains(word, string(s.delimiter)) {
 		w := word
 	retry:
 		a := strings.Split(w, string(s.delimiter))
-- 
2.43.0


From 396f41bb2bbb88519bad067907de65080b6a3348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:51 +0000
Subject: [PATCH 43/44] fix: writing a key raced with its expiry

---
 radix/node.go | 32 +++++++++++++++++++++-----------
 radix/trie.go |  8 +++++---
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 1f0f7c7..734515c 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -74,16 +74,20 @@ func (s *nodeS[T]) lockFor(cb func(*nodeS[T])) { //nolint:revive
 // To clear the state, using ResetModified;
 // Or flip the state with ToggleModified.
 func (s *nodeS[T]) SetModified(b bool) { //nolint:revive
-	if b {
-		s.nType |= NTModified
-	} else {
-		s.nType &= ^NTModified
-	}
+	s.lockFor(func(s *nodeS[T]) {
+		if b {
+			s.nType |= NTModified
+		} else {
+			s.nType &= ^NTModified
+		}
+	})
 }
 
 // ToggleModified flips the modified state.
 func (s *nodeS[T]) ToggleModified() {
-	s.nType ^= NTModified
+	s.lockFor(func(s *nodeS[T]) {
+		s.nType ^= NTModified
+	})
 	// if s.Modified() {
 	// 	s.nType &= ^NTModified
 	// } else {
@@ -93,7 +97,9 @@ func (s *nodeS[T]) ToggleModified() {
 
 // ResetModified clears the modified state.
 func (s *nodeS[T]) ResetModified() {
-	s.nType &= ^NTModified
+	s.lockFor(func(s *nodeS[T]) {
+		s.nType &= ^NTModified
+	})
 }
 
 // Data returns the Data field of a node.
@@ -157,7 +163,9 @@ func (s *nodeS[T]) SetTag(tag any) { //nolint:revive
 	// if s.isBranch() {
 	// 	return
 	// }
-	s.tag = tag
+	s.lockFor(func(s *nodeS[T]) { // it is cleared when a TTL arrives
+		s.tag = tag
+	})
 }
 
 func (s *nodeS[T]) StartsWith(ch rune) bool { //nolint:revive
@@ -313,8 +321,10 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		}
 	} else {
 		// hit this node,
-		base.nType |= NTLeaf | NTData
-		node, oldData, base.data = base, base.data, data
+		base.lockFor(func(base *nodeS[T]) { // it is cleared when a TTL arrives
+			base.nType |= NTLeaf | NTData
+			node, oldData, base.data = base, base.data, data
+		})
 		if cb != nil {
 			cb(fullPath, oldData, node, trie)
 		}
@@ -621,7 +631,7 @@ func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 		pathS:       s.pathS,
 		description: s.description,
 		comment:     s.comment,
-		tag:         s.tag,
+		tag:         s.Tag(),
 		nType:       s.nType,
 	}
 
diff --git a/radix/trie.go b/radix/trie.go
index 46cae7b..081ea90 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -144,7 +144,9 @@ func (s *TTL[T]) run() {
 					if job.action != nil {
 						job.action(s, job.node)
 					}
-					if job.node.isBranch() {
+					var branch bool
+					job.node.readLockFor(func(n *nodeS[T]) { branch = n.isBranch() })
+					if branch {
 						s.treevec[0].removeAt(job.node.pathS)
 					} else {
 						job.node.SetEmpty()
@@ -398,7 +400,7 @@ func (s *trieS[T]) SetNode(path string, data T, tag any, descriptionAndComments
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, old := s.root.insertInternal([]rune(path), path, data, s, nil)
-	node.tag = tag
+	node.SetTag(tag)
 	switch len(descriptionAndComments) {
 	case 0:
 	case 1:
@@ -460,7 +462,7 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	}
 	node, _, partialMatched := s.searchExactly(path)
 	if ok = node != nil && !partialMatched; ok {
-		node.tag = tag
+		node.SetTag(tag)
 	}
 	return
 }
-- 
2.43.0


From d0cb2b7e506e04fdace2ec2f03551b968cbe0364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:58 +0000
Subject: [PATCH 44/44] fix: closing a watched file left its watcher running,
 and a bare file name could not be watched

---
 providers/file/file.go | 43 +++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/providers/file/file.go b/providers/file/file.go
index d77c43e..f440a95 100644
--- a/providers/file/file.go
+++ b/providers/file/file.go
@@ -52,7 +52,7 @@ type pvdr struct {
 	file         string
 	watchEnabled bool
 	writeEnabled bool
-	watching     int32
+	watcher      atomic.Pointer[fsnotify.Watcher]
 	codec        store.Codec
 	prefix       string
 }
@@ -117,7 +117,9 @@ func (s *pvdr) WithCodec(codec store.Codec)   { s.codec = codec }
 func (s *pvdr) WithPosition(prefix string)    { s.prefix = prefix }
 
 func (s *pvdr) Close() {
-	atomic.CompareAndSwapInt32(&s.watching, 1, 0)
+	if w := s.watcher.Swap(nil); w != nil {
+		_ = w.Close() // and its channels, which ends watchRunner
+	}
 }
 
 func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err error) {
@@ -136,7 +138,7 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 
 	// Although only a single file is being watched, fsnotify has to watch
 	// the whole parent directory to pick up all events such as symlink changes.
-	fDir, _ := filepath.Split(s.file)
+	fDir := filepath.Dir(s.file)
 
 	var w *fsnotify.Watcher
 	w, err = fsnotify.NewWatcher()
@@ -144,10 +146,18 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 		return err
 	}
 
-	go s.watchRunner(ctx, cb, w, realPath)
-
 	// Watch the directory for changes.
-	return w.Add(fDir)
+	if err = w.Add(fDir); err != nil {
+		_ = w.Close()
+		return err
+	}
+
+	if !s.watcher.CompareAndSwap(nil, w) {
+		return w.Close() // it is being watched
+	}
+
+	go s.watchRunner(ctx, cb, w, realPath)
+	return nil
 }
 
 func (s *pvdr) watchRunner(ctx context.Context, cb func(event any, err error), w *fsnotify.Watcher, realPath string) {
@@ -157,22 +167,25 @@ func (s *pvdr) watchRunner(ctx context.Context, cb func(event any, err error), w
 		lastChange = changeS{provider: s}
 	)
 
-	if !atomic.CompareAndSwapInt32(&s.watching, 0, 1) {
-		return
-	}
+	defer func() {
+		s.watcher.CompareAndSwap(w, nil)
+		_ = w.Close()
+	}()
 
 	var ok bool
 	var err error
 	var event fsnotify.Event
 loop:
-	for atomic.LoadInt32(&s.watching) == 1 {
+	for s.watcher.Load() == w {
 		select {
 		case <-ctx.Done():
 			return
 
 		case event, ok = <-w.Events:
 			if !ok {
-				cb(nil, errors.New("fsnotify watch channel closed"))
+				if s.watcher.Load() == w { // not by Close
+					cb(nil, errors.New("fsnotify watch channel closed"))
+				}
 				break loop
 			}
 
@@ -188,7 +201,7 @@ loop:
 
 			// Since the event is triggered on a directory, is this
 			// one on the file being watched?
-			if evFile != realPath && evFile != s.file {
+			if evFile != realPath && evFile != filepath.Clean(s.file) {
 				continue
 			}
 
@@ -219,7 +232,9 @@ loop:
 		// There's an error.
 		case err, ok = <-w.Errors:
 			if !ok {
-				cb(nil, errors.New("fsnotify err channel closed"))
+				if s.watcher.Load() == w { // not by Close
+					cb(nil, errors.New("fsnotify err channel closed"))
+				}
 				break loop
 			}
 
@@ -228,6 +243,4 @@ loop:
 			break loop
 		}
 	}
-
-	w.Close()
 }
-- 
2.43.0

