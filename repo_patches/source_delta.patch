From d34417b1d8bf9d77fba78c323001248eef063345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 01/61] fix: return errors instead of panicking on malformed
 documents

Truncated or malformed JSON made leaveValue, skipValue, matchLoop and
matchObjectOrArray panic, and errors raised below the top level were dropped.
---
 fastMatcher.go | 72 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 6ab677f..bb8d8b7 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -3,9 +3,19 @@
 package gojsonsm
 
 import (
+	"errors"
 	"fmt"
 )
 
+var errUnexpectedEnd = errors.New("unexpected end of JSON input")
+
+func unexpectedTokenError(expected string, token tokenType) error {
+	if token == tknEnd {
+		return errUnexpectedEnd
+	}
+	return fmt.Errorf("malformed JSON: expected %s, got %s", expected, tokenToText(token))
+}
+
 type slotData struct {
 	start int
 	size  int
@@ -62,7 +72,7 @@ func (m *FastMatcher) leaveValue() error {
 			}
 			depth--
 		case tknEnd:
-			panic("unexpected EOF")
+			return errUnexpectedEnd
 		}
 	}
 }
@@ -88,7 +98,7 @@ func (m *FastMatcher) skipValue(token tokenType) error {
 	case tknArrayStart:
 		return m.leaveValue()
 	}
-	panic(fmt.Sprintf("unexpected value: %v", token))
+	return unexpectedTokenError("a value", token)
 }
 
 func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
@@ -400,8 +410,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 	if m.buckets.IsResolved(loopBucketIdx) {
 		// If the bucket for this op is already resolved  in the binary tree,
 		// we don't need to perform the op and can just skip it.
-		m.skipValue(token)
-		return nil
+		return m.skipValue(token)
 	}
 
 	// We need to keep track of the overall loop result value while the bin tree
@@ -436,7 +445,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				break
 			}
 			if token != tknListDelim {
-				panic(fmt.Sprintf("expected array element delimiter got %s", tokenToText(token)))
+				return unexpectedTokenError("array element delimiter", token)
 			}
 		}
 
@@ -466,7 +475,9 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = true
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				if err := m.leaveValue(); err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeEvery {
@@ -476,7 +487,9 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				if err := m.leaveValue(); err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeAnyEvery {
@@ -486,7 +499,9 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				if err := m.leaveValue(); err != nil {
+					return err
+				}
 				break
 			} else {
 				// If we encounter a truthy value, we have satisfied the 'any'
@@ -529,6 +544,9 @@ func (m *FastMatcher) matchAfter(node *AfterNode) error {
 
 			m.tokens.Seek(slotInfo.start)
 			token, tokenData, _, err := m.tokens.Step()
+			if err != nil {
+				return err
+			}
 
 			// run the loop matcher
 			err = m.matchLoop(token, tokenData, &loop)
@@ -595,11 +613,16 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		objStartPos := m.tokens.Position() - 1 /* to include the objStart itself*/
 		if len(node.Elems) == 0 {
 			// If we have no element handlers, we can just skip the whole thing...
-			m.skipValue(token)
+			if err := m.skipValue(token); err != nil {
+				return err
+			}
 		} else {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
 			if err == nil && node.After != nil {
-				m.matchAfter(node.After)
+				err = m.matchAfter(node.After)
+				if err != nil {
+					return err
+				}
 			}
 
 			if shouldReturn {
@@ -677,11 +700,13 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 			}
 		}
 	} else {
-		panic(fmt.Sprintf("invalid token read - tokenType: %v data: %v", token, string(tokenData)))
+		return unexpectedTokenError("a value", token)
 	}
 
 	if node.After != nil {
-		m.matchAfter(node.After)
+		if err := m.matchAfter(node.After); err != nil {
+			return err
+		}
 
 		if m.buckets.IsResolved(0) {
 			return nil
@@ -726,17 +751,12 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			}
 
 			switch token {
-			case tknObjectEnd:
+			case endToken:
 				return nil, false
-			case tknArrayEnd:
-				return nil, false
-			case tknEnd:
-				return nil, true
 			case tknListDelim:
 				arrayIndex++
-			// nothing
 			default:
-				panic(fmt.Sprintf("expected object field element delimiter, received: %v", token))
+				return unexpectedTokenError("element delimiter", token), true
 			}
 		}
 
@@ -765,7 +785,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		default:
 			// If it's an array, it's possible that we're grabbing a literal like int or float, and we should not panic
 			if !arrayMode {
-				panic(fmt.Sprintf("expected literal, received: %v", token))
+				return unexpectedTokenError("object key", token), true
 			}
 		}
 
@@ -779,7 +799,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			}
 
 			if token != tknObjectKeyDelim {
-				panic(fmt.Sprintf("expected object key delimiter: got %v, %v", token, string(tokenData)))
+				return unexpectedTokenError("object key delimiter", token), true
 			}
 
 			token, tokenData, tokenDataLen, err = m.tokens.Step()
@@ -792,7 +812,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		if keyElem, ok := node.Elems[keyString]; ok {
 			// Run the execution node that applies to this particular
 			// key of the object.
-			m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			err = m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			if err != nil {
+				return err, true
+			}
 
 			// Check if running this keys execution has resolved the entirety
 			// of the expression, if so we can leave immediately.
@@ -802,7 +825,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		} else {
 			// If we don't have any parse requirements for this key in
 			// the object, we can just skip its value and continue
-			m.skipValue(token)
+			err = m.skipValue(token)
+			if err != nil {
+				return err, true
+			}
 		}
 	}
 	return nil, false
-- 
2.43.0


From a37d26d8adb10d9d8107ae191da8f9e0b73fe47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 02/61] fix: run the ops of a node holding an empty array or
 object

EXISTS, comparisons and field slots on {} and [] were skipped because the
scan of the empty container told its caller to return.
---
 fastMatcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index bb8d8b7..dc85694 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -767,7 +767,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 
 		// Keep this here to catch any empty array or empty objs
 		if token == endToken {
-			return nil, true
+			return nil, false
 		}
 
 		// TODO(brett19): These byte-string conversion pieces are a bit wierd
-- 
2.43.0


From 8fbff5e73f7a989204ae7b1b68880bb19e30ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 03/61] fix: clear the collation status when a matcher is reset

---
 fastMatcher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index dc85694..2cf91d6 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -44,6 +44,7 @@ func (m *FastMatcher) Reset() {
 		m.slots[i] = emptySlotData
 	}
 	m.buckets.Reset()
+	m.collateUsed = false
 }
 
 func (m *FastMatcher) leaveValue() error {
-- 
2.43.0


From df1cbecd40e701dad40f10633eb64c8362878ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 04/61] fix: treat an unset slot as a missing field

An unset slot was read as the value at the start of the document, so that
comparing two missing fields of a scalar document was true.
---
 fastMatcher.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 2cf91d6..49f1569 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -105,21 +105,24 @@ func (m *FastMatcher) skipValue(token tokenType) error {
 func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
 	value := NewMissingFastVal()
 
+	slotInfo := m.slots[slot-1]
+	if slotInfo.size == 0 {
+		// Nothing was stored for this slot, the field is missing
+		return value
+	}
+
 	savePos := m.tokens.Position()
 
-	slotInfo := m.slots[slot-1]
 	m.tokens.Seek(slotInfo.start)
 	token, tokenData, _, _ := m.tokens.Step()
 
 	if isLiteralToken(token) {
 		var parser fastLitParser
 		value = parser.Parse(token, tokenData)
-	} else if slotInfo.size > 0 {
-		if token == tknObjectStart {
-			value = NewObjectFastVal(m.tokens.data[slotInfo.start : slotInfo.start+slotInfo.size])
-		} else if token == tknArrayStart {
-			value = NewArrayFastVal(m.tokens.data[slotInfo.start : slotInfo.start+slotInfo.size])
-		}
+	} else if token == tknObjectStart {
+		value = NewObjectFastVal(m.tokens.data[slotInfo.start : slotInfo.start+slotInfo.size])
+	} else if token == tknArrayStart {
+		value = NewArrayFastVal(m.tokens.data[slotInfo.start : slotInfo.start+slotInfo.size])
 	}
 
 	m.tokens.Seek(savePos)
@@ -542,6 +545,10 @@ func (m *FastMatcher) matchAfter(node *AfterNode) error {
 	for _, loop := range node.Loops {
 		if slot, ok := loop.Target.(SlotRef); ok {
 			slotInfo := m.slots[slot.Slot-1]
+			if slotInfo.size == 0 {
+				// The loop target is missing, so there is nothing to loop over
+				continue
+			}
 
 			m.tokens.Seek(slotInfo.start)
 			token, tokenData, _, err := m.tokens.Step()
-- 
2.43.0


From 7a3d0e8350031c61447d0b413dd3d8d6a0c7a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:34 +0000
Subject: [PATCH 05/61] fix: do not leak stored fields from one loop iteration
 into the next

A field missing from an array element kept the value stored for the
previous element.
---
 fastMatcher.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 49f1569..740048f 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -47,6 +47,25 @@ func (m *FastMatcher) Reset() {
 	m.collateUsed = false
 }
 
+// clearSlots forgets the values stored for a node and everything below it, so that
+// the values seen by one loop iteration are not visible to the next one.
+func (m *FastMatcher) clearSlots(node *ExecNode) {
+	if node.StoreId > 0 {
+		m.slots[node.StoreId-1] = emptySlotData
+	}
+	for _, elem := range node.Elems {
+		m.clearSlots(elem)
+	}
+	for i := range node.Loops {
+		m.clearSlots(node.Loops[i].Node)
+	}
+	if node.After != nil {
+		for i := range node.After.Loops {
+			m.clearSlots(node.After.Loops[i].Node)
+		}
+	}
+}
+
 func (m *FastMatcher) leaveValue() error {
 	depth := 0
 
@@ -464,6 +483,9 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 		// Reset the looping node in the binary tree so that previous iterations
 		// of the loop do not impact the results of this iteration
 		m.buckets.ResetNode(loopBucketIdx)
+		if len(m.slots) > 0 {
+			m.clearSlots(loop.Node)
+		}
 
 		// Run the execution node for this element of the array.
 		err = m.matchExec(token, tokenData, tokenDataLen, loop.Node)
-- 
2.43.0


From feb17659e3a9094d915805fd373fb8bd5f877b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 06/61] fix: evaluate array indexes of an array that is also
 looped over

---
 fastMatcher.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 740048f..35a4b40 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -715,6 +715,14 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 				}
 			}
 
+			if len(node.Elems) > 0 {
+				// Individual elements of the array are referenced as well
+				m.tokens.Seek(savePos)
+				err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
+				if shouldReturn {
+					return err
+				}
+			}
 		}
 		arrayEndPos := m.tokens.Position()
 
-- 
2.43.0


From 83949e59a8ccf163fb96a34a9cec2ee605d09005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 07/61] fix: resolve loop bodies per element and unrun loops as
 false

A body containing NOT was left unresolved when the element lacked the field,
and a loop whose target is missing or no array took the value its body has
with every leaf false.
---
 bintree.go     | 32 ++++++++++++++++++++------------
 fastMatcher.go |  3 +++
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/bintree.go b/bintree.go
index eee2bcd..5632997 100644
--- a/bintree.go
+++ b/bintree.go
@@ -251,25 +251,33 @@ func (state *binTreeState) SetStallIndex(index int) int {
 }
 
 // Resolve forces the tree to be fully resolved (including cases such as NOT)
-// by doing a depth-first resolution of all unresolved nodes with `false`.
+// by resolving all unresolved nodes with `false`.
 func (state *binTreeState) Resolve() {
 	// Skip resolving if the full tree is already resolved
 	if state.IsResolved(0) {
 		return
 	}
 
-	// Do depth-first resolution of the entire tree state
-	treeLength := len(state.data)
-	for i := treeLength - 1; i >= 0; i-- {
-		// If this bucket is not resolved, resolve it with false
-		if state.data[i] == binTreeStateUnknown {
-			state.MarkNode(i, false)
-		}
+	state.ResolveNode(0)
+}
 
-		// Leave as soon as the root has been resolved
-		if state.data[0] != binTreeStateUnknown {
-			break
-		}
+// ResolveNode forces the specified node to be resolved by resolving all of the
+// unresolved leafs below it with `false`.  A loop that was not resolved did not
+// run, so it is `false` itself, whatever its body is.
+func (state *binTreeState) ResolveNode(index int) {
+	if state.data[index] != binTreeStateUnknown {
+		return
+	}
+
+	defNode := state.tree.data[index]
+	if defNode.NodeType == nodeTypeLeaf || defNode.NodeType == nodeTypeLoop {
+		state.MarkNode(index, false)
+		return
+	}
+
+	state.ResolveNode(defNode.Left)
+	if binTreeNodeTypeHasRight(defNode.NodeType) && state.data[index] == binTreeStateUnknown {
+		state.ResolveNode(defNode.Right)
 	}
 }
 
diff --git a/fastMatcher.go b/fastMatcher.go
index 35a4b40..21a9c11 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -493,6 +493,9 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 			return err
 		}
 
+		// Anything this element did not resolve is false for this iteration
+		m.buckets.ResolveNode(loopBucketIdx)
+
 		iterationMatched := m.buckets.IsTrue(loopBucketIdx)
 		if loop.Mode == LoopTypeAny {
 			if iterationMatched {
-- 
2.43.0


From e141eaeeae862fb2d8809bf35e316069545f2f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:41 +0000
Subject: [PATCH 08/61] fix: look up outer loop variables from inside a nested
 loop

---
 transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index b3fb9e7..64ce1ab 100644
--- a/transform.go
+++ b/transform.go
@@ -155,7 +155,7 @@ func (t *Transformer) getContext(varID VariableID) *compileContext {
 		return nil
 	}
 
-	for i := len(t.ContextStack) - 1; i >= 0; i++ {
+	for i := len(t.ContextStack) - 1; i >= 0; i-- {
 		if t.ContextStack[i].Var == varID {
 			return t.ContextStack[i]
 		}
-- 
2.43.0


From c667f54a870de0bf100387f7c6438e28080c2d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 09/61] fix: support comparing a field with one of its own
 sub-fields

Such an expression panicked at compile time, and the outer field was not
stored yet when the comparison ran.
---
 fastMatcher.go | 28 +++++++++-------------------
 transform.go   |  2 +-
 2 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 21a9c11..0bb26c3 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -651,20 +651,9 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 			}
 		} else {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
-			if err == nil && node.After != nil {
-				err = m.matchAfter(node.After)
-				if err != nil {
-					return err
-				}
-			}
-
 			if shouldReturn {
 				return err
 			}
-
-			if m.buckets.IsResolved(0) {
-				return nil
-			}
 		}
 		objEndPos := m.tokens.Position()
 
@@ -744,6 +733,15 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		return unexpectedTokenError("a value", token)
 	}
 
+	// The after-ops may refer to this very node, so store it first.
+	endPos = m.tokens.Position()
+
+	if node.StoreId > 0 {
+		slotData := &m.slots[node.StoreId-1]
+		slotData.start = startPos
+		slotData.size = endPos - startPos
+	}
+
 	if node.After != nil {
 		if err := m.matchAfter(node.After); err != nil {
 			return err
@@ -754,14 +752,6 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		}
 	}
 
-	endPos = m.tokens.Position()
-
-	if node.StoreId > 0 {
-		slotData := &m.slots[node.StoreId-1]
-		slotData.start = startPos
-		slotData.size = endPos - startPos
-	}
-
 	return nil
 }
 
diff --git a/transform.go b/transform.go
index 64ce1ab..1f1037b 100644
--- a/transform.go
+++ b/transform.go
@@ -205,7 +205,7 @@ PathLoop:
 	for j := 0; j < len(basePath); j++ {
 		for i := 0; i < len(contextFields); i++ {
 			deepField := contextFields[i]
-			if len(deepField.Path) < j || deepField.Path[j] != basePath[j] {
+			if len(deepField.Path) <= j || deepField.Path[j] != basePath[j] {
 				break PathLoop
 			}
 		}
-- 
2.43.0


From 3088ab8d89479d4d9ce8a6eee9b664207af944b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 10/61] fix: support loops inside loops over unrelated fields
 and bodies using the target

A nested loop over anything but a field of the innermost loop variable panicked
at compile time; a body referring to the looped field itself saw it as missing.
---
 transform.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index 1f1037b..37deb0e 100644
--- a/transform.go
+++ b/transform.go
@@ -279,6 +279,33 @@ func (t *Transformer) pickBaseNode(expr Expression) nodeRef {
 	}
 }
 
+// pickLoopNode picks the node a loop has to be attached to.  A loop can only run while
+// its target is being scanned if the target is the base node itself, and if its body does
+// not need the target as a whole, otherwise it has to run after the base node.
+func (t *Transformer) pickLoopNode(expr Expression, inExpr, subExpr Expression) nodeRef {
+	baseNode := t.pickBaseNode(expr)
+
+	inField, ok := inExpr.(FieldExpr)
+	if !ok || baseNode.node == nil {
+		return baseNode
+	}
+
+	runsAfter := t.getExecNode(t.resolveRef(inField)) != baseNode.node
+	for _, fieldRef := range fetchExprFieldRefs(subExpr) {
+		if fieldExprMatches(fieldRef, inField) {
+			runsAfter = true
+		}
+	}
+	if !runsAfter {
+		return baseNode
+	}
+
+	return nodeRef{
+		node:  nil,
+		after: t.getAfterNode(baseNode.node),
+	}
+}
+
 func (t *Transformer) makeDataRefRecurse(expr Expression, context nodeRef, isRoot bool) (DataRef, error) {
 	switch expr := expr.(type) {
 	case FieldExpr:
@@ -420,7 +447,7 @@ func (t *Transformer) transformAnd(expr AndExpr) *ExecNode {
 }
 
 func (t *Transformer) transformLoop(expr Expression, loopType LoopType, varID VariableID, inExpr, subExpr Expression) *ExecNode {
-	baseNode := t.pickBaseNode(expr)
+	baseNode := t.pickLoopNode(expr, inExpr, subExpr)
 
 	newNode := &ExecNode{}
 
-- 
2.43.0


From aa25aec7e4652c732ab56c2a9d1f0213ae45058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 11/61] fix: compile constants below the top level and IS
 MISSING inside loops

Nested TRUE and FALSE never resolved to anything, so a OR TRUE was false when a
was, and loops whose body contains a constant or IS MISSING panicked.
---
 expression_utils.go | 4 ++++
 transform.go        | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/expression_utils.go b/expression_utils.go
index 2a911c6..ccb7956 100644
--- a/expression_utils.go
+++ b/expression_utils.go
@@ -43,6 +43,8 @@ func fetchExprFieldRefsRecurse(expr Expression, loopVars []VariableID, fields []
 		}
 
 		fields = append(fields, expr)
+	case TrueExpr:
+	case FalseExpr:
 	case ValueExpr:
 	case RegexExpr:
 	case PcreExpr:
@@ -96,6 +98,8 @@ func fetchExprFieldRefsRecurse(expr Expression, loopVars []VariableID, fields []
 		fields = fetchExprFieldRefsRecurse(expr.Rhs, loopVars, fields)
 	case ExistsExpr:
 		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
+	case NotExistsExpr:
+		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
 	case LikeExpr:
 		fields = fetchExprFieldRefsRecurse(expr.Lhs, loopVars, fields)
 		fields = fetchExprFieldRefsRecurse(expr.Rhs, loopVars, fields)
diff --git a/transform.go b/transform.go
index 37deb0e..5a5ecb3 100644
--- a/transform.go
+++ b/transform.go
@@ -541,6 +541,10 @@ func (t *Transformer) transformComparison(expr Expression, op OpType, lhs, rhs E
 	return nil
 }
 
+func (t *Transformer) transformConstant(value bool) *ExecNode {
+	return t.transformOne(EqualsExpr{ValueExpr{value}, ValueExpr{true}})
+}
+
 func (t *Transformer) transformEquals(expr EqualsExpr) *ExecNode {
 	return t.transformComparison(expr, OpTypeEquals, expr.Lhs, expr.Rhs)
 }
@@ -571,6 +575,10 @@ func (t *Transformer) transformLike(expr LikeExpr) *ExecNode {
 
 func (t *Transformer) transformOne(expr Expression) *ExecNode {
 	switch expr := expr.(type) {
+	case TrueExpr:
+		return t.transformConstant(true)
+	case FalseExpr:
+		return t.transformConstant(false)
 	case mergeExpr:
 		return t.transformMerge(expr)
 	case AnyInExpr:
-- 
2.43.0


From ef5b351f2827b1eb25a2926011d859c374be062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 12/61] fix: support constant expressions at the top level

Matching a definition of constants only dereferenced a nil parse node, a
constant among other expressions was ignored, and asking for its result
indexed the bucket tree with a negative number.
---
 fastMatcher.go    | 28 ++++++++++++++++++++++++----
 fastMatcherDef.go |  5 +++++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 0bb26c3..21e9140 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -29,13 +29,22 @@ type FastMatcher struct {
 	buckets     *binTreeState
 	tokens      jsonTokenizer
 	collateUsed bool
+	alwaysTrue  bool
 }
 
 func NewFastMatcher(def *MatchDef) *FastMatcher {
+	alwaysTrue := false
+	for _, bucketIdx := range def.MatchBuckets {
+		if bucketIdx == AlwaysTrueIdent {
+			alwaysTrue = true
+		}
+	}
+
 	return &FastMatcher{
-		def:     *def,
-		slots:   make([]slotData, def.NumSlots),
-		buckets: def.MatchTree.NewState(),
+		def:        *def,
+		slots:      make([]slotData, def.NumSlots),
+		buckets:    def.MatchTree.NewState(),
+		alwaysTrue: alwaysTrue,
 	}
 }
 
@@ -872,6 +881,11 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 		return false, nil
 	}
 
+	if m.def.ParseNode == nil {
+		// There are only constant expressions
+		return m.alwaysTrue, nil
+	}
+
 	token, tokenData, tokenDataLen, err := m.tokens.Step()
 	if err != nil {
 		return false, err
@@ -886,7 +900,7 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 	// operators such as NOT and NEOR to correctly be resolved.
 	m.buckets.Resolve()
 
-	return m.buckets.IsTrue(0), nil
+	return m.alwaysTrue || m.buckets.IsTrue(0), nil
 }
 
 func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
@@ -900,6 +914,12 @@ func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
 
 func (m *FastMatcher) ExpressionMatched(expressionIdx int) bool {
 	binTreeIdx := m.def.MatchBuckets[expressionIdx]
+	switch binTreeIdx {
+	case AlwaysTrueIdent:
+		return true
+	case AlwaysFalseIdent:
+		return false
+	}
 	return m.buckets.IsResolved(binTreeIdx) &&
 		m.buckets.IsTrue(binTreeIdx)
 }
diff --git a/fastMatcherDef.go b/fastMatcherDef.go
index 24178f4..69a87e9 100644
--- a/fastMatcherDef.go
+++ b/fastMatcherDef.go
@@ -169,6 +169,11 @@ type MatchDef struct {
 }
 
 func (def MatchDef) String() string {
+	if def.ParseNode == nil {
+		// There are only constant expressions
+		return fmt.Sprintf("match buckets: %v", def.MatchBuckets)
+	}
+
 	var out string
 	out += "match tree:\n"
 	out += "  $doc:\n"
-- 
2.43.0


From 3359f23466d4be5be9614d355be1d6dc8a20c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 13/61] fix: do not let document integers beyond 64 bits wrap
 around

18446744073709551626 was read as 10.
---
 fastlitparse.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/fastlitparse.go b/fastlitparse.go
index 7f6ce30..6e708d0 100644
--- a/fastlitparse.go
+++ b/fastlitparse.go
@@ -42,6 +42,23 @@ func (p *fastLitParser) ParseInt(bytes []byte) int64 {
 	}
 }
 
+// parseInteger parses an integer of any length: as a signed or otherwise an unsigned
+// integer if it fits one of these, and as a floating point number if it does not.
+func (p *fastLitParser) parseInteger(bytes []byte) FastVal {
+	const maxSafeIntLen = 18 // no 18 digit integer overflows an int64
+	if len(bytes) <= maxSafeIntLen {
+		return NewIntFastVal(p.ParseInt(bytes))
+	}
+
+	if intVal, err := strconv.ParseInt(string(bytes), 10, 64); err == nil {
+		return NewIntFastVal(intVal)
+	}
+	if uintVal, err := strconv.ParseUint(string(bytes), 10, 64); err == nil {
+		return NewUintFastVal(uintVal)
+	}
+	return NewFloatFastVal(p.ParseNumber(bytes))
+}
+
 func (p *fastLitParser) ParseNumber(bytes []byte) float64 {
 	val, _ := strconv.ParseFloat(string(bytes), 64)
 	return val
@@ -72,7 +89,7 @@ func (p *fastLitParser) Parse(token tokenType, bytes []byte) FastVal {
 	case tknEscString:
 		return NewBinStringFastVal(p.ParseEscString(bytes))
 	case tknInteger:
-		return NewIntFastVal(p.ParseInt(bytes))
+		return p.parseInteger(bytes)
 	case tknNumber:
 		return NewFloatFastVal(p.ParseNumber(bytes))
 	case tknNull:
-- 
2.43.0


From e720587756151ffd498f3db07697dbd3da89cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 14/61] fix: compare signed with unsigned integers by value

Zero was not convertible to an unsigned integer, an unsigned integer was judged
by its own sign instead of the other operand's, and a negative integer compared
with a large unsigned one wrapped around.
---
 fastval.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/fastval.go b/fastval.go
index 9734acb..442f161 100644
--- a/fastval.go
+++ b/fastval.go
@@ -255,7 +255,7 @@ func (val FastVal) AsUint() (uint64, bool) {
 	switch val.dataType {
 	case IntValue:
 		intVal := val.GetInt()
-		if intVal > 0 {
+		if intVal >= 0 {
 			return uint64(intVal), true
 		} else {
 			return 0, false
@@ -266,7 +266,7 @@ func (val FastVal) AsUint() (uint64, bool) {
 		return uint64(val.GetFloat()), false
 	case JsonIntValue:
 		parsedVal, err := strconv.ParseInt(string(val.sliceData), 10, 64)
-		if err == nil && parsedVal > 0 {
+		if err == nil && parsedVal >= 0 {
 			return uint64(parsedVal), true
 		} else {
 			return 0, false
@@ -281,8 +281,8 @@ func (val FastVal) AsUint() (uint64, bool) {
 		parsedVal, err := strconv.ParseUint(string(val.sliceData), 10, 64)
 		return parsedVal, err == nil
 	case JsonFloatValue:
-		parsedVal, err := strconv.ParseFloat(string(val.sliceData), 64)
-		return uint64(parsedVal), err == nil
+		parsedVal, _ := strconv.ParseFloat(string(val.sliceData), 64)
+		return uint64(parsedVal), false
 	case TrueValue:
 		return 1, true
 	case FalseValue:
@@ -754,12 +754,11 @@ func (val FastVal) compareNumerics(other FastVal) (int, bool) {
 		case UintValue:
 			fallthrough
 		case JsonUintValue:
-			intVal, _ := val.AsInt()
-			if intVal >= 0 {
-				return val.compareUint(other)
-			} else {
-				return val.compareInt(other)
+			if intVal, valid := val.AsInt(); valid && intVal < 0 {
+				// A negative integer is less than any unsigned one
+				return -1, true
 			}
+			return val.compareUint(other)
 		default:
 			return val.compareInt(other)
 		}
@@ -770,12 +769,11 @@ func (val FastVal) compareNumerics(other FastVal) (int, bool) {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
-			intVal, _ := val.AsInt()
-			if intVal >= 0 {
-				return val.compareUint(other)
-			} else {
-				return val.compareInt(other)
+			if intVal, valid := other.AsInt(); valid && intVal < 0 {
+				// An unsigned integer is greater than any negative one
+				return 1, true
 			}
+			return val.compareUint(other)
 		case FloatValue:
 			fallthrough
 		case JsonFloatValue:
-- 
2.43.0


From 868ce98edd3be7d0a3619c507ef8a53cacfff3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 15/61] fix: do not convert numbers to strings in a shared
 buffer

Matchers used by different goroutines raced on a package-level buffer.
---
 fastval.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/fastval.go b/fastval.go
index 442f161..de3ad21 100644
--- a/fastval.go
+++ b/fastval.go
@@ -87,8 +87,6 @@ var FalseValueBytes = []byte(FalseString)
 var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[T|t][R|r][U|u][E|e]$")
 var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[F|f][A|a][L|l][S|s][E|e]$")
 
-var toJsonStringBuffer []byte
-
 type FastVal struct {
 	dataType    ValueType
 	data        interface{}
@@ -139,6 +137,8 @@ func (val FastVal) String() string {
 		return val.GetTime().String()
 	case RegexValue:
 		return "(regexp)" + val.data.(*regexp.Regexp).String()
+	case PcreValue:
+		return "(pcre)"
 	}
 
 	panic(fmt.Sprintf("unexpected data type %v", val.dataType))
@@ -423,26 +423,21 @@ func (val FastVal) ToBinString() (FastVal, error) {
 	return val, errors.New("invalid type coercion")
 }
 
-// The following reuse an internal buffer so this should be hidden from outside callers
-// Internally, this must be called only once per comparison, and should be used for implicit comversion
-// (i.e. no double implicit conversion to string from the following 3 types)
+// Used for implicit conversion of numbers to strings
 func (val FastVal) toJsonStringInternal() (FastVal, error) {
 	val, err := val.ToJsonString()
 
 	if err != nil {
 		switch val.dataType {
 		case UintValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendUint(toJsonStringBuffer, val.GetUint(), 10)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			numBytes := strconv.AppendUint(nil, val.GetUint(), 10)
+			return NewJsonStringFastVal(numBytes), nil
 		case IntValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendInt(toJsonStringBuffer, val.GetInt(), 10)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			numBytes := strconv.AppendInt(nil, val.GetInt(), 10)
+			return NewJsonStringFastVal(numBytes), nil
 		case FloatValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendFloat(toJsonStringBuffer, val.GetFloat(), 'E', -1, 64)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			numBytes := strconv.AppendFloat(nil, val.GetFloat(), 'E', -1, 64)
+			return NewJsonStringFastVal(numBytes), nil
 		}
 	}
 
-- 
2.43.0


From 5d590c14c57c0022cc59ec914547e93de0bf4fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 16/61] fix: compare and match strings by their decoded content

Strings were compared and given to regular expressions in their Go-quoted form,
so that a quote sorted as a backslash and ^.$ did not match it.
---
 fastlitescape.go | 25 +++++++++++++++++++++++++
 fastval.go       | 40 ++++++++++++++++++++++------------------
 2 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/fastlitescape.go b/fastlitescape.go
index a752c17..d993d83 100644
--- a/fastlitescape.go
+++ b/fastlitescape.go
@@ -127,6 +127,31 @@ func unescapeToUTF8(in, out []byte) (inLen int, outLen int) {
 	return -1, -1
 }
 
+// escapeJsonString escapes the characters of 'in' which cannot appear literally in a JSON
+// string.  If there are none, 'in' itself is returned.
+func escapeJsonString(in []byte) []byte {
+	const hexDigits = "0123456789abcdef"
+
+	var out []byte
+	copied := 0
+	for i, c := range in {
+		if c >= 0x20 && c != '"' && c != '\\' {
+			continue
+		}
+		out = append(out, in[copied:i]...)
+		if c < 0x20 {
+			out = append(out, '\\', 'u', '0', '0', hexDigits[c>>4], hexDigits[c&0xf])
+		} else {
+			out = append(out, '\\', c)
+		}
+		copied = i + 1
+	}
+	if copied == 0 {
+		return in
+	}
+	return append(out, in[copied:]...)
+}
+
 // unescape unescapes the string contained in 'in' and returns it as a slice.
 // If 'in' contains no escaped characters:
 //   Returns 'in'.
diff --git a/fastval.go b/fastval.go
index de3ad21..92ac387 100644
--- a/fastval.go
+++ b/fastval.go
@@ -3,12 +3,12 @@
 package gojsonsm
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"math"
 	"regexp"
 	"strconv"
-	"strings"
 	"time"
 	"unsafe"
 )
@@ -416,28 +416,34 @@ func (val FastVal) ToBinString() (FastVal, error) {
 	case BinStringValue:
 		return val, nil
 	case JsonStringValue:
-		// TODO: MUST DO - Unescape!
-		return val, nil
+		if bytes.IndexByte(val.sliceData, '\\') == -1 {
+			return NewBinStringFastVal(val.sliceData), nil
+		}
+		binBytes, err := unescapeJsonString(val.sliceData, nil)
+		if err != nil {
+			return NewBinStringFastVal(val.sliceData), nil
+		}
+		return NewBinStringFastVal(binBytes), nil
 	}
 
 	return val, errors.New("invalid type coercion")
 }
 
-// Used for implicit conversion of numbers to strings
-func (val FastVal) toJsonStringInternal() (FastVal, error) {
-	val, err := val.ToJsonString()
+// Used for comparing strings by their content, including implicit conversion of numbers to strings
+func (val FastVal) toBinStringInternal() (FastVal, error) {
+	val, err := val.ToBinString()
 
 	if err != nil {
 		switch val.dataType {
 		case UintValue:
 			numBytes := strconv.AppendUint(nil, val.GetUint(), 10)
-			return NewJsonStringFastVal(numBytes), nil
+			return NewBinStringFastVal(numBytes), nil
 		case IntValue:
 			numBytes := strconv.AppendInt(nil, val.GetInt(), 10)
-			return NewJsonStringFastVal(numBytes), nil
+			return NewBinStringFastVal(numBytes), nil
 		case FloatValue:
 			numBytes := strconv.AppendFloat(nil, val.GetFloat(), 'E', -1, 64)
-			return NewJsonStringFastVal(numBytes), nil
+			return NewBinStringFastVal(numBytes), nil
 		}
 	}
 
@@ -449,12 +455,10 @@ func (val FastVal) ToJsonString() (FastVal, error) {
 	switch val.dataType {
 	case StringValue:
 		// TODO: Improve AsJsonString allocations
-		quotedBytes := strconv.AppendQuote(nil, val.data.(string))
-		return NewJsonStringFastVal(quotedBytes[1 : len(quotedBytes)-1]), nil
+		return NewJsonStringFastVal(escapeJsonString([]byte(val.data.(string)))), nil
 	case BinStringValue:
 		// TODO: Improve AsJsonString allocaitons
-		quotedBytes := strconv.AppendQuote(nil, string(val.sliceData))
-		return NewJsonStringFastVal(quotedBytes[1 : len(quotedBytes)-1]), nil
+		return NewJsonStringFastVal(escapeJsonString(val.sliceData)), nil
 	case JsonStringValue:
 		return val, nil
 	case TrueValue:
@@ -576,10 +580,10 @@ func (val FastVal) compareBoolean(other FastVal) (int, bool) {
 
 func (val FastVal) compareStrings(other FastVal) (int, bool) {
 	if other.IsString() || other.IsNumeric() {
-		escVal, err := val.toJsonStringInternal()
-		escOval, err1 := other.toJsonStringInternal()
+		strVal, err := val.toBinStringInternal()
+		strOval, err1 := other.toBinStringInternal()
 
-		result := strings.Compare(string(escVal.sliceData), string(escOval.sliceData))
+		result := bytes.Compare(strVal.sliceData, strOval.sliceData)
 		return result, err == nil && err1 == nil
 	} else if other.userDefined {
 		// User defined means that this val should try to implicit convert to the other type
@@ -897,7 +901,7 @@ func (val FastVal) Equals(other FastVal) (bool, bool) {
 }
 
 func (val FastVal) matchStrings(other FastVal) (bool, bool) {
-	escVal, err := val.toJsonStringInternal()
+	binVal, err := val.ToBinString()
 	if err != nil {
 		return false, false
 	}
@@ -906,7 +910,7 @@ func (val FastVal) matchStrings(other FastVal) (bool, bool) {
 	if !valid {
 		return false, valid
 	} else {
-		return regex.Match(escVal.sliceData), true
+		return regex.Match(binVal.sliceData), true
 	}
 }
 
-- 
2.43.0


From 8a13c8215b4870f9dd0cdf0c6839d2bfeb517aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 17/61] fix: convert Go strings to times by their content

---
 fastval.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fastval.go b/fastval.go
index 92ac387..1117778 100644
--- a/fastval.go
+++ b/fastval.go
@@ -401,7 +401,8 @@ func (val FastVal) AsTime() (*time.Time, bool) {
 	case JsonStringValue:
 		fallthrough
 	case BinStringValue:
-		timeFastVal, err := GetNewTimeFastVal(string(val.sliceData))
+		str, _ := val.AsString()
+		timeFastVal, err := GetNewTimeFastVal(str)
 		if err == nil {
 			return timeFastVal.data.(*time.Time), true
 		}
-- 
2.43.0


From 26e1079a3f3f6dd4b2310f4062ba00db3275e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 18/61] fix: only accept time literals that denote an instant

2019-02-31 or 2019/01/01 passed the check of the parsers and then panicked at
compile time.
---
 fastval_date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastval_date.go b/fastval_date.go
index a058fd9..6f80937 100644
--- a/fastval_date.go
+++ b/fastval_date.go
@@ -17,8 +17,8 @@ var iso8601CompleteDate *regexp.Regexp = regexp.MustCompile(`^(19|20)\d\d[- /.](
 var cbSampleDateFormat *regexp.Regexp = regexp.MustCompile(`^((19|20)\d\d[- /.](0[1-9]|1[012])[- /.](0[1-9]|[12][0-9]|3[01])) +(([0-1][0-9]|[2][0-3]):[0-5][0-9]:[0-5][0-9])$`)
 
 func validTimeChecker(s string) bool {
-	_, err := time.Parse(time.RFC3339, s)
-	return err == nil || iso8601Year.MatchString(s) || iso8601YearAndMonth.MatchString(s) || iso8601CompleteDate.MatchString(s)
+	_, err := GetNewTimeFastVal(s)
+	return err == nil
 }
 
 func isoToRfc(str string) string {
-- 
2.43.0


From 402b58ea7357734a9e671211d3503dd55e7d541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 19/61] fix: reject invalid regular expressions and times when
 parsing

Filter and JSON expressions with an invalid pattern or an ill-typed regex or
time operand were accepted and panicked at compile time.
---
 expression_json.go  | 13 ++++++++-----
 expression_utils.go | 13 ++++++++++++-
 filterExprParser.go |  2 +-
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/expression_json.go b/expression_json.go
index 36ca66e..053f679 100644
--- a/expression_json.go
+++ b/expression_json.go
@@ -277,17 +277,20 @@ func parseJsonLike(data []interface{}) (Expression, error) {
 }
 
 func parseJsonRegex(data []interface{}) (Expression, error) {
-	return RegexExpr{
-		data[1],
-	}, nil
+	pattern, ok := data[1].(string)
+	if !ok {
+		return nil, errors.New("invalid regex expression format")
+	}
+	return newRegexExpr(pattern)
 }
 
 func parseJsonTime(data []interface{}) (Expression, error) {
-	if dateStr, ok := data[1].(string); ok && !validTimeChecker(dateStr) {
+	dateStr, ok := data[1].(string)
+	if !ok || !validTimeChecker(dateStr) {
 		return nil, ErrorInvalidTimeFormat
 	}
 	return TimeExpr{
-		data[1],
+		dateStr,
 	}, nil
 }
 
diff --git a/expression_utils.go b/expression_utils.go
index ccb7956..d82a6b4 100644
--- a/expression_utils.go
+++ b/expression_utils.go
@@ -1,6 +1,17 @@
 package gojsonsm
 
-import "fmt"
+import (
+	"fmt"
+	"regexp"
+)
+
+// newRegexExpr makes a regex expression after checking that the pattern is valid.
+func newRegexExpr(pattern string) (Expression, error) {
+	if _, err := regexp.Compile(pattern); err != nil {
+		return nil, fmt.Errorf("invalid regular expression: %v", err)
+	}
+	return RegexExpr{pattern}, nil
+}
 
 func fieldExprMatches(lhs FieldExpr, rhs FieldExpr) bool {
 	if lhs.Root != rhs.Root {
diff --git a/filterExprParser.go b/filterExprParser.go
index 0ae5962..69dca3d 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -1187,7 +1187,7 @@ func (f *FEConstFuncArgumentRHS) OutputRegexExpression() (Expression, error) {
 	if tokenIsPcreValueType(f.Argument.String()) {
 		return MakePcreExpression(f.Argument.String())
 	} else {
-		return RegexExpr{f.Argument.String()}, nil
+		return newRegexExpr(f.Argument.String())
 	}
 }
 
-- 
2.43.0


From f808051ec12b02e873def3e09d3a1fd93f60ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 20/61] fix: reject malformed JSON expressions instead of
 panicking

Missing operands, ill-typed function parameters, unknown functions, conditions
used as operands and unbound loop variables panicked in the parser, at compile
time or at match time.
---
 expression_json.go  | 72 ++++++++++++++++++++++++++++++++++++++++-----
 expression_utils.go |  9 ++++++
 2 files changed, 73 insertions(+), 8 deletions(-)

diff --git a/expression_json.go b/expression_json.go
index 053f679..794374c 100644
--- a/expression_json.go
+++ b/expression_json.go
@@ -18,6 +18,9 @@ func parseJsonField(data []interface{}) (Expression, error) {
 	pos := 1
 	if dataRoot, ok := data[pos].(float64); ok {
 		out.Root = VariableID(dataRoot)
+		if float64(out.Root) != dataRoot {
+			return nil, errors.New("invalid field expression root")
+		}
 		pos++
 	}
 	for ; pos < len(data); pos++ {
@@ -39,8 +42,12 @@ func parseJsonFunc(data []interface{}) (Expression, error) {
 		pos++
 	}
 	for ; pos < len(data); pos++ {
-		paramData := data[pos].([]interface{})
-		param, err := parseJsonSubexpr(paramData)
+		paramData, ok := data[pos].([]interface{})
+		if !ok {
+			return nil, errors.New("invalid func expression parameter format")
+		}
+
+		param, err := parseJsonParam(paramData)
 		if err != nil {
 			return nil, err
 		}
@@ -48,6 +55,10 @@ func parseJsonFunc(data []interface{}) (Expression, error) {
 		out.Params = append(out.Params, param)
 	}
 
+	if numParams, ok := funcNumParams[out.FuncName]; !ok || numParams != len(out.Params) {
+		return nil, errors.New("invalid func expression name or number of parameters")
+	}
+
 	return out, nil
 }
 
@@ -57,7 +68,7 @@ func parseJsonExists(data []interface{}) (Expression, error) {
 		return nil, errors.New("invalid exists expression subexpr format")
 	}
 
-	subExpr, err := parseJsonSubexpr(subExprData)
+	subExpr, err := parseJsonParam(subExprData)
 	if err != nil {
 		return nil, err
 	}
@@ -71,7 +82,7 @@ func parseJsonNotExists(data []interface{}) (Expression, error) {
 		return nil, errors.New("invalid notexists expression subexpr format")
 	}
 
-	subExpr, err := parseJsonSubexpr(subExprData)
+	subExpr, err := parseJsonParam(subExprData)
 	if err != nil {
 		return nil, err
 	}
@@ -90,12 +101,12 @@ func parseJsonComparison(data []interface{}) (Expression, Expression, error) {
 		return nil, nil, errors.New("invalid comparison expression rhs format")
 	}
 
-	lhs, err := parseJsonSubexpr(lhsData)
+	lhs, err := parseJsonParam(lhsData)
 	if err != nil {
 		return nil, nil, err
 	}
 
-	rhs, err := parseJsonSubexpr(rhsData)
+	rhs, err := parseJsonParam(rhsData)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -213,7 +224,7 @@ func parseJsonAnd(data []interface{}) (Expression, error) {
 
 func parseJsonLoop(data []interface{}) (VariableID, Expression, Expression, error) {
 	varId, ok := data[1].(float64)
-	if !ok {
+	if !ok || varId < 1 || float64(VariableID(varId)) != varId {
 		return 0, nil, nil, errors.New("invalid anyin expression variable format")
 	}
 
@@ -232,6 +243,10 @@ func parseJsonLoop(data []interface{}) (VariableID, Expression, Expression, erro
 		return 0, nil, nil, err
 	}
 
+	if _, ok := lhsExpr.(FieldExpr); !ok {
+		return 0, nil, nil, errors.New("invalid anyin expression lhs")
+	}
+
 	subexprExpr, err := parseJsonSubexpr(subexprData)
 	if err != nil {
 		return 0, nil, nil, err
@@ -294,13 +309,44 @@ func parseJsonTime(data []interface{}) (Expression, error) {
 	}, nil
 }
 
+// parseJsonParam parses the operand of a comparison or a function, which must be a value
+func parseJsonParam(data []interface{}) (Expression, error) {
+	expr, err := parseJsonSubexpr(data)
+	if err != nil {
+		return nil, err
+	}
+
+	switch expr.(type) {
+	case ValueExpr, FieldExpr, FuncExpr, RegexExpr, TimeExpr:
+		return expr, nil
+	}
+
+	return nil, errors.New("invalid operand format")
+}
+
+// The number of operands an expression type needs at least
+var jsonExprMinOperands = map[string]int{
+	"value": 1, "field": 1, "func": 1, "not": 1, "or": 1, "and": 1,
+	"anyin": 3, "everyin": 3, "anyeveryin": 3, "exists": 1, "notexists": 1,
+	"equals": 2, "notequals": 2, "lessthan": 2, "lessequals": 2,
+	"greaterthan": 2, "greaterequals": 2, "like": 2, "regex": 1, "time": 1,
+}
+
 func parseJsonSubexpr(data []interface{}) (Expression, error) {
+	if len(data) == 0 {
+		return nil, errors.New("invalid expression format")
+	}
+
 	exprType, ok := data[0].(string)
 	if !ok {
 
 		return nil, errors.New("invalid expression type format")
 	}
 
+	if len(data)-1 < jsonExprMinOperands[exprType] {
+		return nil, errors.New("missing expression operands")
+	}
+
 	switch exprType {
 	case "value":
 		return parseJsonValue(data)
@@ -353,5 +399,15 @@ func ParseJsonExpression(data []byte) (Expression, error) {
 	if err != nil {
 		return nil, err
 	}
-	return parseJsonSubexpr(parsedData)
+	expr, err := parseJsonSubexpr(parsedData)
+	if err != nil {
+		return nil, err
+	}
+
+	for _, fieldRef := range fetchExprFieldRefs(expr) {
+		if fieldRef.Root != 0 {
+			return nil, errors.New("reference to a variable outside of its loop")
+		}
+	}
+	return expr, nil
 }
diff --git a/expression_utils.go b/expression_utils.go
index d82a6b4..e5541dd 100644
--- a/expression_utils.go
+++ b/expression_utils.go
@@ -13,6 +13,15 @@ func newRegexExpr(pattern string) (Expression, error) {
 	return RegexExpr{pattern}, nil
 }
 
+// The functions which can be evaluated, and their number of parameters
+var funcNumParams = map[string]int{
+	DateFunc: 1, MathFuncAbs: 1, MathFuncAcos: 1, MathFuncAsin: 1, MathFuncAtan: 1, MathFuncAtan2: 2,
+	MathFuncCeil: 1, MathFuncCos: 1, MathFuncDegrees: 1, MathFuncExp: 1, MathFuncFloor: 1, MathFuncLog: 1,
+	MathFuncLn: 1, MathFuncPow: 2, MathFuncRadians: 1, MathFuncRound: 1, MathFuncSin: 1, MathFuncSqrt: 1,
+	MathFuncTan: 1, MathFuncAdd: 2, MathFuncSub: 2, MathFuncMul: 2, MathFuncDiv: 2, MathFuncMod: 2,
+	MathFuncNeg: 1,
+}
+
 func fieldExprMatches(lhs FieldExpr, rhs FieldExpr) bool {
 	if lhs.Root != rhs.Root {
 		return false
-- 
2.43.0


From 204987bd7d9cf1e70ee4202a5777348328f2ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 21/61] fix: integer division and modulo by zero are invalid,
 not a crash

---
 fastval_math.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/fastval_math.go b/fastval_math.go
index 0b7ef9a..0fb5d65 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -462,7 +462,9 @@ func FastValMathDiv(val, val1 FastVal) FastVal {
 			fallthrough
 		case JsonUintValue:
 			uint1Check, valid1 := val1.AsUint()
-			if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
+			if valid1 && uint1Check == 0 {
+				return NewInvalidFastVal()
+			} else if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
 				// Cannot convert to int type
 				return genericFastVal2FloatsOp(val, val1, fastValMathDiv)
 			} else {
@@ -475,6 +477,10 @@ func FastValMathDiv(val, val1 FastVal) FastVal {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
+			int1Check, valid1 := val1.AsInt()
+			if !valid1 || int1Check == 0 {
+				return NewInvalidFastVal()
+			}
 			return genericFastVal2IntsOp(val, val1, fastValMathDivInt)
 		case FloatValue:
 			fallthrough
@@ -532,8 +538,8 @@ func FastValMathMod(val, val1 FastVal) FastVal {
 			fallthrough
 		case JsonUintValue:
 			uint1Check, valid1 := val1.AsUint()
-			if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
-				// Cannot convert to int type
+			if !valid1 || uint1Check == 0 || intCheck < 0 && uint1Check > math.MaxInt64 {
+				// Cannot convert to int type, or division by zero
 				return NewInvalidFastVal()
 			} else {
 				if intCheck >= 0 {
@@ -545,6 +551,10 @@ func FastValMathMod(val, val1 FastVal) FastVal {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
+			int1Check, valid1 := val1.AsInt()
+			if !valid1 || int1Check == 0 {
+				return NewInvalidFastVal()
+			}
 			return genericFastVal2IntsOp(val, val1, fastValMathMod)
 		default:
 			return NewInvalidFastVal()
-- 
2.43.0


From 7e31bbdc51e44cad6227c2dcbeb60f98d087b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 22/61] fix: ABS and ROUND of large numbers

ABS went through a float and lost the low digits of large integers; ROUND went
through an int and overflowed.
---
 fastval_math.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/fastval_math.go b/fastval_math.go
index 0fb5d65..afd677e 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -4,15 +4,6 @@ import (
 	"math"
 )
 
-// floatRound implements math.Round for Go versions older than
-// 1.10 which did not have the function... Wat?
-func floatMathRound(val float64) float64 {
-	if val < 0 {
-		return float64(int(val - 0.5))
-	}
-	return float64(int(val + 0.5))
-}
-
 var mathDegreeFunc func(float64) float64 = func(rad float64) float64 {
 	return rad * 180 / math.Pi
 }
@@ -27,7 +18,7 @@ func FastValMathRound(val FastVal) FastVal {
 		if !valid {
 			return NewInvalidFastVal()
 		}
-		roundedValue := floatMathRound(originalValue)
+		roundedValue := math.Round(originalValue)
 		return NewFloatFastVal(roundedValue)
 	} else if val.IsInt() || val.IsUInt() {
 		// These values are already rounded, no need for any work
@@ -41,6 +32,16 @@ func FastValMathAbs(val FastVal) FastVal {
 	if val.IsUInt() {
 		// Not gonna do abs on an uint
 		return val
+	} else if val.IsInt() {
+		// Going through a float would lose the precision of large integers
+		intVal, valid := val.AsInt()
+		if !valid || intVal == math.MinInt64 {
+			return NewInvalidFastVal()
+		}
+		if intVal < 0 {
+			intVal = -intVal
+		}
+		return NewIntFastVal(intVal)
 	} else {
 		floatVal, valid := val.AsFloat()
 		if !valid {
@@ -48,8 +49,6 @@ func FastValMathAbs(val FastVal) FastVal {
 		}
 		if val.IsFloat() {
 			return NewFloatFastVal(math.Abs(floatVal))
-		} else if val.IsInt() {
-			return NewIntFastVal(int64(math.Abs(floatVal)))
 		}
 	}
 
-- 
2.43.0


From dec1b21aa5420234e1bb12924314efceb22e684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 23/61] fix: scan the statistics of every expression type

NOT, LIKE, constants, patterns and times panicked.
---
 expressionstats.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/expressionstats.go b/expressionstats.go
index fe2e5a6..c6ffe8f 100644
--- a/expressionstats.go
+++ b/expressionstats.go
@@ -36,10 +36,17 @@ func (stats *ExpressionStats) scanOne(expr Expression, loopDepth int) error {
 		stats.NumFields++
 	case ValueExpr:
 		stats.NumValues++
+	case TrueExpr:
+	case FalseExpr:
+	case RegexExpr:
+	case PcreExpr:
+	case TimeExpr:
 	case FuncExpr:
 		for _, subexpr := range expr.Params {
 			stats.scanOne(subexpr, loopDepth)
 		}
+	case NotExpr:
+		stats.scanOne(expr.SubExpr, loopDepth)
 	case AndExpr:
 		stats.NumAnds++
 		for _, subexpr := range expr {
@@ -93,6 +100,9 @@ func (stats *ExpressionStats) scanOne(expr Expression, loopDepth int) error {
 	case GreaterEqualsExpr:
 		stats.scanOne(expr.Lhs, loopDepth)
 		stats.scanOne(expr.Rhs, loopDepth)
+	case LikeExpr:
+		stats.scanOne(expr.Lhs, loopDepth)
+		stats.scanOne(expr.Rhs, loopDepth)
 	default:
 		panic("unexpected expression type")
 	}
-- 
2.43.0


From 6dc7ab28a5c075930a4329a6a732e3ff207f95e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 24/61] fix: do not compact loops with a constant body to that
 constant

ANY over nothing is false whatever its body is, and EVERY depends on whether
the target is an array and empty.
---
 expression_compact.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/expression_compact.go b/expression_compact.go
index e292482..491eaaf 100644
--- a/expression_compact.go
+++ b/expression_compact.go
@@ -41,19 +41,8 @@ func compactExpressionAnd(expr AndExpr) Expression {
 }
 
 func compactExpressionAnyIn(expr AnyInExpr) Expression {
+	// A true body still needs the target to be an array with at least one element
 	switch expr.SubExpr.(type) {
-	case TrueExpr:
-		return TrueExpr{}
-	case FalseExpr:
-		return FalseExpr{}
-	}
-	return expr
-}
-
-func compactExpressionEveryIn(expr EveryInExpr) Expression {
-	switch expr.SubExpr.(type) {
-	case TrueExpr:
-		return TrueExpr{}
 	case FalseExpr:
 		return FalseExpr{}
 	}
@@ -71,8 +60,6 @@ func CompactExpression(expr Expression) Expression {
 		return compactExpressionAnd(expr)
 	case AnyInExpr:
 		return compactExpressionAnyIn(expr)
-	case EveryInExpr:
-		return compactExpressionEveryIn(expr)
 	default:
 		return expr
 	}
-- 
2.43.0


From 17f5f36cb81f415a59c6f482f09da258d7ccf029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 25/61] fix: report a too small destination instead of
 panicking

---
 jsonComposer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index d517fac..10cd2cd 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -41,10 +41,10 @@ func (composer *jsonObjComposer) Write(data []byte, tknType tokenType) error {
 	if tknType == tknObjectEnd && composer.prevTokenType == tknListDelim {
 		composer.pos--
 	}
-	n := copy(composer.body[composer.pos:composer.pos+len(data)], data)
-	if n != len(data) {
+	if len(data) > len(composer.body)-composer.pos {
 		return ErrInsufficientMemory
 	}
+	copy(composer.body[composer.pos:], data)
 	composer.pos += len(data)
 	composer.prevTokenType = tknType
 	return nil
-- 
2.43.0


From f9f12e51db3fee61c1397f5cdc810f8ecf73892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 26/61] fix: remove items from objects with an array ending in
 a string

---
 jsonComposer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index 10cd2cd..2e5b973 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -130,7 +130,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 					return handleError(err)
 				}
 
-				if tknType2 == tknObjectEnd {
+				if tknType2 == tknObjectEnd || tknType2 == tknArrayEnd {
 					depth--
 					if depth < 0 {
 						return handleError(ErrInvalidJSON)
-- 
2.43.0


From 372658330b1e7d42d71014c71a476aa5e2c15424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 27/61] fix: allow the same key twice in the list of keys to
 remove

---
 jsonComposer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonComposer.go b/jsonComposer.go
index 2e5b973..fc7e82c 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -257,6 +257,9 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 			} else if tknType4 == tknUnknown {
 				return handleError(ErrUnrecognisedToken)
 			}
+
+			// the key and its value are consumed, a repeated entry in "remove" must not match again
+			break
 		}
 
 		if !matched {
-- 
2.43.0


From de671abc554852cf69922d0eb979cb097f0ae8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 28/61] fix: decode unpaired surrogate escapes as the
 replacement character

---
 fastlitescape.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fastlitescape.go b/fastlitescape.go
index d993d83..46f286c 100644
--- a/fastlitescape.go
+++ b/fastlitescape.go
@@ -73,12 +73,15 @@ func decodeUnicodeEscape(in []byte) (rune, int) {
 	} else if r <= basicMultilingualPlaneOffset && !isUTF16EncodedRune(r) {
 		// Valid Unicode escape in Basic Multilingual Plane
 		return r, 6
-	} else if r2, ok := decodeSingleUnicodeEscape(in[6:]); !ok { // Note: previous decodeSingleUnicodeEscape success guarantees at least 6 bytes remain
-		// UTF16 "high surrogate" without manditory valid following Unicode escape for the "low surrogate"
-		return utf8.RuneError, -1
-	} else if r2 < lowSurrogateOffset {
-		// Invalid UTF16 "low surrogate"
+	} else if r >= lowSurrogateOffset || len(in) < 8 || in[6] != '\\' || in[7] != 'u' {
+		// UTF16 surrogate which does not start a pair; like encoding/json, replace it
+		return utf8.RuneError, 6
+	} else if r2, ok := decodeSingleUnicodeEscape(in[6:]); !ok {
+		// Invalid Unicode escape
 		return utf8.RuneError, -1
+	} else if r2 < lowSurrogateOffset || r2 > basicMultilingualPlaneReservedOffset {
+		// UTF16 "high surrogate" without "low surrogate"; like encoding/json, replace it
+		return utf8.RuneError, 6
 	} else {
 		// Valid UTF16 surrogate pair
 		return combineUTF16Surrogates(r, r2), 12
-- 
2.43.0


From 682ef48d213cc5b214bb993ef44547b011c0433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 29/61] fix: accept the date and time notation in Go strings
 too

---
 fastval_date.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/fastval_date.go b/fastval_date.go
index 6f80937..2901677 100644
--- a/fastval_date.go
+++ b/fastval_date.go
@@ -36,6 +36,8 @@ func FastValDateFunc(val FastVal) FastVal {
 	switch val.Type() {
 	case TimeValue:
 		return val
+	case StringValue:
+		fallthrough
 	case JsonStringValue:
 		fallthrough
 	case BinStringValue:
@@ -69,13 +71,6 @@ func FastValDateFunc(val FastVal) FastVal {
 			return NewInvalidFastVal()
 		}
 		return NewTimeFastVal(&timeVal)
-	case StringValue:
-		str := isoToRfc(val.data.(string))
-		timeVal, err := time.Parse(time.RFC3339, str)
-		if err != nil {
-			return NewInvalidFastVal()
-		}
-		return NewTimeFastVal(&timeVal)
 	}
 	return NewInvalidFastVal()
 }
-- 
2.43.0


From 87510a657b4bceba7b33bd01fe339deb54ce1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 30/61] fix: accept the array index 0 in simple expressions

---
 simpleParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index 63bf698..76b4879 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -923,7 +923,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 				if pos == beginPos {
 					continue
 				}
-				if pos == beginPos+1 && string(token[pos]) == "0" {
+				if pos == beginPos+1 && string(token[pos]) == "0" && !strings.HasPrefix(token[pos+1:], fieldNestedEnd) {
 					return outputToken, ErrorLeadingZeroes
 				} else if !fieldTokenInt.MatchString(string(token[pos])) && string(token[pos]) != fieldNestedEnd {
 					return outputToken, ErrorAllInts
-- 
2.43.0


From f41755773e79404e3cac140183a06ef901eba5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 31/61] fix: resolve each nested function argument by itself

---
 simpleParser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 76b4879..16c0d2d 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1393,7 +1393,7 @@ func (ctx *expressionParserContext) outputFunc(pos int) (Expression, error) {
 			if err != nil {
 				return out, fmt.Errorf("Error: Unable to output subFx: %v", err)
 			}
-			out.Params = append(out.Params, subFuncExpr.(FuncExpr))
+			out.Params = append(out.Params, subFuncExpr)
 		} else if fieldTokens, isField := helper.args[curLevel][i].([]string); isField {
 			var argField FieldExpr
 			argField.Path = fieldTokens
@@ -1705,7 +1705,9 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	for i := 1; i < len(subMatches); i++ {
 		if isFunc, key := helper.recursiveKeyFunc(subMatches[i]); isFunc {
 			nextFuncLvl := helper.makeNewFuncLevel()
-			helper.resolveRecursiveFuncs(subMatches[1], key)
+			if err := helper.resolveRecursiveFuncs(subMatches[i], key); err != nil {
+				return err
+			}
 			helper.args[fxIdx] = append(helper.args[fxIdx], funcRecursiveIdx(nextFuncLvl))
 		} else if delim, ok := valueCheck(subMatches[i]).(string); ok {
 			valueString := strings.TrimPrefix(subMatches[i], delim)
-- 
2.43.0


From 79487af04a9cda1b6f88ea9574b6670090a3a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 32/61] fix: validate regular expressions containing spaces in
 simple expressions

---
 simpleParser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index 16c0d2d..4399a2f 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -716,6 +716,11 @@ func (ctx *expressionParserContext) getValueTokenHelper(delim string) (string, P
 	token = strings.TrimPrefix(token, delim)
 	token = strings.TrimSuffix(token, delim)
 
+	return ctx.checkValueToken(token)
+}
+
+// Given a value without its quotes, return its type, after ensuring that a regex is a valid one
+func (ctx *expressionParserContext) checkValueToken(token string) (string, ParseTokenType, error) {
 	if ctx.getTokenValueSubtype() != TokenTypeValue {
 		_, err := regexp.Compile(token)
 		if err != nil {
@@ -808,7 +813,7 @@ func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (stri
 		return "", TokenTypeInvalid, ErrorMissingQuote
 	}
 
-	return outputToken, ctx.getTokenValueSubtype(), nil
+	return ctx.checkValueToken(outputToken)
 }
 
 func (ctx *expressionParserContext) NewFuncHelper() *funcOutputHelper {
-- 
2.43.0


From d73e5b9d3b1208374a06fc9c560e2f9cb6e50262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 33/61] fix: report operators and parentheses without operands
 instead of panicking

---
 simpleParser.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 4399a2f..4ca9fe9 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1070,6 +1070,9 @@ func (ctx *expressionParserContext) insertNode(newNode ParserTreeNode) error {
 	case chainMode:
 		fallthrough
 	case opMode:
+		if ctx.subCtx.lastSubFieldNode < 0 {
+			return fmt.Errorf("Error: Operator %v has nothing to operate on", newNode.data)
+		}
 		ctx.subCtx.lastOpIndex = ctx.subCtx.lastBinTreeDataNode
 		thisOpNode := &ctx.parserTree.data[ctx.subCtx.lastOpIndex]
 		thisOpNode.Left = ctx.subCtx.lastSubFieldNode
@@ -1084,6 +1087,9 @@ func (ctx *expressionParserContext) insertNode(newNode ParserTreeNode) error {
 	case valueMode:
 		ctx.subCtx.lastValueIndex = ctx.subCtx.lastBinTreeDataNode
 		// Value mode means that the op's right is the value
+		if ctx.subCtx.lastOpIndex < 0 {
+			return fmt.Errorf("Error: Value %v has no operator", newNode.data)
+		}
 		thisValueNode := &ctx.parserTree.data[ctx.subCtx.lastValueIndex]
 		thisValueNode.ParentIdx = ctx.subCtx.lastOpIndex
 
@@ -1118,10 +1124,10 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 	}
 
 	// Boundary check
-	if olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	if olderSubCtx.lastOpIndex < 0 || olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
-	if ctx.subCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	if ctx.subCtx.lastOpIndex < 0 || ctx.subCtx.lastOpIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
 
@@ -1263,12 +1269,12 @@ func (ctx *expressionParserContext) getThisOutputNode(pos int) ParserTreeNode {
 }
 
 func (ctx *expressionParserContext) getLeftOutputNode(pos int) (ParserTreeNode, int) {
-	if pos >= len(ctx.parserTree.data) {
+	if pos >= len(ctx.parserTree.data) || pos < 0 {
 		return emptyParserTreeNode, -1
 	}
 	thisNode := ctx.parserTree.data[pos]
 
-	if thisNode.Left >= len(ctx.parserDataNodes) {
+	if thisNode.Left >= len(ctx.parserDataNodes) || thisNode.Left < 0 {
 		return emptyParserTreeNode, -1
 	}
 	leftNode := ctx.parserDataNodes[thisNode.Left]
-- 
2.43.0


From 8eaa8db4ff0b08eea04ea80803024696e668d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 34/61] fix: do not loop forever on a quoted value with a
 closing parenthesis

---
 simpleParser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index 4ca9fe9..ecb5383 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -793,7 +793,8 @@ func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (stri
 	for ctx.currentTokenIndex++; ctx.currentTokenIndex < tokensLen; ctx.currentTokenIndex++ {
 		var breakout bool
 		token := ctx.tokens[ctx.currentTokenIndex]
-		if ctx.parenDepth > 0 && strings.HasSuffix(token, ")") {
+		// Only a parenthesis after the closing quote is not part of the value
+		if ctx.parenDepth > 0 && strings.HasSuffix(token, ")") && strings.HasSuffix(strings.TrimRight(token, ")"), delim) {
 			ctx.handleParenSuffix(")")
 			tokensLen = len(ctx.tokens)
 			token = ctx.tokens[ctx.currentTokenIndex]
-- 
2.43.0


From 15ec300ff2156c7f1a050fc5034a1644dbb463e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 35/61] fix: report unsupported PCRE patterns in simple
 expressions as an error

---
 simpleParser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index ecb5383..e55cb58 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1359,7 +1359,11 @@ func (ctx *expressionParserContext) outputRegex(node ParserTreeNode) (Expression
 }
 
 func (ctx *expressionParserContext) outputPcre(node ParserTreeNode) (Expression, error) {
-	return PcreExpr{node.data}, nil
+	pattern, ok := node.data.(string)
+	if !ok {
+		return emptyExpression, fmt.Errorf("Error: Invalid PCRE pattern: %v", node.data)
+	}
+	return MakePcreExpression(pattern)
 }
 
 func (ctx *expressionParserContext) outputField(pos int) (Expression, error) {
-- 
2.43.0


From 3f9dfdf2ec6b2f8602822069d9bf2ff46666025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 36/61] fix: evaluate true and false conditions in simple
 expressions, reject comparing conditions

---
 simpleParser.go | 46 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index e55cb58..23a592b 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1487,6 +1487,10 @@ func (ctx *expressionParserContext) getComparisonSubExprsNodes(node ParserTreeNo
 		return nil, nil, err
 	}
 
+	if !isOperandExpr(leftSubExpr) || !isOperandExpr(rightSubExpr) {
+		return nil, nil, fmt.Errorf("Error: Unable to compare conditions: %v, %v", leftSubExpr, rightSubExpr)
+	}
+
 	return leftSubExpr, rightSubExpr, err
 }
 
@@ -1498,6 +1502,10 @@ func (ctx *expressionParserContext) getSingleLeftSubExprsNodes(node ParserTreeNo
 		return nil, err
 	}
 
+	if !isOperandExpr(leftSubExpr) {
+		return nil, fmt.Errorf("Error: Expecting a field. Received: %v", leftSubExpr)
+	}
+
 	return leftSubExpr, err
 }
 
@@ -1642,17 +1650,47 @@ func (ctx *expressionParserContext) outputIsNotNull(node ParserTreeNode, pos int
 	}, nil
 }
 
+// Outputs the node as a condition, i.e. something which by itself is true or false
+func (ctx *expressionParserContext) outputCondition(node ParserTreeNode, pos int) (Expression, error) {
+	subExpr, err := ctx.outputNode(node, pos)
+	if err != nil {
+		return nil, err
+	}
+
+	if valueExpr, ok := subExpr.(ValueExpr); ok {
+		switch valueExpr.Value {
+		case true:
+			return TrueExpr{}, nil
+		case false:
+			return FalseExpr{}, nil
+		}
+	}
+	if isOperandExpr(subExpr) {
+		return nil, fmt.Errorf("Error: Expecting a condition. Received: %v", subExpr)
+	}
+
+	return subExpr, nil
+}
+
+func isOperandExpr(expr Expression) bool {
+	switch expr.(type) {
+	case FieldExpr, ValueExpr, RegexExpr, PcreExpr, FuncExpr:
+		return true
+	}
+	return false
+}
+
 func (ctx *expressionParserContext) outputAnd(node ParserTreeNode, pos int) (Expression, error) {
 	var out AndExpr
 	leftNode, leftPos := ctx.getLeftOutputNode(pos)
 	rightNode, rightPos := ctx.getRightOutputNode(pos)
 
-	leftSubExpr, err := ctx.outputNode(leftNode, leftPos)
+	leftSubExpr, err := ctx.outputCondition(leftNode, leftPos)
 	if err != nil {
 		return out, err
 	}
 
-	rightSubExpr, err := ctx.outputNode(rightNode, rightPos)
+	rightSubExpr, err := ctx.outputCondition(rightNode, rightPos)
 	if err != nil {
 		return out, err
 	}
@@ -1668,11 +1706,11 @@ func (ctx *expressionParserContext) outputOr(node ParserTreeNode, pos int) (Expr
 	leftNode, leftPos := ctx.getLeftOutputNode(pos)
 	rightNode, rightPos := ctx.getRightOutputNode(pos)
 
-	leftSubExpr, err := ctx.outputNode(leftNode, leftPos)
+	leftSubExpr, err := ctx.outputCondition(leftNode, leftPos)
 	if err != nil {
 		return out, err
 	}
-	rightSubExpr, err := ctx.outputNode(rightNode, rightPos)
+	rightSubExpr, err := ctx.outputCondition(rightNode, rightPos)
 	if err != nil {
 		return out, err
 	}
-- 
2.43.0


From 9cf948e3f63e08ed76afe7928fe9e0ba9e7e0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 37/61] fix: split the arguments of two variables functions
 outside of nested functions

---
 simpleParser.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 23a592b..eaaed9f 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1753,6 +1753,10 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	helper.args[helper.lvlMarker] = append(helper.args[helper.lvlMarker], lastFunc)
 
 	subMatches := regex.FindStringSubmatch(token)
+	if len(subMatches) == 3 {
+		// The regex splits at the last comma, which could be the one of a nested function
+		subMatches[1], subMatches[2] = splitFuncArgs(strings.TrimSuffix(token[len(lastFunc)+1:], ")"))
+	}
 
 	// Then given the arguments of the functions, populate them if there are any
 	fxIdx := helper.lvlMarker
@@ -1786,6 +1790,30 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	return nil
 }
 
+// Splits the arguments of a two variables function at the comma that is not part of a nested function
+// call, of a value or of an escaped field
+func splitFuncArgs(args string) (string, string) {
+	var depth int
+	var delim rune
+	for i, c := range args {
+		switch {
+		case delim != 0:
+			if c == delim {
+				delim = 0
+			}
+		case c == '`' || c == '"' || c == '\'':
+			delim = c
+		case c == '(':
+			depth++
+		case c == ')':
+			depth--
+		case c == ',' && depth == 0:
+			return args[:i], strings.TrimLeft(args[i+1:], " ")
+		}
+	}
+	return args, ""
+}
+
 func (helper *funcOutputHelper) makeNewFuncLevel() int {
 	helper.lvlMarker = len(helper.args)
 	helper.args = append(helper.args, make([]interface{}, 0))
-- 
2.43.0


From ab5a3e87cacb31f0c227f15575585d8f33367a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 38/61] fix: evaluate every operation of an arithmetic chain in
 filter expressions

---
 filterExprParser.go | 102 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 76 insertions(+), 26 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 69dca3d..d211323 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -24,7 +24,7 @@ import (
 // CheckOp                  = ( "IS" [ "NOT" ] ( NULL | MISSING ) )
 // FieldWithMath            = FieldWMathType0 | FieldWMathType1
 // FieldWMathType0          = MathValue MathOp Field
-// FieldWMathType1          = Field { MathOp ( MathValue | Field ) }
+// FieldWMathType1          = Field { MathOp ( MathValue | Field ) }, where "*", "/" and "%" bind tighter
 // Field                    = { @"-" } OnePath { "." OnePath }
 // OnePath                  = ( PathFuncExpression | StringType ){ ArrayIndex }
 // StringType               = @Ident | @RawString | @Char
@@ -512,9 +512,10 @@ func (f *FEFieldWithMathType0) OutputExpression() (Expression, error) {
 
 type FEFieldWithMathType1 struct {
 	Field      *FEField            `( @@`
-	MathOp     *FEMathArithmeticOp `{ @@`
+	MathOp     *FEMathArithmeticOp `[ @@`
 	MathValue  *FEMathValue        `( @@ | `
-	OtherField *FEField            `@@ ) } )`
+	OtherField *FEField            `@@ )`
+	Others     []*FEMathTerm       `{ @@ } ] )`
 }
 
 func (f *FEFieldWithMathType1) String() string {
@@ -522,14 +523,17 @@ func (f *FEFieldWithMathType1) String() string {
 	if f.Field != nil {
 		output = append(output, f.Field.String())
 	}
-	if f.MathValue != nil && (f.MathOp != nil || f.OtherField != nil) {
+	if f.MathOp != nil && (f.MathValue != nil || f.OtherField != nil) {
 		output = append(output, f.MathOp.String())
-		if f.MathOp != nil {
+		if f.MathValue != nil {
 			output = append(output, f.MathValue.String())
 		} else {
 			output = append(output, f.OtherField.String())
 		}
 	}
+	for _, other := range f.Others {
+		output = append(output, other.String())
+	}
 	return strings.Join(output, " ")
 }
 
@@ -538,37 +542,79 @@ func (f *FEFieldWithMathType1) OutputExpression() (Expression, error) {
 		return nil, fmt.Errorf("Invalid FEFieldWithMathType1 %v", f.String())
 	}
 
-	if f.MathOp != nil && (f.MathValue != nil || f.OtherField != nil) {
-		var mathOutExpr FuncExpr
-		mathOpExpr, err := f.MathOp.OutputExpression()
+	outExpr, err := f.Field.OutputExpression()
+	if err != nil {
+		return nil, err
+	}
+
+	if f.MathOp == nil || (f.MathValue == nil && f.OtherField == nil) {
+		// No math
+		return outExpr, nil
+	}
+
+	// Operands of additions and subtractions, of which the last one still may be multiplied or divided
+	var sum Expression
+	var sumOp FuncExpr
+	last := outExpr
+
+	terms := append([]*FEMathTerm{{f.MathOp, f.MathValue, f.OtherField}}, f.Others...)
+	for _, term := range terms {
+		mathOpExpr, err := term.MathOp.OutputExpression()
 		if err != nil {
 			return nil, err
 		}
-		mathOutExpr = mathOpExpr.(FuncExpr)
-
-		fieldExpr, err := f.Field.OutputExpression()
+		operandExpr, err := term.OutputOperand()
 		if err != nil {
 			return nil, err
 		}
-		mathOutExpr.Params = append(mathOutExpr.Params, fieldExpr)
 
-		if f.MathValue != nil {
-			valueExpr, err := f.MathValue.OutputExpression()
-			if err != nil {
-				return nil, err
-			}
-			mathOutExpr.Params = append(mathOutExpr.Params, valueExpr)
+		mathOutExpr := mathOpExpr.(FuncExpr)
+		if !term.MathOp.isAdditive() {
+			mathOutExpr.Params = append(mathOutExpr.Params, last, operandExpr)
+			last = mathOutExpr
+			continue
+		}
+
+		if sum != nil {
+			sumOp.Params = append(sumOp.Params, sum, last)
+			sum = sumOp
 		} else {
-			field2Expr, err := f.OtherField.OutputExpression()
-			if err != nil {
-				return nil, err
-			}
-			mathOutExpr.Params = append(mathOutExpr.Params, field2Expr)
+			sum = last
 		}
-		return mathOutExpr, nil
+		sumOp = mathOutExpr
+		last = operandExpr
+	}
+
+	if sum != nil {
+		sumOp.Params = append(sumOp.Params, sum, last)
+		return sumOp, nil
+	}
+	return last, nil
+}
+
+type FEMathTerm struct {
+	MathOp     *FEMathArithmeticOp `( @@`
+	MathValue  *FEMathValue        `( @@ | `
+	OtherField *FEField            `@@ ) )`
+}
+
+func (f *FEMathTerm) String() string {
+	if f.MathValue != nil {
+		return fmt.Sprintf("%v %v", f.MathOp.String(), f.MathValue.String())
+	} else if f.OtherField != nil {
+		return fmt.Sprintf("%v %v", f.MathOp.String(), f.OtherField.String())
 	} else {
-		// No math
-		return f.Field.OutputExpression()
+		return "?? (FEMathTerm)"
+	}
+}
+
+func (f *FEMathTerm) OutputOperand() (Expression, error) {
+	if f.MathValue != nil {
+		return f.MathValue.OutputExpression()
+	} else if f.OtherField != nil {
+		return f.OtherField.OutputExpression()
+	} else {
+		return nil, fmt.Errorf("Invalid FEMathTerm %v", f.String())
 	}
 }
 
@@ -745,6 +791,10 @@ func (f *FEMathArithmeticOp) String() string {
 	}
 }
 
+func (f *FEMathArithmeticOp) isAdditive() bool {
+	return f.Addition != nil || f.Subtraction != nil
+}
+
 func (f *FEMathArithmeticOp) OutputExpression() (Expression, error) {
 	if f.Addition != nil {
 		return FuncExpr{FuncName: MathFuncAdd}, nil
-- 
2.43.0


From 2336c84fd3b897f368c15f78504c599b55c76b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 39/61] fix: repeated minus signs in filter expressions cancel
 out

---
 filterExprParser.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index d211323..406bc07 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -619,7 +619,7 @@ func (f *FEMathTerm) OutputOperand() (Expression, error) {
 }
 
 type FEField struct {
-	MathNeg *bool        `{ @"-" }`
+	MathNeg *FEMathNeg   `{ @"-" }`
 	Path    []*FEOnePath `@@ { "." @@ }`
 }
 
@@ -629,7 +629,7 @@ func (fef *FEField) String() string {
 		output = append(output, onePath.String())
 	}
 	fieldOutput := strings.Join(output, ".")
-	if fef.MathNeg != nil {
+	if fef.MathNeg != nil && *fef.MathNeg {
 		fieldOutput = fmt.Sprintf("%v%v", "-", fieldOutput)
 	}
 	return fieldOutput
@@ -649,7 +649,7 @@ func (f *FEField) OutputExpression() (Expression, error) {
 		}
 	}
 
-	if f.MathNeg != nil {
+	if f.MathNeg != nil && *f.MathNeg {
 		var mathOutExpr FuncExpr
 		// Only thing is a negation of the field value
 		mathOutExpr.FuncName = MathFuncNeg
@@ -811,10 +811,18 @@ func (f *FEMathArithmeticOp) OutputExpression() (Expression, error) {
 	}
 }
 
+// Every minus sign negates what the previous ones have led to
+type FEMathNeg bool
+
+func (n *FEMathNeg) Capture(values []string) error {
+	*n = !*n
+	return nil
+}
+
 type FEMathValue struct {
-	MathNeg    *bool    `{ @"-" }`
-	IntValue   *int     `( @Int |`
-	FloatValue *float64 `@Float )`
+	MathNeg    *FEMathNeg `{ @"-" }`
+	IntValue   *int       `( @Int |`
+	FloatValue *float64   `@Float )`
 }
 
 func (f *FEMathValue) String() string {
@@ -1085,7 +1093,7 @@ func (f *FECheckOp) OutputExpression(subExpr Expression) (Expression, error) {
 // Technically we could have an slice of arguments, but having OneArg vs NoArg vs TwoArg could
 // allow us to do more strict function check (i.e. certain funcs should only allow one argument, etc, at this level)
 type FEConstFuncExpression struct {
-	MathNeg          *bool               `{ @"-" }`
+	MathNeg          *FEMathNeg          `{ @"-" }`
 	ConstFuncNoArg   *FEConstFuncNoArg   `( @@ |`
 	ConstFuncOneArg  *FEConstFuncOneArg  `@@ |`
 	ConstFuncTwoArgs *FEConstFuncTwoArgs `@@ )`
-- 
2.43.0


From aed3fa08624e3da5b45ead47dbffce1d86c76de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 40/61] fix: look ahead far enough for the filter grammar's
 signs and values

---
 filterExprParser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 406bc07..f4932e4 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -404,12 +404,12 @@ func (f *FELhs) OutputExpression() (Expression, error) {
 	}
 }
 
-// Normally users do values on the RHS, so prioritize it over field
+// A value can be the start of an arithmetic operation on a field, so check for that first
 type FERhs struct {
 	Func       *FEConstFuncExpression `( @@ |`
 	Bool       *FEBoolean             `@@ |`
-	Value      *FEValue               `@@ |`
-	FieldWMath *FEFieldWithMath       `@@ )`
+	FieldWMath *FEFieldWithMath       `@@ |`
+	Value      *FEValue               `@@ )`
 }
 
 func (fer *FERhs) String() string {
@@ -1574,7 +1574,7 @@ func NewFilterExpressionParser(expression string) (*participle.Parser, *FilterEx
 		return nil, fe, ErrorEmptyInput
 	}
 
-	parser, err := participle.Build(fe)
+	parser, err := participle.Build(fe, participle.UseLookahead(64))
 	if err != nil {
 		return parser, fe, err
 	}
-- 
2.43.0


From b77db8f34948ea4da1873d89fad9497d7c7af748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 41/61] fix: run nested loops over outer arrays for elements
 lacking the body's fields

---
 transform.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index 5a5ecb3..bd886ca 100644
--- a/transform.go
+++ b/transform.go
@@ -290,7 +290,20 @@ func (t *Transformer) pickLoopNode(expr Expression, inExpr, subExpr Expression)
 		return baseNode
 	}
 
-	runsAfter := t.getExecNode(t.resolveRef(inField)) != baseNode.node
+	inRef := t.resolveRef(inField)
+	if len(t.ContextStack) > 0 {
+		context := t.ContextStack[len(t.ContextStack)-1]
+		if inRef.Context != context {
+			// The loop does not depend on any field of the current context being
+			// there, so it runs after the context itself.
+			return nodeRef{
+				node:  nil,
+				after: t.getAfterNode(context.Node),
+			}
+		}
+	}
+
+	runsAfter := t.getExecNode(inRef) != baseNode.node
 	for _, fieldRef := range fetchExprFieldRefs(subExpr) {
 		if fieldExprMatches(fieldRef, inField) {
 			runsAfter = true
-- 
2.43.0


From fa8ff31c486ad3eeb0c5c9f6da3fd1d541ac749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 42/61] fix: comparing a function of a missing field is false
 wherever it runs

---
 fastMatcher.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 21e9140..420314b 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -30,6 +30,8 @@ type FastMatcher struct {
 	tokens      jsonTokenizer
 	collateUsed bool
 	alwaysTrue  bool
+	// Set while resolving the operands of an op if a field it refers to is missing
+	slotNotFound bool
 }
 
 func NewFastMatcher(def *MatchDef) *FastMatcher {
@@ -258,7 +260,11 @@ func (m *FastMatcher) resolveParam(in interface{}, activeLit *FastVal) FastVal {
 
 		return *activeLit
 	case SlotRef:
-		return m.literalFromSlot(opVal.Slot)
+		value := m.literalFromSlot(opVal.Slot)
+		if value.IsMissing() {
+			m.slotNotFound = true
+		}
+		return value
 	case FuncRef:
 		return m.resolveFunc(opVal, activeLit)
 	default:
@@ -275,13 +281,10 @@ func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 		return nil
 	}
 
-	var slotNotFound bool
+	m.slotNotFound = false
 	lhsVal := NewMissingFastVal()
 	if op.Lhs != nil {
 		lhsVal = m.resolveParam(op.Lhs, litVal)
-		if _, ok := op.Lhs.(SlotRef); ok && lhsVal.IsMissing() {
-			slotNotFound = true
-		}
 	} else if litVal != nil {
 		lhsVal = *litVal
 	}
@@ -289,15 +292,13 @@ func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 	rhsVal := NewMissingFastVal()
 	if op.Rhs != nil {
 		rhsVal = m.resolveParam(op.Rhs, litVal)
-		if _, ok := op.Rhs.(SlotRef); ok && rhsVal.IsMissing() {
-			slotNotFound = true
-		}
 	} else if litVal != nil {
 		rhsVal = *litVal
 	}
 
-	if slotNotFound {
-		// If references are for slots and at least one wasn't found
+	if m.slotNotFound {
+		// If references are for slots and at least one wasn't found, be it
+		// directly or as the parameter of a function,
 		// then the matchOp should not execute
 		m.buckets.MarkNode(bucketIdx, false)
 
-- 
2.43.0


From fc4451d492ce95db477506b5ebaa7bab16b505c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 43/61] fix: filter parser took quoted text for keywords and
 operators

A quoted string or field name whose text is that of a grammar literal, like
x = "-" AND y = 1, x = "=" or `AND` = 1, was matched as that literal.
---
 filterExprParser.go | 46 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index f4932e4..8efc3e6 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -5,10 +5,35 @@ package gojsonsm
 import (
 	"fmt"
 	"github.com/alecthomas/participle"
+	"github.com/alecthomas/participle/lexer"
 	"math"
 	"strings"
+	"text/scanner"
 )
 
+// The grammar's literals match a token by its text whatever its type is, so that quoted text is marked before
+// being matched, for it not to be taken for a keyword or an operator, and the mark is removed when captured
+const quotedTextMark = "\""
+
+func markQuotedText(token lexer.Token) (lexer.Token, error) {
+	if token.Type == scanner.String {
+		switch token.Value {
+		case "TRUE", "true", "FALSE", "false":
+			// A quoted boolean can be compared to as a boolean
+			return token, nil
+		}
+	}
+	token.Value = quotedTextMark + token.Value
+	return token, nil
+}
+
+type FEQuotedText string
+
+func (t *FEQuotedText) Capture(values []string) error {
+	*t = FEQuotedText(strings.TrimPrefix(values[0], quotedTextMark))
+	return nil
+}
+
 // EBNF Grammar describing the parser
 
 // FilterExpression         = InnerExpression
@@ -661,16 +686,16 @@ func (f *FEField) OutputExpression() (Expression, error) {
 }
 
 type FEStringType struct {
-	CharVal  string `( @Char |`
-	RawStr   string `@RawString |`
-	StrValue string `@Ident )`
+	CharVal  FEQuotedText `( @Char |`
+	RawStr   FEQuotedText `@RawString |`
+	StrValue string       `@Ident )`
 }
 
 func (f *FEStringType) String() string {
 	if len(f.CharVal) > 0 {
-		return f.CharVal
+		return string(f.CharVal)
 	} else if len(f.RawStr) > 0 {
-		return f.RawStr
+		return string(f.RawStr)
 	} else if len(f.StrValue) > 0 {
 		return f.StrValue
 	} else {
@@ -862,13 +887,13 @@ func (f *FEMathValue) OutputExpression() (Expression, error) {
 }
 
 type FEValue struct {
-	MathVal  *FEMathValue `@@ |`
-	StrValue *string      `@String`
+	MathVal  *FEMathValue  `@@ |`
+	StrValue *FEQuotedText `@String`
 }
 
 func (fev *FEValue) String() string {
 	if fev.StrValue != nil {
-		return *fev.StrValue
+		return string(*fev.StrValue)
 	} else if fev.MathVal != nil {
 		return fev.MathVal.String()
 	} else {
@@ -879,7 +904,7 @@ func (fev *FEValue) String() string {
 func (f *FEValue) OutputExpression() (Expression, error) {
 	if f.StrValue != nil {
 		return ValueExpr{
-			*f.StrValue,
+			string(*f.StrValue),
 		}, nil
 	} else if f.MathVal != nil {
 		return f.MathVal.OutputExpression()
@@ -1574,7 +1599,8 @@ func NewFilterExpressionParser(expression string) (*participle.Parser, *FilterEx
 		return nil, fe, ErrorEmptyInput
 	}
 
-	parser, err := participle.Build(fe, participle.UseLookahead(64))
+	parser, err := participle.Build(fe, participle.UseLookahead(64),
+		participle.Map(markQuotedText, "String", "RawString", "Char"))
 	if err != nil {
 		return parser, fe, err
 	}
-- 
2.43.0


From 88f17db017827334571c713b9c1a36723bc70624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 44/61] fix: numbers of one kind compare by value whether held
 as JSON text or not

Comparing an int with a JSON int (and likewise for uints and floats) found the
two incompatible and ordered them by type.
---
 fastval.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fastval.go b/fastval.go
index 1117778..cff72ae 100644
--- a/fastval.go
+++ b/fastval.go
@@ -51,17 +51,17 @@ const (
 // If a ValueType does not exist in this table, that means there is no possible target conversion
 var ImplicitConvTable = map[ValueType]map[ValueType]bool{
 	// Numerics
-	IntValue: map[ValueType]bool{UintValue: false, JsonUintValue: false, FloatValue: true, JsonFloatValue: true,
+	IntValue: map[ValueType]bool{JsonIntValue: true, UintValue: false, JsonUintValue: false, FloatValue: true, JsonFloatValue: true,
 		StringValue: true, BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true, FalseValue: true},
-	JsonIntValue: map[ValueType]bool{UintValue: false, JsonUintValue: false, FloatValue: true, JsonFloatValue: true,
+	JsonIntValue: map[ValueType]bool{IntValue: true, UintValue: false, JsonUintValue: false, FloatValue: true, JsonFloatValue: true,
 		StringValue: true, BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true, FalseValue: true},
-	UintValue: map[ValueType]bool{IntValue: true, JsonIntValue: true, FloatValue: true, JsonFloatValue: true, StringValue: true,
+	UintValue: map[ValueType]bool{JsonUintValue: true, IntValue: true, JsonIntValue: true, FloatValue: true, JsonFloatValue: true, StringValue: true,
 		BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true, FalseValue: true},
-	JsonUintValue: map[ValueType]bool{IntValue: true, JsonIntValue: true, FloatValue: true, JsonFloatValue: true, StringValue: true,
+	JsonUintValue: map[ValueType]bool{UintValue: true, IntValue: true, JsonIntValue: true, FloatValue: true, JsonFloatValue: true, StringValue: true,
 		BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true, FalseValue: true},
-	FloatValue: map[ValueType]bool{StringValue: true, BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true,
+	FloatValue: map[ValueType]bool{JsonFloatValue: true, StringValue: true, BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true,
 		FalseValue: true},
-	JsonFloatValue: map[ValueType]bool{StringValue: true, BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true,
+	JsonFloatValue: map[ValueType]bool{FloatValue: true, StringValue: true, BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true,
 		FalseValue: true},
 	// Non-Numerics
 	TrueValue: map[ValueType]bool{IntValue: true, JsonIntValue: true, UintValue: true, JsonUintValue: true, FloatValue: true,
-- 
2.43.0


From e5f757d7887381875965f9f1b6be2a97c8fcfc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 45/61] fix: the simple parser took the quoted year of a DATE
 for a number

x == DATE("2019") was accepted but could never be true.
---
 simpleParser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index eaaed9f..f0ba8e8 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1416,6 +1416,11 @@ func (ctx *expressionParserContext) outputFunc(pos int) (Expression, error) {
 			out.Params = append(out.Params, argField)
 		} else if strArg, ok := helper.args[curLevel][i].(string); ok {
 			// value
+			if out.FuncName == DateFunc {
+				// A year is not a number
+				out.Params = append(out.Params, ValueExpr{strArg})
+				continue
+			}
 			valueExpr, err := outputValueInternal(strArg)
 			if err != nil {
 				return out, fmt.Errorf("Error: Unable to output value: %v", strArg)
-- 
2.43.0


From c7b5b3b181e1f1745b0b389ddb865b59a6cc6d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 46/61] fix: parentheses and function names in a quoted value
 with spaces confused the simple parser

x LIKE "(a)* b" was rejected: the part of the value before its first space was
looked into for parentheses and functions.
---
 simpleParser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index f0ba8e8..3a29dc5 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -763,6 +763,10 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 		return ctx.getValueTokenHelper(delim)
 	} else if isNum, ok := valueCheck(token).(bool); ok && isNum {
 		return token, ctx.getTokenValueSubtype(), nil
+	} else if delim, unfinished := tokenIsUnfinishedValueType(token); ctx.subCtx.currentMode == valueMode && unfinished &&
+		strings.Count(token, delim) == 1 {
+		// Parentheses and functions can't be found before the closing quote
+		return ctx.getUnfinishedValueHelper(delim)
 	} else if token == "true" || token == "false" {
 		return ctx.getTrueFalseValue(token)
 	} else if isFunc, key := ctx.tokenIsBuiltInFuncType(token); isFunc {
-- 
2.43.0


From 8fe5db418aba831153098bdb413f1498b9c13e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:16 +0000
Subject: [PATCH 47/61] fix: simple parser drops a constant that follows a
 chain operator

---
 simpleParser.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 3a29dc5..92690ad 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1063,6 +1063,10 @@ func (ctx *expressionParserContext) insertNode(newNode ParserTreeNode) error {
 
 	switch ctx.subCtx.currentMode {
 	case fieldMode:
+		if newNode.tokenType.isBoolType() && ctx.subCtx.opTokenContext.isChainOp() {
+			// A constant that follows a chain op is all there is to the right of that op
+			return ctx.insertChainedConstant()
+		}
 		// FieldMode - nothing to do just record this as the last field
 		ctx.subCtx.lastFieldIndex = ctx.subCtx.lastBinTreeDataNode
 		ctx.subCtx.lastSubFieldNode = ctx.subCtx.lastBinTreeDataNode
@@ -1115,6 +1119,21 @@ func (ctx *expressionParserContext) insertNode(newNode ParserTreeNode) error {
 	return nil
 }
 
+// Makes the node that has just been inserted the right side of the last chain op
+func (ctx *expressionParserContext) insertChainedConstant() error {
+	if ctx.subCtx.lastOpIndex < 0 {
+		return ErrorNotFound
+	}
+	ctx.parserTree.data[ctx.subCtx.lastBinTreeDataNode].ParentIdx = ctx.subCtx.lastOpIndex
+	chainOpNode := &ctx.parserTree.data[ctx.subCtx.lastOpIndex]
+	chainOpNode.Right = ctx.subCtx.lastBinTreeDataNode
+	if chainOpNode.ParentIdx == -1 {
+		ctx.treeHeadIndex = ctx.subCtx.lastOpIndex
+	}
+	ctx.subCtx.lastSubFieldNode = ctx.subCtx.lastOpIndex
+	return nil
+}
+
 // Given two sub contexts, one in the ctx, and the older one, merge them
 func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *parserSubContext) error {
 	// If older subctx is not used, don't merge (nor restore orig context)
-- 
2.43.0


From 83d4ca5553db5a0a99ec3d999984953066dc5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 48/61] fix: simple parser repeats an array index that is
 followed by a field

---
 simpleParser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 92690ad..62cb886 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -945,7 +945,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 						return outputToken, ErrorEmptyNest
 					}
 
-					// Advance mode to the next, and skip appending if this is the last or is followed by another nest
+					// Advance mode to the next, and skip appending if this is the last or is followed by another nest or field
 					mode = cfmNone
 					if !skipAppend {
 						*subTokens = append(*subTokens, token[beginPos:pos+1])
@@ -953,7 +953,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					} else {
 						skipAppend = false
 					}
-					if pos == len(token)-1 || (pos < len(token)-1 && string(token[pos+1]) == fieldNestedStart) {
+					if pos == len(token)-1 || string(token[pos+1]) == fieldNestedStart || string(token[pos+1]) == fieldSeparator {
 						skipAppend = true
 					}
 				case fieldSeparator:
-- 
2.43.0


From 78d2cb0917e75aa719221f793fe62eb1c9f02ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 49/61] fix: simple parser rejects an operator after a
 parenthesised right side

---
 simpleParser.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 62cb886..b73c5b1 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1175,8 +1175,9 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 		ctx.treeHeadIndex = olderSubCtx.lastOpIndex
 	}
 
-	// Once merge is done - restore original context
+	// Once merge is done - restore original context, in which the merged one was the field
 	*(ctx.subCtx) = *(olderSubCtx)
+	ctx.advTokenPositionOnly = false
 	return nil
 }
 
@@ -1184,12 +1185,13 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 func (ctx *expressionParserContext) enableShortCircuitEvalIfPossible() {
 	var operator string
 	for i := 0; i < len(ctx.tokens); i++ {
-		if ctx.tokens[i] == TokenOperatorOr || ctx.tokens[i] == TokenOperatorAnd {
+		token := replaceOpTokenIfNecessary(ctx.tokens[i])
+		if token == TokenOperatorOr || token == TokenOperatorAnd {
 			if len(operator) == 0 {
 				ctx.shortCircuitEnabled = true
-				operator = ctx.tokens[i]
+				operator = token
 			} else {
-				if ctx.tokens[i] != operator {
+				if token != operator {
 					ctx.shortCircuitEnabled = false
 					return
 				}
-- 
2.43.0


From efb2ceb6610a3665c624cc2b7411219730880af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 50/61] fix: simple parser rejects an escaped field with a
 space after a chain operator

---
 simpleParser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index b73c5b1..a279cdf 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1211,6 +1211,7 @@ func (ctx *expressionParserContext) parse() error {
 			break
 		}
 
+		startTokenIndex := ctx.currentTokenIndex
 		token, tokenType, err = ctx.getCurrentToken()
 		if err != nil {
 			break
@@ -1225,6 +1226,11 @@ func (ctx *expressionParserContext) parse() error {
 				break
 			}
 		} else if needToSpawnNewContext(err) {
+			if tokenType != TokenTypeParen {
+				// The new context reads the whole of the field again
+				ctx.currentTokenIndex = startTokenIndex
+			}
+
 			// Save current subContext
 			currentSubCtx := NewParserSubContext()
 			*currentSubCtx = *ctx.subCtx
-- 
2.43.0


From 570a71acd54c18ca06a4841c995b1b90fa5196a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 51/61] fix: simple parser looks for operators within escaped
 fields

---
 simpleParser.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index a279cdf..9e5fdf4 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -221,7 +221,15 @@ func NewOpSeeker(token string) *opSeeker {
 }
 
 func (os *opSeeker) Seek() bool {
+	var inLiteral bool
 	for i := 0; i < len(os.completeToken); i++ {
+		if string(os.completeToken[i]) == fieldLiteral {
+			inLiteral = !inLiteral
+		}
+		if inLiteral {
+			// There are no ops within an escaped field
+			continue
+		}
 		os.idx = i
 		os.seekInternal(i)
 		if os.opFound {
@@ -1279,7 +1287,11 @@ func (ctx *expressionParserContext) getAndSeparateToken() (string, ParseTokenTyp
 	delim := lastSeeker.GetToken()
 	token := ctx.tokens[ctx.currentTokenIndex]
 
-	tokenSplitSlice := StringSplitFirstInst(token, delim)
+	// Split where the op was found
+	tokenSplitSlice := StringSplitFirstInst(token[lastSeeker.idx:], delim)
+	if lastSeeker.idx > 0 {
+		tokenSplitSlice = append([]string{token[:lastSeeker.idx]}, tokenSplitSlice...)
+	}
 	lenSlice := len(tokenSplitSlice)
 	if lenSlice > 1 {
 		numToInsert := lenSlice - 1
-- 
2.43.0


From 918740d15116a3ebc8b3a34382fa711997be7b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 52/61] fix: simple parser regroups what follows EXISTS and the
 IS operators

---
 simpleParser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 9e5fdf4..829622b 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -542,6 +542,11 @@ func (ctx *expressionParserContext) advanceToken() error {
 		switch ctx.subCtx.opTokenContext {
 		case noFieldOp:
 			// These ops do not have fields
+			if ctx.subCtx.oneLayerMode {
+				// There is no value to wait for before merging
+				ctx.currentTokenIndex = ctx.currentTokenIndex - 1
+				return NonErrorOneLayerDone
+			}
 			ctx.subCtx.currentMode = chainMode
 		case chainOp:
 			ctx.subCtx.currentMode = fieldMode
-- 
2.43.0


From e324139ddc6e10bf45353142c9ff2342b1d02009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 53/61] fix: simple parser takes operators without spaces
 around them for one kind

---
 simpleParser.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 829622b..d7acd44 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1196,20 +1196,17 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 
 // Enable short circuit if expression is linked by only && or only ||
 func (ctx *expressionParserContext) enableShortCircuitEvalIfPossible() {
-	var operator string
-	for i := 0; i < len(ctx.tokens); i++ {
-		token := replaceOpTokenIfNecessary(ctx.tokens[i])
-		if token == TokenOperatorOr || token == TokenOperatorAnd {
-			if len(operator) == 0 {
-				ctx.shortCircuitEnabled = true
-				operator = token
-			} else {
-				if token != operator {
-					ctx.shortCircuitEnabled = false
-					return
-				}
-			}
+	var mayHaveOr, mayHaveAnd bool
+	for _, token := range ctx.tokens {
+		if tokenIsChainOpType(token) {
+			ctx.shortCircuitEnabled = true
 		}
+		// Tokens are yet to be separated
+		mayHaveOr = mayHaveOr || strings.Contains(token, TokenOperatorOr) || strings.Contains(token, TokenOperatorOr2)
+		mayHaveAnd = mayHaveAnd || strings.Contains(token, TokenOperatorAnd) || strings.Contains(token, TokenOperatorAnd2)
+	}
+	if mayHaveOr && mayHaveAnd {
+		ctx.shortCircuitEnabled = false
 	}
 }
 
-- 
2.43.0


From 433ba5e02074c811e237253dbc9ee4571af725d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 54/61] fix: simple parser ignores an operator that has nothing
 to its right

---
 simpleParser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index d7acd44..77e8ec7 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1777,6 +1777,10 @@ func (ctx *expressionParserContext) outputExpression() (Expression, error) {
 		return emptyExpression, fmt.Errorf("Error: string expression has not been parsed into internal data structures")
 	}
 
+	if ctx.parserTree.data[ctx.treeHeadIndex].ParentIdx != -1 {
+		return emptyExpression, fmt.Errorf("Error: an operator has nothing to its right")
+	}
+
 	node := ctx.getThisOutputNode(ctx.treeHeadIndex)
 	if node == emptyParserTreeNode {
 		return emptyExpression, fmt.Errorf("Error: Incorrectly parsed context")
-- 
2.43.0


From cd4619b04d99c7913f8a73506c7c083b6aa2ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 55/61] fix: item removal ignores a bracket that follows a
 string

---
 jsonComposer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonComposer.go b/jsonComposer.go
index fc7e82c..0cbcecb 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -118,6 +118,8 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 					return handleError(ErrUnrecognisedToken)
 				} else if tknType2 == tknEnd {
 					return handleError(ErrUnexpectedEOF)
+				} else if tknType2 == tknObjectStart || tknType2 == tknArrayStart {
+					return handleError(ErrInvalidJSON)
 				}
 
 				// potentialKey is not a JSON key, so don't try to match it with keys in "remove"
-- 
2.43.0


From 757e9259dd477b1ddd6b67a3f175cdd396b8f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 56/61] fix: a reused Transformer numbers slots from the start

---
 transform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transform.go b/transform.go
index bd886ca..d28c437 100644
--- a/transform.go
+++ b/transform.go
@@ -634,6 +634,7 @@ var AlwaysFalseIdent = -2
 func (t *Transformer) Transform(exprs []Expression) *MatchDef {
 	t.RootExec = &ExecNode{}
 	t.ContextStack = nil
+	t.SlotIdx = 0
 	t.BucketIdx = 1
 	t.ActiveBucketIdx = 0
 	t.RootTree = binTree{[]binTreeNode{
-- 
2.43.0


From 8b9e4cfc6d6bb836a77876fa6e3c3dd079f7f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 57/61] fix: SlowMatcher matches when any of its expressions
 does, as FastMatcher

---
 slowmatcher.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/slowmatcher.go b/slowmatcher.go
index f77d3de..db9fb96 100644
--- a/slowmatcher.go
+++ b/slowmatcher.go
@@ -295,10 +295,8 @@ func (m *SlowMatcher) Match(data []byte) (bool, error) {
 
 		m.exprMatches[i] = res
 
-		if i == 0 && res {
+		if res {
 			matched = true
-		} else if !res {
-			matched = false
 		}
 	}
 
-- 
2.43.0


From c88b0e45b7476ea2b2f0ff9fc60bcfb04e46add4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 58/61] fix: a | within a string is no letter of true or false

---
 fastval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastval.go b/fastval.go
index cff72ae..f988e95 100644
--- a/fastval.go
+++ b/fastval.go
@@ -84,8 +84,8 @@ const FalseString = "false"
 var TrueValueBytes = []byte(TrueString)
 var FalseValueBytes = []byte(FalseString)
 
-var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[T|t][R|r][U|u][E|e]$")
-var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[F|f][A|a][L|l][S|s][E|e]$")
+var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[Tt][Rr][Uu][Ee]$")
+var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[Ff][Aa][Ll][Ss][Ee]$")
 
 type FastVal struct {
 	dataType    ValueType
-- 
2.43.0


From 9547b0908c00e87b44f34b9cdc9ec93af3003a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 59/61] fix: reference matcher forgot an outer variable hidden
 by an inner one of the same name

---
 slowmatcher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slowmatcher.go b/slowmatcher.go
index db9fb96..9e3a365 100644
--- a/slowmatcher.go
+++ b/slowmatcher.go
@@ -137,6 +137,11 @@ func (m *SlowMatcher) matchAnyInExpr(expr AnyInExpr) (bool, error) {
 		return false, err
 	}
 
+	// The variable may hide another one of the same name
+	if outerVal, ok := m.vars[expr.VarId]; ok {
+		defer func() { m.vars[expr.VarId] = outerVal }()
+	}
+
 	switch vals := vals.(type) {
 	case map[string]interface{}:
 		for _, val := range vals {
-- 
2.43.0


From 0971cb5d0fd9f68ed06ecab62f75bd39609b14dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:16 +0000
Subject: [PATCH 60/61] fix: a loop over a field outside the current element
 runs whether or not the element's other fields exist

The base node of such a loop was the common path of the fields its body
reads from the enclosing element. If that path was missing in the element, the
loop never ran and was false.
---
 transform.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index d28c437..42a00d6 100644
--- a/transform.go
+++ b/transform.go
@@ -286,7 +286,7 @@ func (t *Transformer) pickLoopNode(expr Expression, inExpr, subExpr Expression)
 	baseNode := t.pickBaseNode(expr)
 
 	inField, ok := inExpr.(FieldExpr)
-	if !ok || baseNode.node == nil {
+	if !ok {
 		return baseNode
 	}
 
@@ -303,6 +303,10 @@ func (t *Transformer) pickLoopNode(expr Expression, inExpr, subExpr Expression)
 		}
 	}
 
+	if baseNode.node == nil {
+		return baseNode
+	}
+
 	runsAfter := t.getExecNode(inRef) != baseNode.node
 	for _, fieldRef := range fetchExprFieldRefs(subExpr) {
 		if fieldExprMatches(fieldRef, inField) {
-- 
2.43.0


From 6196fe22a5a1a25720f32277d5281aafc47b839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 61/61] fix: accept a constant in parentheses behind an
 operator

'a EXISTS && ( true )' was rejected, since a constant is no operator that
the outer expression could be merged with.
---
 simpleParser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 77e8ec7..57f6f7a 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1164,18 +1164,23 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 	if olderSubCtx.lastOpIndex < 0 || olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
-	if ctx.subCtx.lastOpIndex < 0 || ctx.subCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	newRootIndex := ctx.subCtx.lastOpIndex
+	if newRootIndex < 0 && ctx.subCtx.fieldIsTrueOrFalse {
+		// There is nothing but a constant in the parenthesis
+		newRootIndex = ctx.subCtx.lastFieldIndex
+	}
+	if newRootIndex < 0 || newRootIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
 
 	// Note that the subContext within *ctx is considered newer spawned
 	lastOpNodeOfOlderSubCtx := &ctx.parserTree.data[olderSubCtx.lastOpIndex]
-	lastOpNodeOfNewContext := &ctx.parserTree.data[ctx.subCtx.lastOpIndex]
+	lastOpNodeOfNewContext := &ctx.parserTree.data[newRootIndex]
 
 	if lastOpNodeOfOlderSubCtx.Right != -1 {
 		return fmt.Errorf("Merging sub-context should expect value to be unassigned, but currently assigned to: %v", lastOpNodeOfOlderSubCtx.Right)
 	}
-	lastOpNodeOfOlderSubCtx.Right = ctx.subCtx.lastOpIndex
+	lastOpNodeOfOlderSubCtx.Right = newRootIndex
 
 	if lastOpNodeOfNewContext.ParentIdx != -1 {
 		return fmt.Errorf("Merging sub-context should expect parent to be unassigned, but currently assigned to: %v", lastOpNodeOfNewContext.ParentIdx)
-- 
2.43.0

