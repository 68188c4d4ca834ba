From 69fc221baaa3d4f24643442c9470556109fc87d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:41 +0000
Subject: [PATCH 01/31] fix: packrat no longer extends a partial with the
 non-terminal it belongs to

A lexeme whose kind is the name of a non-terminal made update insert the
partial's own marker as its next child, which accepted inputs that are not in
the language or panicked.
---
 parser/packrat/packrat.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 45965d9..2ea1f06 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -166,14 +166,6 @@ func (u *updater) update(op *prOp) {
 		start: extended.end,
 	}
 
-	if td := op.checkNonTerminal(extended.treeMarker); td != nil {
-		(&updater{
-			base:      extended,
-			extension: td.treeKey,
-		}).update(op)
-		return
-	}
-
 	op.addPartial(extended, requires)
 }
 
-- 
2.43.0


From 86563440e6d538dc8dd78aa1f29d466c7ed0bdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:41 +0000
Subject: [PATCH 02/31] fix: packrat gives only terminals the lexeme of the
 input

A non-terminal node took over the lexeme at its start (value and position) if
that lexeme's kind had the name of the non-terminal.
---
 parser/packrat/packrat.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 2ea1f06..0fe095e 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -112,7 +112,7 @@ func (p *Packrat) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	if accepted.end != accept.end {
 		return nil
 	}
-	return accepted.toPN(op.lxms, op.memo, op.set)
+	return accepted.toPN(op)
 }
 
 func (op *prOp) addProds(root treeMarker) {
@@ -252,13 +252,13 @@ func (op *prOp) push(tp treePartial, tk treeKey) {
 	}
 }
 
-func (td *treeDef) toPN(lxms []*lexeme.Lexeme, memo map[treeKey]treeDef, set *setsymbol.Set) *tree.PN {
+func (td *treeDef) toPN(op *prOp) *tree.PN {
 	var lx *lexeme.Lexeme
 	var setPos bool
-	if td.start < len(lxms) && lxms[td.start].K.(*setsymbol.Symbol).Idx() == td.idx {
-		lx = lxms[td.start]
+	if !op.nonterms[td.idx] {
+		lx = op.lxms[td.start]
 	} else {
-		lx = lexeme.New(set.ByIdx(td.idx))
+		lx = lexeme.New(op.set.ByIdx(td.idx))
 		setPos = true
 	}
 	pn := &tree.PN{
@@ -266,8 +266,8 @@ func (td *treeDef) toPN(lxms []*lexeme.Lexeme, memo map[treeKey]treeDef, set *se
 		C:      make([]*tree.PN, len(td.children)),
 	}
 	for i, c := range td.children {
-		ct := memo[c]
-		cpn := ct.toPN(lxms, memo, set)
+		ct := op.memo[c]
+		cpn := ct.toPN(op)
 		cpn.P = pn
 		pn.C[i] = cpn
 	}
-- 
2.43.0


From 581cb84c9f1c223494dd2f50684fa696092289c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:41 +0000
Subject: [PATCH 03/31] fix: packrat rejects the empty input if the grammar
 does not derive it

The zero value for a missing memo entry was taken as an accepted tree when
there were no lexemes.
---
 parser/packrat/packrat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 0fe095e..cd86f4d 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -108,8 +108,8 @@ func (p *Packrat) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	var accept treeKey
 	accept.idx = start.idx
 	accept.end = len(lexemes)
-	accepted := op.memo[accept]
-	if accepted.end != accept.end {
+	accepted, ok := op.memo[accept]
+	if !ok {
 		return nil
 	}
 	return accepted.toPN(op)
-- 
2.43.0


From 85607f44a839f2b180b5d12dbb2cdbe2ef2746c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:08 +0000
Subject: [PATCH 04/31] fix: the Parent of a root node is nil

---
 tree/parsetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index f88e5f9..6269de6 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -57,6 +57,9 @@ type PN struct {
 // Parent returns a reference to the nodes parent. If parent is nil, this is the
 // root of the tree. This is part of the parlex.ParseNode interface.
 func (p *PN) Parent() parlex.ParseNode {
+	if p.P == nil {
+		return nil
+	}
 	return p.P
 }
 
-- 
2.43.0


From a190cf6818c05db1698b7cbd48f163c1f742d128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:15 +0000
Subject: [PATCH 05/31] fix: left recursion behind vanishing symbols is found
 whatever the order

---
 leftrecursion.go | 70 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/leftrecursion.go b/leftrecursion.go
index f3d3d95..6867bd6 100644
--- a/leftrecursion.go
+++ b/leftrecursion.go
@@ -3,13 +3,14 @@ package parlex
 // IsLeftRecursive will check if a grammar is left recursive.
 func IsLeftRecursive(grammar Grammar) bool {
 	op := &lrOp{
-		Grammar: grammar,
-		checked: make(map[string]bool),
+		Grammar:  grammar,
+		checked:  make(map[string]bool),
+		stack:    make(map[string]bool),
+		nullable: make(map[string]bool),
 	}
+	op.findNullable()
 	for _, nt := range grammar.NonTerminals() {
-		op.stack = make(map[string]bool)
-		isLR, _ := op.check(nt)
-		if isLR {
+		if op.check(nt) {
 			return true
 		}
 	}
@@ -18,41 +19,70 @@ func IsLeftRecursive(grammar Grammar) bool {
 
 type lrOp struct {
 	Grammar
-	checked, stack map[string]bool
+	checked, stack, nullable map[string]bool
 }
 
-func (op *lrOp) check(s Symbol) (isLR, checkNext bool) {
+// findNullable finds all the non-terminals that can derive the empty string. A
+// non-terminal found late can make productions that were already looked at
+// nullable, so this is repeated until nothing changes.
+func (op *lrOp) findNullable() {
+	for changed := true; changed; {
+		changed = false
+		for _, nt := range op.NonTerminals() {
+			prods := op.Productions(nt)
+			if op.nullable[nt.String()] || prods == nil {
+				continue
+			}
+			for i := prods.Iter(); i.Next(); {
+				if op.allNullable(i.Production) {
+					op.nullable[nt.String()] = true
+					changed = true
+					break
+				}
+			}
+		}
+	}
+}
+
+func (op *lrOp) allNullable(prod Production) bool {
+	for i := prod.Iter(); i.Next(); {
+		if !op.nullable[i.Symbol.String()] {
+			return false
+		}
+	}
+	return true
+}
+
+// check is true if s is left recursive or something that can start s is.
+func (op *lrOp) check(s Symbol) bool {
 	if op.checked[s.String()] {
-		return false, false
+		return false
 	}
 
 	prods := op.Productions(s)
 	if prods == nil {
 		// s is a terminal
 		op.checked[s.String()] = true // add to checked to avoid the lookup in the future
-		return false, false
+		return false
 	}
 
 	if op.stack[s.String()] {
-		return true, false
+		return true
 	}
 	op.stack[s.String()] = true
 
-	retCheckNext := false
 	for i := prods.Iter(); i.Next(); {
-		if i.Production.Symbols() == 0 {
-			retCheckNext = true
-			continue
-		}
-		for j, isLR, checkNext := i.Iter(), false, true; j.Next() && checkNext; {
-			isLR, checkNext = op.check(j.Symbol)
-			if isLR {
-				return true, false
+		for j := i.Iter(); j.Next(); {
+			if op.check(j.Symbol) {
+				return true
+			}
+			if !op.nullable[j.Symbol.String()] {
+				break
 			}
 		}
 	}
 
 	op.checked[s.String()] = true
 	op.stack[s.String()] = false
-	return false, retCheckNext
+	return false
 }
-- 
2.43.0


From 201e108e9dcc83f52bc3901504117f516d7ce8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:40 +0000
Subject: [PATCH 06/31] fix: PromoteChildValue does nothing if the index is out
 of bounds

---
 tree/node_reductions.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 2937334..3afae8f 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -89,14 +89,12 @@ func (p *PN) PromoteSingleChild() bool {
 // is negative, it will find the child relative to the end. If cIdx is out of
 // bounds, no action will be taken.
 func (p *PN) PromoteChildValue(cIdx int) {
-	l := len(p.C)
-	if cIdx < 0 {
-		cIdx = l + cIdx
-	}
-	if cIdx >= 0 && l > cIdx {
-		ch := p.C[cIdx]
-		p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
+	cIdx, _, ok := p.GetIdx(cIdx)
+	if !ok {
+		return
 	}
+	ch := p.C[cIdx]
+	p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
 	p.RemoveChild(cIdx)
 }
 
-- 
2.43.0


From 9114639d7503328c02f73b0167a929b78c4aa5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:41 +0000
Subject: [PATCH 07/31] fix: tree edits and reductions keep the parents of
 nodes right

---
 tree/node_reductions.go | 8 ++++++++
 tree/reducer.go         | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 3afae8f..e4bf9dd 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -10,7 +10,12 @@ func (p *PN) ReplaceWithChild(cIdx int) bool {
 	if !ok {
 		return false
 	}
+	parent := p.P
 	*p = *(p.C[cIdx])
+	p.P = parent
+	for _, c := range p.C {
+		c.P = p
+	}
 	return true
 }
 
@@ -115,6 +120,9 @@ func (p *PN) PromoteChildrenOf(cIdx int) bool {
 	if !ok {
 		return false
 	}
+	for _, c := range p.C[cIdx].C {
+		c.P = p
+	}
 	if cIdx == l-1 {
 		p.C = append(p.C[:cIdx], p.C[cIdx].C...)
 	} else {
diff --git a/tree/reducer.go b/tree/reducer.go
index 942c4bd..873d238 100644
--- a/tree/reducer.go
+++ b/tree/reducer.go
@@ -73,7 +73,9 @@ func (r Reducer) RawReduce(node parlex.ParseNode) *PN {
 		C:      make([]*PN, node.Children()),
 	}
 	for i := range cp.C {
-		cp.C[i] = r.RawReduce(node.Child(i))
+		if cp.C[i] = r.RawReduce(node.Child(i)); cp.C[i] != nil {
+			cp.C[i].P = cp
+		}
 	}
 
 	if reduction := r[cp.Kind().String()]; reduction != nil {
-- 
2.43.0


From 8a1309988e986466be7688f07f2884c6ebedca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:42 +0000
Subject: [PATCH 08/31] fix: cloning a tree keeps positions

---
 tree/parsetree.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 6269de6..95aba04 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -159,11 +159,8 @@ func (p *PN) ChildAt(cIdx int, symbs ...string) bool {
 // Clone takes a node and clones it and all it's children.
 func Clone(node parlex.ParseNode) *PN {
 	pn := &PN{
-		Lexeme: &lexeme.Lexeme{
-			K: node.Kind(),
-			V: node.Value(),
-		},
-		C: make([]*PN, node.Children()),
+		Lexeme: lexeme.Copy(node),
+		C:      make([]*PN, node.Children()),
 	}
 	for i := 0; i < node.Children(); i++ {
 		c := Clone(node.Child(i))
-- 
2.43.0


From 02512ca116c0193df12ca2f6ea0c85ca69376891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:43 +0000
Subject: [PATCH 09/31] fix: topdown trees have parents and list no node twice

---
 parser/topdown/topdown.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/topdown/topdown.go b/parser/topdown/topdown.go
index 803bbf7..aa074a6 100644
--- a/parser/topdown/topdown.go
+++ b/parser/topdown/topdown.go
@@ -47,7 +47,9 @@ func (t *Topdown) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	if node == nil {
 		return nil
 	}
-	return node
+	// the memo hands out the same node wherever a symbol is matched at a
+	// position, cloning gives every node of the tree a single place and parent
+	return tree.Clone(node)
 }
 
 type treeKey struct {
-- 
2.43.0


From 4899d5a8a8d50ff95cc9c2a7bf4252084bad86cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:56 +0000
Subject: [PATCH 10/31] fix: simplelexer matches by priority and never takes an
 empty match

---
 lexer/simplelexer/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index c019f86..ff1c57e 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -149,9 +149,10 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int) {
 
 	// look in next for matches and take the longest one
 	for kind, loc := range op.next {
-		if loc != nil && loc[0] == op.cur {
+		// an empty match does not make any progress, so it is no match
+		if loc != nil && loc[0] == op.cur && loc[1] > op.cur {
 			p := op.rules[kind].priority
-			if op.compare(loc[1], p, lxEnd, lxP) {
+			if lxP == -1 || op.compare(loc[1], p, lxEnd, lxP) {
 				lx.K = op.set.ByIdx(kind)
 				lx.V = string(op.b[loc[0]:loc[1]])
 				lxEnd = loc[1]
-- 
2.43.0


From 823908253619f97653324025c79e44003edf8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 11/31] fix: simplelexer rules can be added after a lex error

---
 lexer/simplelexer/construct.go | 4 ++--
 lexer/simplelexer/lexer.go     | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lexer/simplelexer/construct.go b/lexer/simplelexer/construct.go
index 564fa52..5e2254e 100644
--- a/lexer/simplelexer/construct.go
+++ b/lexer/simplelexer/construct.go
@@ -106,8 +106,8 @@ func (l *Lexer) addRule(r *rule) error {
 // make a copy of the lexer.
 func (l *Lexer) String() string {
 	var longest int
-	for _, rule := range l.rules {
-		if ln := parlex.SymLen(l.set.ByIdx(rule.kind)); ln > longest {
+	for _, kind := range l.order {
+		if ln := parlex.SymLen(l.set.ByIdx(kind)); ln > longest {
 			longest = ln
 		}
 	}
diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index ff1c57e..790a7ac 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -125,7 +125,10 @@ func (op *lexOp) checkError() {
 func (op *lexOp) populateNext() {
 	op.next = make([][]int, len(op.rules))
 	for kind, r := range op.rules {
-		op.next[kind] = r.re.FindIndex(op.b)
+		// not every symbol in the set has to be the kind of a rule
+		if r != nil {
+			op.next[kind] = r.re.FindIndex(op.b)
+		}
 	}
 }
 
-- 
2.43.0


From 39f8ed1bac4d799aacedde507c340a981320c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:58 +0000
Subject: [PATCH 12/31] fix: simplelexer positions count newlines in errors and
 errors have positions

---
 lexer/simplelexer/lexer.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index 790a7ac..dfc26b0 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -1,12 +1,12 @@
 package simplelexer
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/adamcolton/parlex"
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/setsymbol"
 	"regexp"
-	"strings"
 )
 
 // Lexer implements parlex.Lexer. It can take a string and produce a slice of
@@ -65,7 +65,6 @@ type lexOp struct {
 	errFlag  bool
 	errStart int
 	cur      int
-	lines    int
 }
 
 // Lex takes a string and produces a slice of lexemes that can be consumed by a
@@ -118,7 +117,7 @@ func (op *lexOp) checkError() {
 	op.errFlag = false
 	val := string(op.b[op.errStart:op.cur])
 	errKind := op.set.Str(op.Error)
-	lxm := lexeme.New(errKind).Set(val)
+	lxm := lexeme.New(errKind).Set(val).At(op.pos(op.errStart))
 	op.lxs = append(op.lxs, &errLexeme{lxm})
 }
 
@@ -164,10 +163,15 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int) {
 		}
 	}
 
-	lx.L = op.lines
-	lx.C = strings.LastIndex(string(op.b[:op.cur]), "\n")
-	lx.C = op.cur - lx.C
-	op.lines += strings.Count(lx.V, "\n")
+	lx.L, lx.C = op.pos(op.cur)
 
 	return lx, lxEnd
 }
+
+// pos returns the line and column of an index in the input
+func (op *lexOp) pos(idx int) (int, int) {
+	before := op.b[:idx]
+	return bytes.Count(before, newline), idx - bytes.LastIndex(before, newline)
+}
+
+var newline = []byte("\n")
-- 
2.43.0


From 4bd0b04fd328a42c6dd4bf9052401bc8282bf8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:26 +0000
Subject: [PATCH 13/31] fix: stacklexer compares and refreshes the cached
 matches correctly

---
 lexer/stacklexer/lex.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index e8f34ab..7d020ea 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -55,6 +55,7 @@ func (op *lexOp) lex() {
 				if op.cur >= len(op.b) {
 					break
 				}
+				op.updateNext()
 			} else {
 				op.pop(1)
 			}
@@ -111,9 +112,15 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 
 	// look in next for matches and take the longest one
 	for kind, loc := range op.next {
-		if loc != nil && loc[0]+loc[len(loc)-1] == op.cur {
+		if loc == nil {
+			continue
+		}
+		// locations are relative to where the search for them started
+		offset := loc[len(loc)-1]
+		// an empty match does not make any progress, so it is no match
+		if loc[0]+offset == op.cur && loc[1] > loc[0] {
 			tr := op.rules[kind]
-			if tr != nil && (r == nil || op.compare(loc[1], tr.priority, idx[1], r.priority)) {
+			if tr != nil && (r == nil || op.compare(loc[1]+offset, tr.priority, idx[1]+idx[len(idx)-1], r.priority)) {
 				idx = loc
 				r = tr
 			}
-- 
2.43.0


From f98242d8db559f4390ddf0a17225c43cbce354b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:27 +0000
Subject: [PATCH 14/31] fix: stacklexer stays in the outermost lexer if there
 is nothing to pop

---
 lexer/stacklexer/lex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 7d020ea..b050317 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -84,6 +84,11 @@ func (op *lexOp) lex() {
 }
 
 func (op *lexOp) pop(i int) {
+	if len(op.stack) == 0 {
+		// there is nothing to leave
+		op.updateNext()
+		return
+	}
 	ln := len(op.stack) - i
 	if ln < 0 {
 		ln = 0
-- 
2.43.0


From b7d061af54647e50130861ff32a7190c66ece4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:28 +0000
Subject: [PATCH 15/31] fix: stacklexer positions are right after and in errors
 of several lines

---
 lexer/stacklexer/lex.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index b050317..a694235 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -1,10 +1,10 @@
 package stacklexer
 
 import (
+	"bytes"
 	"github.com/adamcolton/parlex"
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/setsymbol"
-	"strings"
 )
 
 type lexOp struct {
@@ -18,8 +18,7 @@ type lexOp struct {
 		start int
 		kind  *setsymbol.Symbol
 	}
-	cur   int
-	lines int
+	cur int
 }
 
 // Lex fulfills parlex.Lexer. It uses the StackLexer to lex a string
@@ -27,7 +26,6 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 	op := &lexOp{
 		subLexer: l.start,
 		b:        []byte(str),
-		lines:    1,
 		lxs:      make([]parlex.Lexeme, 0),
 	}
 	op.err.kind = l.set.Str(op.Error)
@@ -147,31 +145,29 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 				lx.V += string(op.b[offset+idx[sub.section*2] : offset+idx[sub.section*2+1]])
 			}
 		}
-		op.handleLineCol(lx, string(op.b[offset+idx[0]:offset+idx[1]]))
 	} else {
 		lx.V = string(op.b[offset+idx[0] : offset+idx[1]])
-		op.handleLineCol(lx, lx.V)
 	}
+	lx.L, lx.C = op.pos(op.cur)
 
 	return lx, offset + idx[1], r
 }
 
-func (op *lexOp) handleLineCol(lx *lexeme.Lexeme, str string) {
-	lx.L = op.lines
-	lx.C = strings.LastIndex(string(op.b[:op.cur]), "\n")
-	lx.C = op.cur - lx.C
-	op.lines += strings.Count(str, "\n")
+// pos returns the line and column of an index in the input
+func (op *lexOp) pos(idx int) (int, int) {
+	before := op.b[:idx]
+	return 1 + bytes.Count(before, newline), idx - bytes.LastIndex(before, newline)
 }
 
+var newline = []byte("\n")
+
 func (op *lexOp) checkError() {
 	if !op.err.flag || op.cur > len(op.b) {
 		return
 	}
 	op.err.flag = false
 	val := string(op.b[op.err.start:op.cur])
-	lx := lexeme.New(op.err.kind).Set(val)
-	op.handleLineCol(lx, lx.V)
-	lx.C -= len(val)
+	lx := lexeme.New(op.err.kind).Set(val).At(op.pos(op.err.start))
 	op.lxs = append(op.lxs, &errLexeme{lx})
 }
 
-- 
2.43.0


From 6b7d530a91fb4572473b3f0af6712a9cc6eae5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:02 +0000
Subject: [PATCH 16/31] fix: stacklexer.New returns the errors of a bad
 definition

---
 lexer/stacklexer/construct.go | 18 +++++++++++++++++-
 lexer/stacklexer/readme.md    |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 0a9f503..908dcff 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -77,6 +77,9 @@ func parseSubmatches(str string) []submatch {
 // ErrCyclic will be returned if a stack lexers form a cyclic inheritance
 var ErrCyclic = errors.New("Cyclic Inheritance")
 
+// ErrNoLexer will be returned if the definitions do not contain any sub-lexer
+var ErrNoLexer = errors.New("No Lexer Defined")
+
 var subParserDef = regexp.MustCompile(`==\s*([a-zA-Z_][a-zA-Z_0-9]*)\s*(?:==)?\s*\n`)
 var subParserLine = regexp.MustCompile(`([^\/\s]+)\s*(?:\/((?:[^\/\\]|(?:\\\/?))+)\/\s*(?:\(((?:[^\\\)]|(?:\\[^\n]))*)\))?)?\s*((?:\^+)|(?:[a-zA-Z_][a-zA-Z_0-9]*))?\s*(-?)`)
 
@@ -122,7 +125,20 @@ func New(definitions ...string) (*StackLexer, error) {
 	done := make(map[string]bool)
 	stack := make(map[string]bool)
 	for _, sl := range l.lexers {
-		sl.parse(subLexerDefs, done, stack)
+		if err := sl.parse(subLexerDefs, done, stack); err != nil {
+			return nil, err
+		}
+	}
+
+	if l.start == nil {
+		return nil, ErrNoLexer
+	}
+	for _, sl := range l.lexers {
+		for _, kind := range sl.order {
+			if push := sl.rules[kind].push; push != "" && l.lexers[push] == nil {
+				return nil, fmt.Errorf("Unknown Lexer: %s", push)
+			}
+		}
 	}
 
 	return l, nil
diff --git a/lexer/stacklexer/readme.md b/lexer/stacklexer/readme.md
index 3e856cb..695c1a8 100644
--- a/lexer/stacklexer/readme.md
+++ b/lexer/stacklexer/readme.md
@@ -8,7 +8,7 @@ lexer, or discard the current lexer and use one popped off the stack.
 
 ``` Sample Stack Lexer
 == Main ==
-  start innerLexer
+  start InnerLexer
   outerFoo /foo/
   Shared
 == InnerLexer ==
-- 
2.43.0


From 126bb329b2fdb9efdb863fd59c8d5d0a12775486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:03 +0000
Subject: [PATCH 17/31] fix: stacklexer inherits rules in the order in which
 they are defined

---
 lexer/stacklexer/construct.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 908dcff..6ad6e22 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -262,10 +262,8 @@ func (sl *subLexer) addHeir(heir *subLexer, defs map[string]string, done, stack
 	sl.inheirit.by = append(sl.inheirit.by, heir)
 	heir.inheirit.from = append(heir.inheirit.from, sl)
 
-	for _, r := range sl.rules {
-		if r != nil {
-			heir.addRule(*r)
-		}
+	for _, kind := range sl.order {
+		heir.addRule(*sl.rules[kind])
 	}
 	return nil
 }
-- 
2.43.0


From 967aecb4e65efeab141632a90fe60604393d79ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:04 +0000
Subject: [PATCH 18/31] fix: stacklexer groups take quoted literals literally
 and never panic

---
 lexer/stacklexer/construct.go | 50 ++++++++++++++++++++++++++++-------
 lexer/stacklexer/lex.go       |  5 ++--
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 6ad6e22..0a23e8c 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -55,23 +55,50 @@ type submatch struct {
 	str     string
 }
 
-var intRe = regexp.MustCompile(`\d+`)
+var intRe = regexp.MustCompile(`^\s*\d+\s*$`)
+
+// splitSubmatches splits on every | that is not in a quoted string
+func splitSubmatches(str string) []string {
+	var segs []string
+	start, quoted := 0, false
+	for i := 0; i < len(str); i++ {
+		switch {
+		case str[i] == '\\':
+			i++
+		case str[i] == '"':
+			quoted = !quoted
+		case str[i] == '|' && !quoted:
+			segs = append(segs, str[start:i])
+			start = i + 1
+		}
+	}
+	return append(segs, str[start:])
+}
 
-func parseSubmatches(str string) []submatch {
+func parseSubmatches(str string, groups int) ([]submatch, error) {
 	if str == "" {
-		return nil
+		return nil, nil
 	}
-	segs := strings.Split(str, "|")
+	segs := splitSubmatches(str)
 	ms := make([]submatch, len(segs))
 	for i, s := range segs {
 		if intRe.MatchString(s) {
-			sec, _ := strconv.Atoi(s)
+			sec, err := strconv.Atoi(strings.TrimSpace(s))
+			if err != nil || sec > groups {
+				return nil, fmt.Errorf("Unknown Group: %s", s)
+			}
 			ms[i] = submatch{section: sec}
-		} else {
-			ms[i] = submatch{section: -1, str: s}
+			continue
 		}
+		s = strings.Replace(s, `\)`, `)`, -1)
+		if q := strings.TrimSpace(s); strings.HasPrefix(q, `"`) {
+			if lit, err := strconv.Unquote(q); err == nil {
+				s = lit
+			}
+		}
+		ms[i] = submatch{section: -1, str: s}
 	}
-	return ms
+	return ms, nil
 }
 
 // ErrCyclic will be returned if a stack lexers form a cyclic inheritance
@@ -211,6 +238,11 @@ func (sl *subLexer) addMatch(m []string) error {
 		return err
 	}
 
+	submatches, err := parseSubmatches(m[3], re.NumSubexp())
+	if err != nil {
+		return err
+	}
+
 	push := m[4]
 	pop := 0
 	for _, r := range push {
@@ -230,7 +262,7 @@ func (sl *subLexer) addMatch(m []string) error {
 		push:       push,
 		pop:        pop,
 		discard:    m[5] == "-",
-		submatches: parseSubmatches(m[3]),
+		submatches: submatches,
 	}
 	sl.addRule(r)
 	return nil
diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index a694235..9c7d340 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -141,8 +141,9 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 		for _, sub := range r.submatches {
 			if sub.section == -1 {
 				lx.V += sub.str
-			} else {
-				lx.V += string(op.b[offset+idx[sub.section*2] : offset+idx[sub.section*2+1]])
+			} else if start := idx[sub.section*2]; start >= 0 {
+				// a group that did not take part in the match has no text
+				lx.V += string(op.b[offset+start : offset+idx[sub.section*2+1]])
 			}
 		}
 	} else {
-- 
2.43.0


From 17f9369b1fcc89e739aac55c523bdfeb6ed957f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:25 +0000
Subject: [PATCH 19/31] fix: removing left recursion keeps the language and
 ends

---
 grammar/left_recursion.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/grammar/left_recursion.go b/grammar/left_recursion.go
index b2e8278..cfb3cfa 100644
--- a/grammar/left_recursion.go
+++ b/grammar/left_recursion.go
@@ -6,7 +6,6 @@ import (
 )
 
 type lrOp struct {
-	in        parlex.Grammar
 	out       *Grammar
 	done      []bool
 	cur       *setsymbol.Symbol
@@ -18,12 +17,14 @@ type lrOp struct {
 // without.
 func RemoveLeftRecursion(grammar parlex.Grammar) *Grammar {
 	nts := grammar.NonTerminals()
+	out := Empty()
 	op := &lrOp{
-		in:   grammar,
-		out:  Empty(),
+		out:  out,
 		done: make([]bool, len(nts)),
-		set:  setsymbol.New(),
+		set:  out.set,
 	}
+	// all symbols are known before new ones are made
+	op.set.LoadGrammar(grammar)
 	for _, s := range nts {
 		op.cur = op.set.Symbol(s)
 		op.hasDirect = false
@@ -56,7 +57,8 @@ func (op *lrOp) safeAdd(prod *setsymbol.Production) {
 		return
 	}
 
-	for i := op.in.Productions(first).Iter(); i.Next(); {
+	// first has been processed, so it's productions do not lead back to it
+	for i := op.out.Productions(first).Iter(); i.Next(); {
 		newProd := op.set.Production()
 		for lead := i.Production.Iter(); lead.Next(); {
 			newProd.AddSymbols(lead.Symbol)
@@ -78,11 +80,12 @@ func (op *lrOp) getTail(prod *setsymbol.Production) *setsymbol.Production {
 }
 
 func (op *lrOp) removeDirectLeftRecursion() {
-	newSym := op.set.Str(op.cur.String() + "'")
-	nsIdx := newSym.Idx()
-	if nsIdx >= len(op.out.productions) || op.out.productions[nsIdx] == nil {
-		op.out.order = append(op.out.order, nsIdx)
+	name := op.cur.String() + "'"
+	for op.set.Has(name) {
+		name += "'"
 	}
+	newSym := op.set.Str(name)
+	op.out.order = append(op.out.order, newSym.Idx())
 
 	prods := op.out.productions[op.cur.Idx()]
 	op.out.productions[op.cur.Idx()] = nil
@@ -92,9 +95,7 @@ func (op *lrOp) removeDirectLeftRecursion() {
 			prod.AddSymbols(newSym)
 			op.directAdd(op.cur, prod)
 		} else {
-			for prod.Symbols() > 0 && prod.Symbol(0).(*setsymbol.Symbol).Idx() == op.cur.Idx() {
-				prod = op.getTail(prod)
-			}
+			prod = op.getTail(prod)
 			if prod.Symbols() > 0 {
 				prod.AddSymbols(newSym)
 				op.directAdd(newSym, prod)
-- 
2.43.0


From c02ef8062d7636c51e3c554de3781d1363355527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:00 +0000
Subject: [PATCH 20/31] fix: text that is not one tree is an error and values
 are read as they are printed

---
 tree/parsetree.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 95aba04..d8cbbf2 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -7,6 +7,7 @@ import (
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/stringsymbol"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -20,18 +21,25 @@ var handleSlash = strings.NewReplacer(`\\`, "\\", `\n`, "\n", `\"`, "\"")
 // New creates a *PN from a string. They are more commonly created from a Parser
 // but this can be useful for testing.
 func New(str string) (*PN, error) {
-	cur := &PN{}
+	top := &PN{}
+	cur := top
 	for _, line := range strings.Split(str, "\n") {
 		m := reTreeLine.FindStringSubmatch(line)
-		if len(line) != len(m[0]) {
+		if m == nil || len(line) != len(m[0]) {
 			return nil, ErrBadTreeString
 		}
 		if m[1] == "}" {
+			if cur == top {
+				return nil, ErrBadTreeString
+			}
 			cur = cur.P
 		}
 		if m[2] != "" {
 			kind := stringsymbol.Symbol(m[2])
-			val := handleSlash.Replace(m[3])
+			val, err := strconv.Unquote(`"` + m[3] + `"`)
+			if err != nil {
+				val = handleSlash.Replace(m[3])
+			}
 			ch := &PN{
 				Lexeme: lexeme.New(kind).Set(val),
 				P:      cur,
@@ -42,7 +50,10 @@ func New(str string) (*PN, error) {
 			}
 		}
 	}
-	cur = cur.C[0]
+	if cur != top || len(top.C) != 1 {
+		return nil, ErrBadTreeString
+	}
+	cur = top.C[0]
 	cur.P = nil
 	return cur, nil
 }
-- 
2.43.0


From 3443a3661f1230fd5be990512972d88448961949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:43 +0000
Subject: [PATCH 21/31] fix: regexgram keeps productions with an empty group

---
 grammar/regexgram/regexgram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index 58a20b9..6035d6c 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -292,7 +292,7 @@ func mergeRules(a, b rules) rules {
 
 func (rc ruleComb) reduce() rules {
 	if len(rc) == 0 {
-		return nil
+		return rules{rule{}} // the empty group matches nothing but the empty string
 	}
 	ra := rc[0]
 	for _, rb := range rc[1:] {
-- 
2.43.0


From 14088938bac495269c137b5a239932e958fa0e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:44 +0000
Subject: [PATCH 22/31] fix: regexgram names of repeated groups are different
 for different groups

---
 grammar/regexgram/regexgram.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index 6035d6c..599b834 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -192,7 +192,7 @@ func (op *evalOp) evalSymbol(node *tree.PN) rules {
 //    ->
 // And adds a rule to the reducer
 func (op *evalOp) addRepeatAsProduction(node *tree.PN) rules {
-	symName := op.getName(node)
+	symName := op.getName(node, false)
 	op.bludgeons[op.nonterm] = append(op.bludgeons[op.nonterm], symName)
 	if rs, ok := op.done[symName]; ok {
 		return rs
@@ -241,24 +241,29 @@ func bludgeon(symbols []string) func(*tree.PN) {
 	}
 }
 
-func (op *evalOp) getName(node *tree.PN) string {
+// getName describes a node. The symbols of a group are joined by underscores,
+// so those within the symbols of a group are escaped.
+func (op *evalOp) getName(node *tree.PN, inGroup bool) string {
 	switch node.Kind().String() {
 	case "symbol":
+		if inGroup {
+			return strings.Replace(node.Value(), "_", `\_`, -1)
+		}
 		return node.Value()
 	case "OptSymbol":
-		return op.getName(node.C[0]) + "?"
+		return op.getName(node.C[0], inGroup) + "?"
 	case "RepSymbol":
-		return op.getName(node.C[0]) + "*"
+		return op.getName(node.C[0], inGroup) + "*"
 	case "OrSymbol":
 		var strs []string
 		for _, c := range node.C {
-			strs = append(strs, op.getName(c))
+			strs = append(strs, op.getName(c, inGroup))
 		}
 		return strings.Join(strs, "|")
 	case "Group":
 		var strs []string
 		for _, c := range node.C {
-			strs = append(strs, op.getName(c))
+			strs = append(strs, op.getName(c, true))
 		}
 		return "(" + strings.Join(strs, "_") + ")"
 	}
-- 
2.43.0


From 237c88fff23e59d2b47891597c1bd68c5aacff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 23/31] fix: reducer text takes only whole numbers as an index

---
 tree/reducer/reducer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/reducer/reducer.go b/tree/reducer/reducer.go
index 2b61a0a..781a6c1 100644
--- a/tree/reducer/reducer.go
+++ b/tree/reducer/reducer.go
@@ -23,7 +23,7 @@ const lexerRules = `
   PromoteSingleChild
   ReplaceWithChild
   Nil
-  number  /-?\d*\.?\d+/
+  number  /-?\d+/
   rule    /(\w+)/
   string  /\"([^\"\\]|(\\.))*\"/
   lp      /\(/
-- 
2.43.0


From 1d0188d9ddf179873c143f746a2e50ed263d9327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:18 +0000
Subject: [PATCH 24/31] fix: reducer text unquotes its string arguments

---
 tree/reducer/reducer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tree/reducer/reducer.go b/tree/reducer/reducer.go
index 781a6c1..53028a5 100644
--- a/tree/reducer/reducer.go
+++ b/tree/reducer/reducer.go
@@ -145,9 +145,7 @@ func evalVarNumArgs(n *tree.PN) []int {
 func evalVarStrArgs(n *tree.PN) []string {
 	args := make([]string, len(n.C))
 	for i, n := range n.C {
-		v := n.Value()
-		v = v[1 : len(v)-1]
-		args[i] = v
+		args[i] = evalOneStrArg(n)
 	}
 	return args
 }
@@ -162,6 +160,9 @@ func evalOneNumArg(n *tree.PN) int {
 
 func evalOneStrArg(n *tree.PN) string {
 	v := n.Value()
+	if u, err := strconv.Unquote(v); err == nil {
+		return u
+	}
 	return v[1 : len(v)-1]
 }
 
-- 
2.43.0


From 286c72db71a9dcb4ed080d0086ff0bb00ef9d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:14 +0000
Subject: [PATCH 25/31] fix: grammar analysis finds exact first sets of all
 grammars

---
 analyze/analysis.go | 103 ++++++++++++++++++++++++++------------------
 1 file changed, 60 insertions(+), 43 deletions(-)

diff --git a/analyze/analysis.go b/analyze/analysis.go
index 69dd846..492d299 100644
--- a/analyze/analysis.go
+++ b/analyze/analysis.go
@@ -11,9 +11,9 @@ type Analytics struct {
 	first2nonterms [][]bool
 	nonterm2firsts [][]int
 	nilInFirst     []bool
+	nullable       []bool
 	Terminals      []bool
 	set            *setsymbol.Set
-	done           []bool
 }
 
 // Analyze a grammar. The grammar is embeded so the return value can be used as
@@ -34,13 +34,28 @@ func Analyze(grammar parlex.Grammar) *Analytics {
 		first2nonterms: make([][]bool, ln),
 		nonterm2firsts: make([][]int, ln),
 		nilInFirst:     make([]bool, ln),
+		nullable:       make([]bool, ln),
 		Terminals:      make([]bool, ln),
-		done:           make([]bool, ln),
 	}
 
-	// find firsts by populating nonterm2firsts
-	for _, symbol := range a.NonTerminals() {
-		a.firsts(a.set.Symbol(symbol))
+	// a terminal is its own only first
+	for i := range a.Terminals {
+		if a.Productions(set.ByIdx(i)) == nil {
+			a.Terminals[i] = true
+			a.first2nonterms[i] = make([]bool, ln)
+			a.first2nonterms[i][i] = true
+		}
+	}
+
+	// find firsts by populating nonterm2firsts; symbols can be recursive so this
+	// is repeated until there is nothing new
+	for changed := true; changed; {
+		changed = false
+		for _, symbol := range a.NonTerminals() {
+			if a.firsts(a.set.Symbol(symbol)) {
+				changed = true
+			}
+		}
 	}
 
 	// populate first2nonterms from nonterm2firsts
@@ -59,61 +74,63 @@ func Analyze(grammar parlex.Grammar) *Analytics {
 	return a
 }
 
-func (a *Analytics) firsts(s *setsymbol.Symbol) ([]int, bool) {
+// firsts adds what is known so far about the productions of s to the firsts of
+// s. It returns true if there was something to add.
+func (a *Analytics) firsts(s *setsymbol.Symbol) bool {
 	sIdx := s.Idx()
-	if a.done[sIdx] {
-		return a.nonterm2firsts[sIdx], a.nilInFirst[sIdx]
+	changed := false
+	set := func(b *bool) {
+		changed = changed || !*b
+		*b = true
 	}
-	a.done[sIdx] = true
-
-	var fs []int
-	nilInFirst := false
 	for i := a.Productions(s).Iter(); i.Next(); {
+		nullable := true
+		for j := i.Iter(); nullable && j.Next(); {
+			idx := a.set.Symbol(j.Symbol).Idx()
+			firsts := a.nonterm2firsts[idx]
+			if a.Terminals[idx] {
+				firsts = []int{idx}
+			}
+			for _, first := range firsts {
+				if !contains(a.nonterm2firsts[sIdx], first) {
+					a.nonterm2firsts[sIdx] = append(a.nonterm2firsts[sIdx], first)
+					changed = true
+				}
+			}
+			if j.Idx == 0 && a.nilInFirst[idx] {
+				set(&a.nilInFirst[sIdx])
+			}
+			nullable = a.nullable[idx]
+		}
 		if i.Symbols() == 0 {
-			nilInFirst = true
-			continue
+			set(&a.nilInFirst[sIdx])
 		}
-		var firsts []int
-		for j, doNext := i.Iter(), true; j.Next() && doNext; {
-			symbol := a.set.Symbol(j.Symbol)
-			if a.Productions(symbol) == nil {
-				doNext = false
-				fs = append(fs, symbol.Idx())
-				a.Terminals[symbol.Idx()] = true
-			} else {
-				firsts, doNext = a.firsts(symbol)
-				nilInFirst = nilInFirst || doNext
-				fs = append(fs, firsts...)
-			}
+		if nullable {
+			set(&a.nullable[sIdx])
+		}
+	}
+	return changed
+}
+
+func contains(idxs []int, idx int) bool {
+	for _, i := range idxs {
+		if i == idx {
+			return true
 		}
 	}
-	a.nonterm2firsts[sIdx] = fs
-	a.nilInFirst[sIdx] = nilInFirst
-	return fs, nilInFirst
+	return false
 }
 
 // Contains returns true if the grammar contains the symbol as either a terminal
 // or non-terminal.
 func (a *Analytics) Contains(symbol parlex.Symbol) bool {
-	s := a.set.HasSymbol(symbol)
-	if s == nil {
-		return false
-	}
-	idx := s.Idx()
-	return a.nonterm2firsts[idx] != nil || a.Terminals[idx]
+	return a.set.HasSymbol(symbol) != nil
 }
 
 // NonTerminal returns true if the symbol is a non-terminal in the grammar.
 func (a *Analytics) NonTerminal(symbol parlex.Symbol) bool {
 	s := a.set.HasSymbol(symbol)
-	if s == nil {
-		return false
-	}
-	idx := s.Idx()
-	if idx >= len(a.nonterm2firsts) {
-		return false
-	}
-	return a.nonterm2firsts[idx] != nil
+	return s != nil && !a.Terminals[s.Idx()]
 }
 
 // HasFirst returns true if first could be the first symbol in a tree with root
-- 
2.43.0


From a20564312c9bacf6ccc23d4281325193ad85f309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:44 +0000
Subject: [PATCH 26/31] fix: ByIdx is nil for an index that is not in the set

---
 symbol/setsymbol/set.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index 856a9d9..3d9893c 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -23,9 +23,10 @@ func New() *Set {
 // Size returns the number of symbols in the set
 func (s *Set) Size() int { return len(s.symb2str) }
 
-// ByIdx gets a symbol by index from the set
+// ByIdx gets a symbol by index from the set. It returns nil if there is no
+// symbol with that index.
 func (s *Set) ByIdx(idx int) *Symbol {
-	if idx > len(s.symb2str) {
+	if idx < 0 || idx >= len(s.symb2str) {
 		return nil
 	}
 	return &Symbol{
-- 
2.43.0


From 32e1f2380d74dca14c1d248ad0dd77e0214ca0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:57 +0000
Subject: [PATCH 27/31] fix: extending a production does not change others
 taken from the same productions

---
 symbol/setsymbol/set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index 3d9893c..c1c9661 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -262,8 +262,10 @@ func (p *Productions) Productions() int {
 // Production returns the production at the given index
 func (p *Productions) Production(i int) parlex.Production {
 	if i < len(p.prods) {
+		// limit the capacity so that AddSymbols does not write to shared memory
+		symbs := p.prods[i]
 		return &Production{
-			symbs: p.prods[i],
+			symbs: symbs[:len(symbs):len(symbs)],
 			set:   p.set,
 		}
 	}
-- 
2.43.0


From e51a3a2fa95cdc90eeba50f02d0ea8251eada841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:18 +0000
Subject: [PATCH 28/31] fix: a printed simplelexer reads back whatever its
 patterns contain

---
 lexer/simplelexer/construct.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/lexer/simplelexer/construct.go b/lexer/simplelexer/construct.go
index 5e2254e..0791b0a 100644
--- a/lexer/simplelexer/construct.go
+++ b/lexer/simplelexer/construct.go
@@ -125,9 +125,34 @@ func (l *Lexer) String() string {
 		if re == str {
 			re = ""
 		} else {
-			re = "/" + re + "/"
+			re = "/" + escapeRe(re) + "/"
 		}
 		lines[i] = fmt.Sprintf(format, str, re, d)
 	}
 	return strings.Join(lines, "\n")
 }
+
+// escapeRe writes a regular expression so that it can stand between slashes on
+// a single line.
+func escapeRe(re string) string {
+	if re == "" {
+		return "(?:)"
+	}
+	out := make([]byte, 0, len(re))
+	for i := 0; i < len(re); i++ {
+		switch re[i] {
+		case '\\':
+			out = append(out, '\\')
+			if i++; i < len(re) {
+				out = append(out, re[i])
+			}
+		case '/':
+			out = append(out, `\/`...)
+		case '\n':
+			out = append(out, `\n`...)
+		default:
+			out = append(out, re[i])
+		}
+	}
+	return string(out)
+}
-- 
2.43.0


From aaa4129713e1f7db3818605eab1f68e3b2cbefc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:16 +0000
Subject: [PATCH 29/31] fix: asking a grammar for the productions of an unknown
 symbol does not change the grammar

---
 grammar/grammar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/grammar.go b/grammar/grammar.go
index 9e739b1..21a15b3 100644
--- a/grammar/grammar.go
+++ b/grammar/grammar.go
@@ -120,8 +120,8 @@ func Empty() *Grammar {
 // not a non-terminal in the Grammar, nil is returned. It is part of the
 // parlex.Grammer interface.
 func (g *Grammar) Productions(symbol parlex.Symbol) parlex.Productions {
-	idx := g.set.Symbol(symbol).Idx()
-	if idx >= len(g.productions) {
+	idx := g.set.Idx(symbol)
+	if idx < 0 || idx >= len(g.productions) {
 		return nil
 	}
 	p := g.productions[idx]
-- 
2.43.0


From 76e85a45bd263e0668fc5ce9c132466e7221326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:16 +0000
Subject: [PATCH 30/31] fix: lexing does not change the lexer's symbol set

---
 lexer/simplelexer/lexer.go    |  3 +--
 lexer/stacklexer/construct.go |  2 ++
 lexer/stacklexer/lex.go       | 11 ++++++++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index dfc26b0..c2f10e2 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -116,8 +116,7 @@ func (op *lexOp) checkError() {
 	}
 	op.errFlag = false
 	val := string(op.b[op.errStart:op.cur])
-	errKind := op.set.Str(op.Error)
-	lxm := lexeme.New(errKind).Set(val).At(op.pos(op.errStart))
+	lxm := lexeme.String(op.Error).Set(val).At(op.pos(op.errStart))
 	op.lxs = append(op.lxs, &errLexeme{lxm})
 }
 
diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 0a23e8c..ea867e7 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -157,6 +157,8 @@ func New(definitions ...string) (*StackLexer, error) {
 		}
 	}
 
+	l.set.Str(l.Error)
+
 	if l.start == nil {
 		return nil, ErrNoLexer
 	}
diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 9c7d340..febff1e 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -28,7 +28,7 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 		b:        []byte(str),
 		lxs:      make([]parlex.Lexeme, 0),
 	}
-	op.err.kind = l.set.Str(op.Error)
+	op.err.kind = l.errKind()
 	if op.insert.startKind != "" {
 		op.lxs = append(op.lxs, lexeme.String(op.insert.startKind).Set(op.insert.startVal))
 	}
@@ -43,6 +43,15 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 	return op.lxs
 }
 
+// errKind returns the kind of error lexemes. It does not add to the set of the
+// lexer, so that many strings can be lexed at the same time.
+func (l *StackLexer) errKind() *setsymbol.Symbol {
+	if !l.set.Has(l.Error) {
+		return setsymbol.New().Str(l.Error)
+	}
+	return l.set.Str(l.Error)
+}
+
 func (op *lexOp) lex() {
 	for {
 		lx, lxEnd, r := op.findNextMatch()
-- 
2.43.0


From 1825cf7e630d670ea402d2d75013a949d8ab87bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:55 +0000
Subject: [PATCH 31/31] fix: removing left recursion keeps non-terminals that
 derive nothing

A non-terminal all of whose productions lead back to it at the left was left
without productions or was taken for a terminal, and RemoveLeftRecursion, String
or the parsers then failed on it.
---
 grammar/grammar.go        |  5 ++++-
 grammar/left_recursion.go | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/grammar/grammar.go b/grammar/grammar.go
index 21a15b3..5fcbeb4 100644
--- a/grammar/grammar.go
+++ b/grammar/grammar.go
@@ -184,7 +184,10 @@ func (g *Grammar) String() string {
 	for _, nt := range nonTerminals {
 		prods := g.Productions(nt)
 		iter := prods.Iter()
-		iter.Next()
+		if !iter.Next() {
+			// there is nothing to write for a symbol that does not derive anything
+			continue
+		}
 		segs = append(segs, fmt.Sprintf(format, nt, iter.Production))
 		for iter.Next() {
 			segs = append(segs, fmt.Sprintf(format, "", iter.Production))
diff --git a/grammar/left_recursion.go b/grammar/left_recursion.go
index cfb3cfa..a1db71a 100644
--- a/grammar/left_recursion.go
+++ b/grammar/left_recursion.go
@@ -28,6 +28,7 @@ func RemoveLeftRecursion(grammar parlex.Grammar) *Grammar {
 	for _, s := range nts {
 		op.cur = op.set.Symbol(s)
 		op.hasDirect = false
+		op.declare()
 		for i := grammar.Productions(op.cur).Iter(); i.Next(); {
 			op.safeAdd(op.set.CastProduction(i.Production))
 		}
@@ -43,6 +44,17 @@ func RemoveLeftRecursion(grammar parlex.Grammar) *Grammar {
 	return op.out
 }
 
+// declare adds the current symbol as a non-terminal that has no productions yet.
+// It may not get any: if they all lead back to it, it does not derive anything.
+func (op *lrOp) declare() {
+	idx := op.cur.Idx()
+	if idx >= len(op.out.productions) {
+		op.out.productions = append(op.out.productions, make([]*setsymbol.Productions, 1+idx-len(op.out.productions))...)
+	}
+	op.out.productions[idx] = op.set.Productions()
+	op.out.order = append(op.out.order, idx)
+}
+
 func (op *lrOp) safeAdd(prod *setsymbol.Production) {
 	var first *setsymbol.Symbol
 	if prod.Symbols() > 0 {
@@ -88,7 +100,7 @@ func (op *lrOp) removeDirectLeftRecursion() {
 	op.out.order = append(op.out.order, newSym.Idx())
 
 	prods := op.out.productions[op.cur.Idx()]
-	op.out.productions[op.cur.Idx()] = nil
+	op.out.productions[op.cur.Idx()] = op.set.Productions()
 	for i := prods.Iter(); i.Next(); {
 		prod := i.Production.(*setsymbol.Production)
 		if prod.Symbols() == 0 || prod.Symbol(0).(*setsymbol.Symbol).Idx() != op.cur.Idx() {
-- 
2.43.0

