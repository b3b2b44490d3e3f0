From f2fcd8b5633808a4c26f865bca30fa2334a2adac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 01/35] fix: auto: keep both branches apart when a later
 condition is implied

In addIfExpr the branches were swapped: if the first condition implies the
second, only the then branch may assume the second condition.
---
 relapse/auto/ifs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/auto/ifs.go b/relapse/auto/ifs.go
index 66225e1..bc3c854 100644
--- a/relapse/auto/ifs.go
+++ b/relapse/auto/ifs.go
@@ -113,8 +113,8 @@ func (this *ifExprs) addIfExpr(cond funcs.Bool, then, els *ast.Pattern) {
 	}
 	// remove impossible (always false) else condition
 	if funcs.IsFalse(funcs.And(this.cond, funcs.Not(cond))) {
-		this.then.addIfExpr(cond, then, els)
-		this.els.addReturn(then)
+		this.then.addReturn(then)
+		this.els.addIfExpr(cond, then, els)
 		return
 	}
 	this.then.addIfExpr(cond, then, els)
-- 
2.43.0


From 4b978952826277d09c751eef38f601c474b25fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 02/35] fix: funcs: do not rewrite not(eq) into ne

A comparison, also ne, is false for a value of another type, so ne is not the
complement of eq. Treating it as the complement made the engines disagree.
---
 relapse/funcs/logic.go | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/relapse/funcs/logic.go b/relapse/funcs/logic.go
index f2cdfde..fe131a0 100644
--- a/relapse/funcs/logic.go
+++ b/relapse/funcs/logic.go
@@ -30,32 +30,6 @@ func Not(v1 Bool) Bool {
 	if vv, ok := v1.(*or); ok {
 		return And(Not(vv.V1), Not(vv.V2))
 	}
-	switch vv := v1.(type) {
-	case *boolEq:
-		return BoolNe(vv.V1, vv.V2)
-	case *bytesEq:
-		return BytesNe(vv.V1, vv.V2)
-	case *doubleEq:
-		return DoubleNe(vv.V1, vv.V2)
-	case *intEq:
-		return IntNe(vv.V1, vv.V2)
-	case *stringEq:
-		return StringNe(vv.V1, vv.V2)
-	case *uintEq:
-		return UintNe(vv.V1, vv.V2)
-	case *boolNe:
-		return BoolEq(vv.V1, vv.V2)
-	case *bytesNe:
-		return BytesEq(vv.V1, vv.V2)
-	case *doubleNe:
-		return DoubleEq(vv.V1, vv.V2)
-	case *intNe:
-		return IntEq(vv.V1, vv.V2)
-	case *stringNe:
-		return StringEq(vv.V1, vv.V2)
-	case *uintNe:
-		return UintEq(vv.V1, vv.V2)
-	}
 	return TrimBool(&not{
 		V1:          v1,
 		hash:        hashWithId(23, v1),
@@ -138,6 +112,12 @@ func And(v1, v2 Bool) Bool {
 			return BoolConst(false)
 		}
 	}
+	if vv2, ok := v2.(*not); ok && isSimpleConflict(v1, vv2.V1) {
+		return v1
+	}
+	if vv1, ok := v1.(*not); ok && isSimpleConflict(v2, vv1.V1) {
+		return v2
+	}
 	switch vv1 := v1.(type) {
 	case *stringEq:
 		if vv2, ok := v2.(*stringEq); ok {
@@ -247,6 +227,11 @@ func And(v1, v2 Bool) Bool {
 	})
 }
 
+//isSimpleConflict returns whether both functions compare a variable of the same type for equality, but with different constants.
+func isSimpleConflict(v1, v2 Bool) bool {
+	return IsSimpleEqual(v1) && IsSimpleEqual(v2) && IsFalse(And(v1, v2))
+}
+
 type and struct {
 	V1          Bool
 	V2          Bool
-- 
2.43.0


From 8d617f5bf8362b25df7621f4f0d677e5136314f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 03/35] fix: interp: do not remove duplicates from an
 interleave

{a;a} requires a twice.
---
 relapse/interp/order.go    | 22 ++++++++++++++++------
 relapse/interp/simplify.go | 12 +++++++++++-
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/relapse/interp/order.go b/relapse/interp/order.go
index d105e8f..394a8e1 100644
--- a/relapse/interp/order.go
+++ b/relapse/interp/order.go
@@ -49,12 +49,13 @@ func (ps *sortable) Less(i, j int) bool {
 	return ps.list[i].GetTreeNode() == nil
 }
 
-// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
-func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
-	if len(ps) == 0 || len(ps) == 1 {
-		return ps
-	}
+// ordered creates a stable order, while taking into account treenodes.
+func ordered(ps []*ast.Pattern) []*ast.Pattern {
+	sort.Sort(newSortable(ps))
+	return ps
+}
 
+func newSortable(ps []*ast.Pattern) *sortable {
 	hashes := make([]uint64, len(ps))
 	for i, p := range ps {
 		if p.GetTreeNode() == nil {
@@ -63,9 +64,18 @@ func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
 			hashes[i] = p.GetTreeNode().GetPattern().Hash()
 		}
 	}
+	return &sortable{hashes, ps}
+}
+
+// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
+func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
+	if len(ps) == 0 || len(ps) == 1 {
+		return ps
+	}
 
-	sortable := &sortable{hashes, ps}
+	sortable := newSortable(ps)
 	sort.Sort(sortable)
+	hashes := sortable.hashes
 
 	u := 0
 	for i := 1; i < len(ps); i++ {
diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index f8eede6..b717323 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -380,7 +380,17 @@ func simplifyInterleave(refs ast.RefLookup, p1, p2 *ast.Pattern) *ast.Pattern {
 	}
 	left := getInterleaves(p1)
 	right := getInterleaves(p2)
-	list := orderedSet(append(left, right...))
+	// duplicates are only removed from the ZAny patterns, since {a;a} is not the same as a.
+	list := []*ast.Pattern{}
+	any := []*ast.Pattern{}
+	for _, child := range append(left, right...) {
+		if isZany(child) {
+			any = []*ast.Pattern{child}
+		} else {
+			list = append(list, child)
+		}
+	}
+	list = ordered(append(list, any...))
 	var p *ast.Pattern = list[0]
 	for i := range list {
 		if i == 0 {
-- 
2.43.0


From 7f79b47d3d2a1a9f295efa18a52fd4ff2d77d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 04/35] fix: intern: set the context of functions below a zero
 or more pattern

---
 relapse/intern/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/intern/context.go b/relapse/intern/context.go
index 7238cec..83c2451 100644
--- a/relapse/intern/context.go
+++ b/relapse/intern/context.go
@@ -46,7 +46,7 @@ func (c *construct) setContext(p *Pattern) {
 			c.setContext(pp)
 		}
 	case ZeroOrMore:
-		return
+		c.setContext(p.Patterns[0])
 	case Reference:
 		return
 	case Not:
-- 
2.43.0


From 34ca4f7bf021f6b78eae6fe4a16b9d9a7a2026b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 05/35] fix: interp: do not modify the expressions of the
 grammar being simplified

---
 relapse/interp/simplify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index b717323..b9236b2 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -234,7 +234,7 @@ func simplifyOr(refs ast.RefLookup, p1, p2 *ast.Pattern, record bool) *ast.Patte
 		expr1, err1 := compose.ConvertBuiltInIntoFunction(p1.GetLeafNode().GetExpr())
 		expr2, err2 := compose.ConvertBuiltInIntoFunction(p2.GetLeafNode().GetExpr())
 		if err1 == nil && err2 == nil {
-			return ast.NewLeafNode(ast.NewFunction("or", expr1, expr2))
+			return ast.NewLeafNode(ast.NewFunction("or", expr1.Clone(), expr2.Clone()))
 		}
 	}
 	left := getOrs(p1)
@@ -318,7 +318,7 @@ func simplifyAnd(refs ast.RefLookup, p1, p2 *ast.Pattern, record bool) *ast.Patt
 		expr1, err1 := compose.ConvertBuiltInIntoFunction(p1.GetLeafNode().GetExpr())
 		expr2, err2 := compose.ConvertBuiltInIntoFunction(p2.GetLeafNode().GetExpr())
 		if err1 == nil && err2 == nil {
-			return ast.NewLeafNode(ast.NewFunction("and", expr1, expr2))
+			return ast.NewLeafNode(ast.NewFunction("and", expr1.Clone(), expr2.Clone()))
 		}
 	}
 	left := getAnds(p1)
-- 
2.43.0


From e9a78d906d7cd0100287a545282cb83c7106ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 06/35] fix: ast: literals that cannot be parsed are errors
 rather than panics

---
 relapse/ast/util.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/relapse/ast/util.go b/relapse/ast/util.go
index 3dcc395..b44569a 100644
--- a/relapse/ast/util.go
+++ b/relapse/ast/util.go
@@ -110,7 +110,11 @@ func ToString(s1 string) string {
 
 //NewIntTerminal is a parser utility function that parses the int value out of the input string and returns a Terminal of type int.
 func NewIntTerminal(slit string) (*Terminal, error) {
-	return &Terminal{IntValue: ToInt64(Strip(slit, "int")), Literal: slit}, nil
+	i, err := strconv.ParseInt(string(Strip(slit, "int")), 10, 64)
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{IntValue: &i, Literal: slit}, nil
 }
 
 //ToInt64 is a parser utility function that returns a pointer to a parsed an int64 or panics.
@@ -124,7 +128,11 @@ func ToInt64(tok []byte) *int64 {
 
 //NewUintTerminal is a parser utility function that parses the uint value out of the input string and returns a Terminal of type uint.
 func NewUintTerminal(slit string) (*Terminal, error) {
-	return &Terminal{UintValue: ToUint64(Strip(slit, "uint")), Literal: slit}, nil
+	i, err := strconv.ParseUint(string(Strip(slit, "uint")), 10, 64)
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{UintValue: &i, Literal: slit}, nil
 }
 
 //ToUint64 is a parser utility function that returns a pointer to a parsed an uint64 or panics.
@@ -138,7 +146,11 @@ func ToUint64(tok []byte) *uint64 {
 
 //NewDoubleTerminal is a parser utility function that parses the double value out of the input string and returns a Terminal of type double.
 func NewDoubleTerminal(slit string) (*Terminal, error) {
-	return &Terminal{DoubleValue: ToFloat64(Strip(slit, "double")), Literal: slit}, nil
+	f, err := strconv.ParseFloat(string(Strip(slit, "double")), 64)
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{DoubleValue: &f, Literal: slit}, nil
 }
 
 //ToFloat64 is a parser utility function that returns a pointer to a parsed an float64 or panics.
-- 
2.43.0


From 275c94bf86301b544b08e6c950a9b828caae1187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 07/35] fix: refuse grammars with undeclared patterns and use
 the declared main pattern

---
 relapse/ast/new.go          | 35 +++++++++++++++++++++++++++++++++++
 relapse/auto/compiler.go    |  3 +++
 relapse/intern/construct.go | 11 +++++++++--
 relapse/interp/deriv.go     |  3 +++
 4 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/relapse/ast/new.go b/relapse/ast/new.go
index b63b6fa..22142e0 100644
--- a/relapse/ast/new.go
+++ b/relapse/ast/new.go
@@ -15,6 +15,8 @@
 package ast
 
 import (
+	"errors"
+	"fmt"
 	"sort"
 
 	"github.com/gogo/protobuf/proto"
@@ -37,6 +39,39 @@ func NewRefLookup(g *Grammar) RefLookup {
 	return refs
 }
 
+//CheckRefs returns an error if the main pattern is not declared or
+//if one of the patterns references a pattern that is not declared.
+func CheckRefs(refs RefLookup) error {
+	if refs["main"] == nil {
+		return errors.New("relapse/ast: main pattern is not declared")
+	}
+	names := make([]string, 0, len(refs))
+	for name := range refs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		c := &refChecker{refs: refs}
+		refs[name].Walk(c)
+		if c.err != nil {
+			return c.err
+		}
+	}
+	return nil
+}
+
+type refChecker struct {
+	refs RefLookup
+	err  error
+}
+
+func (this *refChecker) Visit(node interface{}) interface{} {
+	if ref, ok := node.(*Reference); ok && this.err == nil && this.refs[ref.GetName()] == nil {
+		this.err = fmt.Errorf("relapse/ast: referenced pattern %s is not declared", ref.GetName())
+	}
+	return this
+}
+
 //NewGrammar converts a refenence lookup map into a Grammar.
 func NewGrammar(m map[string]*Pattern) *Grammar {
 	names := make([]string, 0, len(m))
diff --git a/relapse/auto/compiler.go b/relapse/auto/compiler.go
index b870bef..df7f941 100644
--- a/relapse/auto/compiler.go
+++ b/relapse/auto/compiler.go
@@ -23,6 +23,9 @@ import (
 )
 
 func newCompiler(g *ast.Grammar, record bool) (*compiler, error) {
+	if err := ast.CheckRefs(ast.NewRefLookup(g)); err != nil {
+		return nil, err
+	}
 	simp := interp.NewSimplifier(g)
 	if record {
 		simp = simp.OptimizeForRecord()
diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index ce7f68e..c064519 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -83,6 +83,9 @@ func (c *construct) Deref(name string) *Pattern {
 func (c *construct) AddGrammar(g *ast.Grammar) (*Pattern, error) {
 	ps := g.GetPatternDecls()
 	refs := ast.NewRefLookup(g)
+	if err := ast.CheckRefs(refs); err != nil {
+		return nil, err
+	}
 
 	// nullRefs are useful when constructing references for pattern declarations,
 	// which have not been created yet.
@@ -91,13 +94,17 @@ func (c *construct) AddGrammar(g *ast.Grammar) (*Pattern, error) {
 		c.nullRefs[name] = interp.Nullable(refs, p)
 	}
 
-	main, err := c.AddPatternDecl("main", g.GetTopPattern())
+	main, err := c.AddPatternDecl("main", refs["main"])
 	if err != nil {
 		return nil, err
 	}
 
 	for _, p := range ps {
-		if _, err := c.AddPatternDecl(p.GetName(), p.GetPattern()); err != nil {
+		// refs decides which pattern is used for a name that is declared more than once.
+		if _, ok := c.refs[p.GetName()]; ok {
+			continue
+		}
+		if _, err := c.AddPatternDecl(p.GetName(), refs[p.GetName()]); err != nil {
 			return nil, err
 		}
 	}
diff --git a/relapse/interp/deriv.go b/relapse/interp/deriv.go
index cd8d673..37f5a40 100644
--- a/relapse/interp/deriv.go
+++ b/relapse/interp/deriv.go
@@ -31,6 +31,9 @@ import (
 //This implementation does not handle immediate recursion, see the HasRecursion function.
 func Interpret(g *ast.Grammar, parser parser.Interface) (bool, error) {
 	refs := ast.NewRefLookup(g)
+	if err := ast.CheckRefs(refs); err != nil {
+		return false, err
+	}
 	finals, err := deriv(refs, []*ast.Pattern{refs["main"]}, parser)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 5dcc56b119d0e26e2006498b38143ce2a2839645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 08/35] fix: funcs: negative positions of elem and range count
 from the end

---
 relapse/funcs/elem.gen.go       | 24 ++++++++++++-----
 relapse/funcs/funcs-gen/main.go | 12 ++++++---
 relapse/funcs/range.gen.go      | 48 ++++++++++++++++++++++++---------
 3 files changed, 63 insertions(+), 21 deletions(-)

diff --git a/relapse/funcs/elem.gen.go b/relapse/funcs/elem.gen.go
index f6f8bb7..4a58179 100644
--- a/relapse/funcs/elem.gen.go
+++ b/relapse/funcs/elem.gen.go
@@ -26,7 +26,9 @@ func (this *elemDoubles) Eval() (float64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -100,7 +102,9 @@ func (this *elemInts) Eval() (int64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -174,7 +178,9 @@ func (this *elemUints) Eval() (uint64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -248,7 +254,9 @@ func (this *elemBools) Eval() (bool, error) {
 		return false, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return false, NewRangeCheckErr(index, len(list))
@@ -322,7 +330,9 @@ func (this *elemStrings) Eval() (string, error) {
 		return "", NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return "", NewRangeCheckErr(index, len(list))
@@ -396,7 +406,9 @@ func (this *elemListOfBytes) Eval() ([]byte, error) {
 		return nil, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return nil, NewRangeCheckErr(index, len(list))
diff --git a/relapse/funcs/funcs-gen/main.go b/relapse/funcs/funcs-gen/main.go
index 22dcdf1..bd002f3 100644
--- a/relapse/funcs/funcs-gen/main.go
+++ b/relapse/funcs/funcs-gen/main.go
@@ -438,7 +438,9 @@ func (this *elem{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 		return {{.Default}}, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		if index = index % len(list); index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return {{.Default}}, NewRangeCheckErr(index, len(list))
@@ -526,7 +528,9 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -537,7 +541,9 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
diff --git a/relapse/funcs/range.gen.go b/relapse/funcs/range.gen.go
index a38d2c7..6ba7a5b 100644
--- a/relapse/funcs/range.gen.go
+++ b/relapse/funcs/range.gen.go
@@ -27,7 +27,9 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -38,7 +40,9 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -120,7 +124,9 @@ func (this *rangeInts) Eval() ([]int64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -131,7 +137,9 @@ func (this *rangeInts) Eval() ([]int64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -213,7 +221,9 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -224,7 +234,9 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -306,7 +318,9 @@ func (this *rangeBools) Eval() ([]bool, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -317,7 +331,9 @@ func (this *rangeBools) Eval() ([]bool, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -399,7 +415,9 @@ func (this *rangeStrings) Eval() ([]string, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -410,7 +428,9 @@ func (this *rangeStrings) Eval() ([]string, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -492,7 +512,9 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		if first = first % len(list); first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -503,7 +525,9 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		if last = last % len(list); last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
-- 
2.43.0


From 07adf0a4e00d5496696d00e59a6de4b413ea73a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 09/35] fix: parser/json: brackets in strings, unicode escapes
 and truncated input

---
 parser/json/json.go | 103 ++++++++++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 46 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index d4eb643..0c9702f 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -32,13 +32,13 @@ func errInString(buf []byte) error {
 }
 
 func isString(buf []byte) bool {
-	return buf[0] == '"'
+	return len(buf) > 0 && buf[0] == '"'
 }
 
 func scanString(buf []byte) (int, error) {
 	escaped := false
 	udigits := -1
-	if buf[0] != '"' {
+	if !isString(buf) {
 		return 0, errInString(buf)
 	}
 	for i, c := range buf[1:] {
@@ -48,6 +48,7 @@ func scanString(buf []byte) (int, error) {
 				escaped = false
 				continue
 			case 'u':
+				escaped = false
 				udigits = 0
 				continue
 			}
@@ -75,7 +76,7 @@ func scanString(buf []byte) (int, error) {
 			return 0, errInString(buf)
 		}
 	}
-	panic("unreachable")
+	return 0, io.ErrShortBuffer
 }
 
 func isNumber(c byte) bool {
@@ -95,12 +96,20 @@ func skipSpace(buf []byte) int {
 	return len(buf)
 }
 
+//is returns whether c is the next byte.
+func (s *jsonParser) is(c byte) bool {
+	return s.offset < len(s.buf) && s.buf[s.offset] == c
+}
+
 func (s *jsonParser) expected(expected string) error {
+	if s.offset >= len(s.buf) {
+		return io.ErrShortBuffer
+	}
 	return fmt.Errorf("katydid/json/parser: expected '%s' at offset %d, but got '%c'", expected, s.offset, s.buf[s.offset])
 }
 
 func (s *jsonParser) scanOpenObject() error {
-	if s.buf[s.offset] == '{' {
+	if s.is('{') {
 		s.offset++
 	} else {
 		return s.expected("{")
@@ -109,7 +118,7 @@ func (s *jsonParser) scanOpenObject() error {
 }
 
 func (s *jsonParser) scanOpenArray() error {
-	if s.buf[s.offset] == '[' {
+	if s.is('[') {
 		s.offset++
 	} else {
 		return s.expected("[")
@@ -196,52 +205,51 @@ func (s *jsonParser) scanNull() error {
 	return s.skipSpace()
 }
 
-func (s *jsonParser) scanArray() error {
+//scanBrackets returns the length of the value at the start of buf,
+//up to and including the bracket that closes the first one.
+//Brackets inside strings do not count.
+func scanBrackets(buf []byte, open, close byte) (int, error) {
 	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '[' {
+	for i := 0; i < len(buf); i++ {
+		switch buf[i] {
+		case '"':
+			n, err := scanString(buf[i:])
+			if err != nil {
+				return 0, err
+			}
+			i += n - 1
+		case open:
 			count++
-		}
-		if c == ']' {
+		case close:
 			count--
-		}
-		if count == 0 {
-			index = i
-			break
+			if count == 0 {
+				return i + 1, nil
+			}
 		}
 	}
-	if count != 0 {
-		return s.expected("]")
+	return 0, io.ErrShortBuffer
+}
+
+func (s *jsonParser) scanArray() error {
+	n, err := scanBrackets(s.buf[s.offset:], '[', ']')
+	if err != nil {
+		return err
 	}
 	s.startValueOffset = s.offset
-	s.endValueOffset = s.offset + index + 1
-	s.offset += index + 1
+	s.endValueOffset = s.offset + n
+	s.offset += n
 	s.isValueArray = true
 	return s.skipSpace()
 }
 
 func (s *jsonParser) scanObject() error {
-	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '{' {
-			count++
-		}
-		if c == '}' {
-			count--
-		}
-		if count == 0 {
-			index = i
-			break
-		}
-	}
-	if count != 0 {
-		return s.expected("}")
+	n, err := scanBrackets(s.buf[s.offset:], '{', '}')
+	if err != nil {
+		return err
 	}
 	s.startValueOffset = s.offset
-	s.endValueOffset = s.offset + index + 1
-	s.offset += index + 1
+	s.endValueOffset = s.offset + n
+	s.offset += n
 	s.isValueObject = true
 	return s.skipSpace()
 }
@@ -317,6 +325,9 @@ func (s *jsonParser) scanNumber() error {
 }
 
 func (s *jsonParser) scanValue() error {
+	if s.offset >= len(s.buf) {
+		return io.ErrShortBuffer
+	}
 	c := s.buf[s.offset]
 	if isNumber(c) {
 		return s.scanNumber()
@@ -339,7 +350,7 @@ func (s *jsonParser) scanValue() error {
 }
 
 func (s *jsonParser) scanColon() error {
-	if s.buf[s.offset] != ':' {
+	if !s.is(':') {
 		return s.expected(":")
 	}
 	s.offset++
@@ -347,21 +358,21 @@ func (s *jsonParser) scanColon() error {
 }
 
 func (s *jsonParser) scanCloseObject() error {
-	if s.buf[s.offset] == '}' {
+	if s.is('}') {
 		return io.EOF
 	}
 	return s.expected("}")
 }
 
 func (s *jsonParser) scanCloseArray() error {
-	if s.buf[s.offset] == ']' {
+	if s.is(']') {
 		return io.EOF
 	}
 	return s.expected("]")
 }
 
 func (s *jsonParser) scanComma() error {
-	if s.buf[s.offset] != ',' {
+	if !s.is(',') {
 		return s.expected(",")
 	}
 	s.offset++
@@ -375,7 +386,7 @@ func (s *jsonParser) nextValueInArray() error {
 		}
 		s.firstArrayValue = false
 	} else {
-		if s.buf[s.offset] == ',' {
+		if s.is(',') {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
@@ -383,7 +394,7 @@ func (s *jsonParser) nextValueInArray() error {
 			return s.scanCloseArray()
 		}
 	}
-	if s.buf[s.offset] == ']' {
+	if s.is(']') {
 		return s.scanCloseArray()
 	}
 	return s.scanValue()
@@ -396,7 +407,7 @@ func (s *jsonParser) nextValueInObject() error {
 		}
 		s.firstObjectValue = false
 	} else {
-		if s.buf[s.offset] == ',' {
+		if s.is(',') {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
@@ -552,9 +563,9 @@ func (s *jsonParser) Init(buf []byte) error {
 	if err := s.skipSpace(); err != nil {
 		return err
 	}
-	if s.buf[s.offset] == '{' {
+	if s.is('{') {
 		//do nothing
-	} else if s.buf[s.offset] == '[' {
+	} else if s.is('[') {
 		if err := s.scanValue(); err != nil {
 			return err
 		}
-- 
2.43.0


From cf31a7b2aba3bedfa7f3881f9c62edfdc7482381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 10/35] fix: parser/xml: an unclosed element at the end of the
 input is an error

---
 parser/xml/xml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/xml/xml.go b/parser/xml/xml.go
index c43616c..d3cda7b 100644
--- a/parser/xml/xml.go
+++ b/parser/xml/xml.go
@@ -244,6 +244,9 @@ func (d *Decoder) Token() (t Token, err error) {
 		t = d.nextToken
 		d.nextToken = nil
 	} else if t, err = d.rawToken(); err != nil {
+		if err == io.EOF && d.stk != nil && d.stk.kind != stkEOF {
+			err = d.syntaxError("unexpected EOF")
+		}
 		return
 	}
 
-- 
2.43.0


From 620ce9a4ac39d2ac8e154078ded67623f5276953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 11/35] fix: parser/xml: leaving an element early,
 reinitialising, processing instructions and bytes

---
 parser/xml/parser.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index e731336..37fb5b2 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -34,6 +34,7 @@ type xmlParser struct {
 	attrIndex  int
 	attrValue  bool
 	attrFirst  bool
+	err        error
 	attrPrefix string
 	elemPrefix string
 	textPrefix string
@@ -80,12 +81,18 @@ func WithTextPrefix(e string) func(x *xmlParser) {
 	}
 }
 
-var procInstPattern = regexp.MustCompile(`<\?.*\?>`)
+var procInstPattern = regexp.MustCompile(`^(\s*<\?(?s:.*?)\?>)+`)
 
 func (p *xmlParser) Init(buf []byte) error {
 	buf = procInstPattern.ReplaceAll(buf, []byte{})
 	buf = bytes.TrimSpace(buf)
 	p.buf = buf
+	p.tok = nil
+	p.attrs = nil
+	p.attrIndex = 0
+	p.attrValue = false
+	p.attrFirst = false
+	p.err = nil
 	p.dec = NewDecoder(NewBuffer(buf))
 	p.dec.Strict = false
 	return nil
@@ -108,6 +115,9 @@ func (p *xmlParser) Next() (err error) {
 			return io.EOF
 		}
 	}
+	if p.err != nil {
+		return p.err
+	}
 	if p.tok == nil {
 		if p.attrs != nil {
 			p.attrIndex++
@@ -219,7 +229,7 @@ func (p *xmlParser) String() (string, error) {
 
 func (p *xmlParser) Bytes() ([]byte, error) {
 	if c, ok := p.tok.(CharData); ok {
-		return []byte(c), nil
+		return []byte(c.Copy()), nil
 	}
 	return nil, parser.ErrNotBytes
 }
@@ -232,17 +242,16 @@ func (p *xmlParser) Up() {
 			return
 		}
 	}
-	if _, ok := p.tok.(EndElement); ok {
-		p.tok = nil
-		p.attrs = nil
-		p.attrIndex = 0
-		return
+	if _, ok := p.tok.(StartElement); ok && p.err == nil {
+		// the current element was not entered
+		p.err = p.dec.Skip()
 	}
-	if err := p.dec.Skip(); err != nil {
-		if err != io.EOF {
-			panic(err)
-		}
+	if _, ok := p.tok.(EndElement); !ok && p.err == nil {
+		p.err = p.dec.Skip()
 	}
+	p.tok = nil
+	p.attrs = nil
+	p.attrIndex = 0
 }
 
 func (p *xmlParser) Down() {
-- 
2.43.0


From 767504936226ba5a2bd8726e705ec85478b5f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 12/35] fix: parser/proto: lengths beyond the buffer, negative
 sint32 and labels of packed elements

---
 parser/proto/proto.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 8866993..25a36ac 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -71,11 +71,23 @@ func length(wireType int, buf []byte) (prefix int, l int, err error) {
 		_, n2, err := uvarint(buf)
 		return 0, n2, err
 	case 1:
+		if len(buf) < 8 {
+			return 0, 0, io.ErrShortBuffer
+		}
 		return 0, 8, nil
 	case 2:
 		l, n2, err := uvarint(buf)
-		return n2, int(l), err
+		if err != nil {
+			return 0, 0, err
+		}
+		if l > uint64(len(buf)-n2) {
+			return 0, 0, io.ErrShortBuffer
+		}
+		return n2, int(l), nil
 	case 5:
+		if len(buf) < 4 {
+			return 0, 0, io.ErrShortBuffer
+		}
 		return 0, 4, nil
 	}
 	return 0, 0, errUnknownWireType
@@ -370,7 +382,7 @@ func (s *protoParser) Bool() (bool, error) {
 
 func (s *protoParser) String() (string, error) {
 	if !s.isLeaf {
-		if s.fieldNames && !s.inRepeated {
+		if s.fieldNames && !s.inRepeated && !s.inPacked {
 			return s.field.GetName(), nil
 		}
 		return "", parser.ErrNotString
@@ -465,7 +477,7 @@ func (s *protoParser) decodeSint32() (int32, error) {
 	if n <= 0 {
 		return 0, fmt.Errorf("decodeVarint n = %d", n)
 	}
-	return int32((uint32(v) >> 1) ^ uint32(((v&1)<<31)>>31)), nil
+	return int32(uint32(v)>>1) ^ -int32(v&1), nil
 }
 
 func (s *protoParser) decodeSint64() (int64, error) {
-- 
2.43.0


From 09ed191fc66c1f4fe82640af94f7016236b117ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 13/35] fix: parser/proto: do not append to the fields of the
 descriptor

---
 parser/proto/desc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto/desc.go b/parser/proto/desc.go
index ff9a3b8..abeaf97 100644
--- a/parser/proto/desc.go
+++ b/parser/proto/desc.go
@@ -112,7 +112,7 @@ func (this *descMap) visit(pkgName string, msg *descriptor.DescriptorProto) erro
 	fields := msg.GetField()
 	if msg.HasExtension() {
 		exts := this.findExts(pkgName, msg.GetName())
-		fields = append(fields, exts...)
+		fields = append(fields[:len(fields):len(fields)], exts...)
 	}
 	for i, f := range fields {
 		if _, ok := this.msgToField[msg]; !ok {
-- 
2.43.0


From 3acaff35087e15d350850d2a8ae3cf6e3b09b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 14/35] fix: parser/reflect: labels of elements, and bytes of
 small integers

---
 parser/reflect/reflect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/reflect/reflect.go b/parser/reflect/reflect.go
index ea52340..05745e0 100644
--- a/parser/reflect/reflect.go
+++ b/parser/reflect/reflect.go
@@ -160,6 +160,9 @@ func (s *reflectParser) Bool() (bool, error) {
 }
 
 func (s *reflectParser) String() (string, error) {
+	if s.isArray {
+		return "", parser.ErrNotString
+	}
 	if !s.isLeaf {
 		return s.typ.Name, nil
 	}
@@ -175,7 +178,7 @@ func (s *reflectParser) Bytes() ([]byte, error) {
 	if s.isLeaf {
 		value := s.getValue()
 		switch value.Kind() {
-		case reflect.Slice, reflect.Uint8, reflect.Int8:
+		case reflect.Slice:
 			return value.Bytes(), nil
 		}
 	}
-- 
2.43.0


From 15b8ea4af3a8b9c3e754ed4f14c64888ffdeb49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 15/35] fix: encode/proto: source errors, recursive messages,
 small buffers, packed fields and values that do not fit

---
 encode/proto/proto.go | 238 +++++++++++++++++++++++++++++-------------
 1 file changed, 166 insertions(+), 72 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 18f293d..af86eb2 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -22,6 +22,8 @@
 package proto
 
 import (
+	"encoding/binary"
+	"fmt"
 	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
 	"github.com/katydid/katydid/parser"
 	protoparser "github.com/katydid/katydid/parser/proto"
@@ -42,7 +44,12 @@ func NewEncoder(desc *descriptor.FileDescriptorSet, pkgName, msgName string) (En
 	if err != nil {
 		return nil, err
 	}
-	return &encoder{msg: newMsg(descMap, descMap.GetRoot())}, nil
+	b := &builder{desc: descMap, msgs: make(map[*descriptor.DescriptorProto]*msg)}
+	root, err := b.newMsg(descMap.GetRoot())
+	if err != nil {
+		return nil, err
+	}
+	return &encoder{msg: root}, nil
 }
 
 type encoder struct {
@@ -67,60 +74,87 @@ type fieldEncoder interface {
 	encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error)
 }
 
-func newMsg(desc protoparser.DescMap, protomsg *descriptor.DescriptorProto) *msg {
-	msg := &msg{make(map[string]fieldEncoder)}
-	for _, f := range protomsg.GetField() {
-		fieldEnc := newFieldEncoder(desc, f)
-		msg.fieldEncoders[f.GetName()] = fieldEnc
+//builder creates one msg for each message descriptor, since messages can be recursive.
+type builder struct {
+	desc protoparser.DescMap
+	msgs map[*descriptor.DescriptorProto]*msg
+}
+
+func (b *builder) newMsg(protomsg *descriptor.DescriptorProto) (*msg, error) {
+	if m, ok := b.msgs[protomsg]; ok {
+		return m, nil
 	}
-	return msg
+	m := &msg{make(map[string]fieldEncoder)}
+	b.msgs[protomsg] = m
+	for _, f := range b.desc.LookupFields(protomsg) {
+		fieldEnc, err := b.newFieldEncoder(f)
+		if err != nil {
+			return nil, err
+		}
+		m.fieldEncoders[f.GetName()] = fieldEnc
+	}
+	return m, nil
+}
+
+//keyOf returns the key of a single, so not packed, value of the field.
+func keyOf(f *descriptor.FieldDescriptorProto) []byte {
+	key := make([]byte, maxVarintSize)
+	return key[:binary.PutUvarint(key, uint64(uint32(f.GetNumber())<<3|uint32(f.WireType())))]
 }
 
-func newFieldEncoder(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func (b *builder) newFieldEncoder(f *descriptor.FieldDescriptorProto) (fieldEncoder, error) {
+	fieldEnc, err := b.newSingleField(f)
+	if err != nil {
+		return nil, err
+	}
 	if f.IsRepeated() {
-		return newRepeatedField(desc, f)
+		return &repeatedField{fieldEnc: fieldEnc}, nil
 	}
-	return newSingleField(desc, f)
+	return fieldEnc, nil
 }
 
-func newSingleField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func (b *builder) newSingleField(f *descriptor.FieldDescriptorProto) (fieldEncoder, error) {
 	switch f.GetType() {
 	case descriptor.FieldDescriptorProto_TYPE_DOUBLE:
-		return newDoubleField(f)
+		return newDoubleField(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_FLOAT:
-		return newFloatField(f)
+		return newFloatField(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_INT64:
-		return newIntField(f)
+		return newIntField(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_UINT64:
-		return newUintField(f)
+		return newUintField(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_INT32:
-		return newIntField(f)
+		return newInt32Field(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_FIXED64:
-		return newFixed64UintField(f)
+		return newFixed64UintField(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_FIXED32:
-		return newFixed32UintField(f)
+		return newFixed32UintField(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_BOOL:
-		return newBoolField(f)
+		return newBoolField(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_STRING:
-		return newStringField(f)
+		return newStringField(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_MESSAGE:
-		return newMsgField(desc, f, desc.LookupMessage(f))
+		m, err := b.newMsg(b.desc.LookupMessage(f))
+		if err != nil {
+			return nil, err
+		}
+		return &msgField{keyOf(f), m}, nil
 	case descriptor.FieldDescriptorProto_TYPE_BYTES:
-		return newBytesField(f)
+		return newBytesField(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_UINT32:
-		return newUintField(f)
+		return newUint32Field(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_ENUM:
-		return newIntField(f)
+		return newInt32Field(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_SFIXED32:
-		return newFixed32IntField(f)
+		return newFixed32IntField(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_SFIXED64:
-		return newFixed64IntField(f)
+		return newFixed64IntField(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_SINT32:
-		return newSint32Field(f)
+		return newSint32Field(f), nil
 	case descriptor.FieldDescriptorProto_TYPE_SINT64:
-		return newSint64Field(f)
+		return newSint64Field(f), nil
 	}
-	panic("unsupported field type " + f.GetType().String())
+	return nil, fmt.Errorf("encode/proto: unsupported field type %s", f.GetType().String())
 }
 
 func (this *msg) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
@@ -132,6 +166,9 @@ func (this *msg) encode(buf []byte, offset int, p parser.Interface) ([]byte, int
 				return nil, 0, err
 			}
 		}
+		if p.IsLeaf() {
+			continue //skip value
+		}
 		name, err := p.String()
 		if err != nil {
 			return nil, 0, err
@@ -150,17 +187,9 @@ func (this *msg) encode(buf []byte, offset int, p parser.Interface) ([]byte, int
 }
 
 type repeatedField struct {
-	key      []byte
 	fieldEnc fieldEncoder
 }
 
-func newRepeatedField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) *repeatedField {
-	return &repeatedField{
-		key:      f.GetKey(),
-		fieldEnc: newSingleField(desc, f),
-	}
-}
-
 func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	for {
 		if err := p.Next(); err != nil {
@@ -170,6 +199,9 @@ func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([
 				return nil, 0, err
 			}
 		}
+		if p.IsLeaf() {
+			return nil, 0, fmt.Errorf("encode/proto: expected an index, but got a value")
+		}
 		_, err := p.Int()
 		if err != nil {
 			return nil, 0, err
@@ -183,19 +215,13 @@ func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([
 	}
 }
 
-func newMsgField(desc protoparser.DescMap, field *descriptor.FieldDescriptorProto, msg *descriptor.DescriptorProto) *msgField {
-	return &msgField{
-		key: field.GetKey(),
-		msg: newMsg(desc, msg),
-	}
-}
-
 type msgField struct {
 	key []byte
 	msg *msg
 }
 
 func (this *msgField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
+	buf = checkSize(buf, offset, 20)
 	msginitoff := offset + 20
 	msgbuf, msgfinaloff, err := this.msg.encode(buf, msginitoff, p)
 	if err != nil {
@@ -208,6 +234,10 @@ func (this *msgField) encode(buf []byte, offset int, p parser.Interface) ([]byte
 	return buf, offset, nil
 }
 
+func errOverflow(v interface{}) error {
+	return fmt.Errorf("encode/proto: %d does not fit in 32 bits", v)
+}
+
 func checkSize(buf []byte, offset int, size int) []byte {
 	if offset+size > len(buf) {
 		newbuf := make([]byte, len(buf)*3+size+1)
@@ -257,7 +287,7 @@ func safeCopy(dst []byte, offset int, src []byte) ([]byte, int) {
 }
 
 func newDoubleField(f *descriptor.FieldDescriptorProto) *doubleField {
-	return &doubleField{f.GetKey()}
+	return &doubleField{keyOf(f)}
 }
 
 type doubleField struct {
@@ -266,7 +296,10 @@ type doubleField struct {
 
 func (this *doubleField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -281,7 +314,7 @@ func (this *doubleField) encode(buf []byte, offset int, p parser.Interface) ([]b
 }
 
 func newFloatField(f *descriptor.FieldDescriptorProto) *floatField {
-	return &floatField{f.GetKey()}
+	return &floatField{keyOf(f)}
 }
 
 type floatField struct {
@@ -290,7 +323,10 @@ type floatField struct {
 
 func (this *floatField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -305,16 +341,24 @@ func (this *floatField) encode(buf []byte, offset int, p parser.Interface) ([]by
 }
 
 func newIntField(f *descriptor.FieldDescriptorProto) *intField {
-	return &intField{f.GetKey()}
+	return &intField{keyOf(f), false}
+}
+
+func newInt32Field(f *descriptor.FieldDescriptorProto) *intField {
+	return &intField{keyOf(f), true}
 }
 
 type intField struct {
-	key []byte
+	key  []byte
+	is32 bool
 }
 
 func (this *intField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -324,21 +368,32 @@ func (this *intField) encode(buf []byte, offset int, p parser.Interface) ([]byte
 	if err != nil {
 		return nil, 0, err
 	}
+	if this.is32 && int64(int32(v)) != v {
+		return nil, 0, errOverflow(v)
+	}
 	buf, offset = safeVarint(buf, offset, uint64(v))
 	return buf, offset, nil
 }
 
 func newUintField(f *descriptor.FieldDescriptorProto) *uintField {
-	return &uintField{f.GetKey()}
+	return &uintField{keyOf(f), false}
+}
+
+func newUint32Field(f *descriptor.FieldDescriptorProto) *uintField {
+	return &uintField{keyOf(f), true}
 }
 
 type uintField struct {
-	key []byte
+	key  []byte
+	is32 bool
 }
 
 func (this *uintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -348,12 +403,15 @@ func (this *uintField) encode(buf []byte, offset int, p parser.Interface) ([]byt
 	if err != nil {
 		return nil, 0, err
 	}
+	if this.is32 && uint64(uint32(v)) != v {
+		return nil, 0, errOverflow(v)
+	}
 	buf, offset = safeVarint(buf, offset, uint64(v))
 	return buf, offset, nil
 }
 
 func newFixed64UintField(f *descriptor.FieldDescriptorProto) *fixed64UintField {
-	return &fixed64UintField{f.GetKey()}
+	return &fixed64UintField{keyOf(f)}
 }
 
 type fixed64UintField struct {
@@ -362,7 +420,10 @@ type fixed64UintField struct {
 
 func (this *fixed64UintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -377,7 +438,7 @@ func (this *fixed64UintField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newFixed32UintField(f *descriptor.FieldDescriptorProto) *fixed32UintField {
-	return &fixed32UintField{f.GetKey()}
+	return &fixed32UintField{keyOf(f)}
 }
 
 type fixed32UintField struct {
@@ -386,7 +447,10 @@ type fixed32UintField struct {
 
 func (this *fixed32UintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -396,12 +460,15 @@ func (this *fixed32UintField) encode(buf []byte, offset int, p parser.Interface)
 	if err != nil {
 		return nil, 0, err
 	}
+	if uint64(uint32(v)) != v {
+		return nil, 0, errOverflow(v)
+	}
 	buf, offset = safeFixed32(buf, offset, uint32(v))
 	return buf, offset, nil
 }
 
 func newBoolField(f *descriptor.FieldDescriptorProto) *boolField {
-	return &boolField{f.GetKey()}
+	return &boolField{keyOf(f)}
 }
 
 type boolField struct {
@@ -410,7 +477,10 @@ type boolField struct {
 
 func (this *boolField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -429,7 +499,7 @@ func (this *boolField) encode(buf []byte, offset int, p parser.Interface) ([]byt
 }
 
 func newStringField(f *descriptor.FieldDescriptorProto) *stringField {
-	return &stringField{f.GetKey()}
+	return &stringField{keyOf(f)}
 }
 
 type stringField struct {
@@ -438,7 +508,10 @@ type stringField struct {
 
 func (this *stringField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -455,7 +528,7 @@ func (this *stringField) encode(buf []byte, offset int, p parser.Interface) ([]b
 }
 
 func newBytesField(f *descriptor.FieldDescriptorProto) *bytesField {
-	return &bytesField{f.GetKey()}
+	return &bytesField{keyOf(f)}
 }
 
 type bytesField struct {
@@ -464,7 +537,10 @@ type bytesField struct {
 
 func (this *bytesField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -480,7 +556,7 @@ func (this *bytesField) encode(buf []byte, offset int, p parser.Interface) ([]by
 }
 
 func newFixed64IntField(f *descriptor.FieldDescriptorProto) *fixed64IntField {
-	return &fixed64IntField{f.GetKey()}
+	return &fixed64IntField{keyOf(f)}
 }
 
 type fixed64IntField struct {
@@ -489,7 +565,10 @@ type fixed64IntField struct {
 
 func (this *fixed64IntField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -504,7 +583,7 @@ func (this *fixed64IntField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newFixed32IntField(f *descriptor.FieldDescriptorProto) *fixed32IntField {
-	return &fixed32IntField{f.GetKey()}
+	return &fixed32IntField{keyOf(f)}
 }
 
 type fixed32IntField struct {
@@ -513,7 +592,10 @@ type fixed32IntField struct {
 
 func (this *fixed32IntField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -523,12 +605,15 @@ func (this *fixed32IntField) encode(buf []byte, offset int, p parser.Interface)
 	if err != nil {
 		return nil, 0, err
 	}
+	if int64(int32(v)) != v {
+		return nil, 0, errOverflow(v)
+	}
 	buf, offset = safeFixed32(buf, offset, uint32(v))
 	return buf, offset, nil
 }
 
 func newSint32Field(f *descriptor.FieldDescriptorProto) *sint32Field {
-	return &sint32Field{f.GetKey()}
+	return &sint32Field{keyOf(f)}
 }
 
 type sint32Field struct {
@@ -537,7 +622,10 @@ type sint32Field struct {
 
 func (this *sint32Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -547,12 +635,15 @@ func (this *sint32Field) encode(buf []byte, offset int, p parser.Interface) ([]b
 	if err != nil {
 		return nil, 0, err
 	}
+	if int64(int32(v)) != v {
+		return nil, 0, errOverflow(v)
+	}
 	buf, offset = safeVarint(buf, offset, uint64((uint32(v)<<1)^uint32((int32(v)>>31))))
 	return buf, offset, nil
 }
 
 func newSint64Field(f *descriptor.FieldDescriptorProto) *sint64Field {
-	return &sint64Field{f.GetKey()}
+	return &sint64Field{keyOf(f)}
 }
 
 type sint64Field struct {
@@ -561,7 +652,10 @@ type sint64Field struct {
 
 func (this *sint64Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
-- 
2.43.0


From 029c07e99ef23e87f0390d1aa92e9087a145a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 16/35] fix: encode/reflect: errors instead of panics for
 source errors and for values of another type

---
 encode/reflect/reflect.go | 164 ++++++++++++++++++++++++++------------
 1 file changed, 114 insertions(+), 50 deletions(-)

diff --git a/encode/reflect/reflect.go b/encode/reflect/reflect.go
index 4703e2c..e5a09c3 100644
--- a/encode/reflect/reflect.go
+++ b/encode/reflect/reflect.go
@@ -26,6 +26,9 @@ import (
 //Encode encodes a parser.Interface into a go structure value.
 func Encode(p parser.Interface, v interface{}) error {
 	r := reflect.ValueOf(v)
+	if r.Kind() != reflect.Ptr || r.IsNil() {
+		return fmt.Errorf("expected pointer to struct")
+	}
 	return encodeStruct(p, r)
 }
 
@@ -44,10 +47,13 @@ func encodeStruct(p parser.Interface, v reflect.Value) error {
 			if err == io.EOF {
 				return nil
 			} else {
-				panic(err)
+				return err
 			}
 		}
 		if p.IsLeaf() {
+			if isNull(p) {
+				return errNull
+			}
 			return fmt.Errorf("struct: did not expect leaf")
 		}
 		name, err := p.String()
@@ -58,8 +64,12 @@ func encodeStruct(p parser.Interface, v reflect.Value) error {
 		if isPtr {
 			strct = v.Elem()
 		}
-		field := strct.FieldByName(name)
-		if !field.IsValid() {
+		structField, ok := strct.Type().FieldByName(name)
+		if !ok {
+			continue //skip field
+		}
+		field, err := strct.FieldByIndexErr(structField.Index)
+		if err != nil || !field.CanSet() {
 			continue //skip field
 		}
 		fieldKind := field.Kind()
@@ -73,27 +83,29 @@ func encodeStruct(p parser.Interface, v reflect.Value) error {
 		p.Down()
 		switch fieldKind {
 		case reflect.Struct:
-			if !p.IsLeaf() {
-				if fieldIsPtr {
-					field.Set(reflect.New(field.Type().Elem()))
-				}
-				if err := encodeStruct(p, field); err != nil {
+			value := field
+			if fieldIsPtr {
+				value = reflect.New(fieldType)
+			}
+			if err := encodeStruct(p, value); err != nil {
+				if err != errNull {
 					return err
 				}
+			} else if fieldIsPtr {
+				field.Set(value)
 			}
-		case reflect.Slice:
-			list, err := newList(p, fieldType)
-			if err != nil {
-				return err
-			}
-			field.Set(list)
 		default:
-
-			value, err := newValue(p, fieldType)
+			value, err := newSliceOrValue(p, fieldType)
 			if err != nil {
 				return err
 			}
-			field.Set(value)
+			if value.IsValid() {
+				if fieldIsPtr {
+					field.Set(reflect.New(fieldType))
+					field = field.Elem()
+				}
+				field.Set(value)
+			}
 		}
 		p.Up()
 	}
@@ -106,7 +118,7 @@ func newList(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
 			if err == io.EOF {
 				return list, nil
 			} else {
-				panic(err)
+				return reflect.ValueOf(nil), err
 			}
 		}
 		if p.IsLeaf() {
@@ -125,65 +137,117 @@ func newList(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
 			elemKind = elemType.Kind()
 		}
 		p.Down()
+		elem := reflect.New(typ.Elem()).Elem()
 		switch elemKind {
 		case reflect.Struct:
-			if !p.IsLeaf() {
-				elem := reflect.New(elemType).Elem()
-				if err := encodeStruct(p, elem); err != nil {
+			value := reflect.New(elemType)
+			if err := encodeStruct(p, value); err != nil {
+				if err != errNull {
 					return reflect.ValueOf(nil), err
 				}
-				if elemIsPtr {
-					elem = elem.Addr()
-				}
-				list = reflect.Append(list, elem)
+			} else if elemIsPtr {
+				elem.Set(value)
 			} else {
-				list = reflect.Append(list, reflect.Zero(typ.Elem()))
+				elem.Set(value.Elem())
 			}
-		case reflect.Slice:
-			newList, err := newList(p, elemType)
-			if err != nil {
-				return reflect.ValueOf(nil), err
-			}
-			list = reflect.Append(list, newList)
 		default:
-			elem, err := newValue(p, typ.Elem())
+			value, err := newSliceOrValue(p, elemType)
 			if err != nil {
 				return reflect.ValueOf(nil), err
 			}
-			list = reflect.Append(list, elem)
+			if value.IsValid() {
+				if elemIsPtr {
+					elem.Set(reflect.New(elemType))
+					elem.Elem().Set(value)
+				} else {
+					elem.Set(value)
+				}
+			}
 		}
+		list = reflect.Append(list, elem)
 		p.Up()
 	}
 }
 
+//newSliceOrValue returns a value of the given type, or an invalid value if there is none.
+func newSliceOrValue(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
+	if typ.Kind() == reflect.Slice && typ.Elem().Kind() != reflect.Uint8 {
+		return newList(p, typ)
+	}
+	return newValue(p, typ)
+}
+
+var errNull = fmt.Errorf("did not expect null")
+
+func isNull(p parser.Interface) bool {
+	var errs [6]error
+	_, errs[0] = p.Int()
+	_, errs[1] = p.Uint()
+	_, errs[2] = p.Double()
+	_, errs[3] = p.Bool()
+	_, errs[4] = p.String()
+	_, errs[5] = p.Bytes()
+	for _, err := range errs {
+		if err == nil {
+			return false
+		}
+	}
+	return true
+}
+
 func newValue(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
 	if err := p.Next(); err != nil {
 		if err == io.EOF {
 			return reflect.ValueOf(nil), nil
 		} else {
-			panic(err)
+			return reflect.ValueOf(nil), err
 		}
 	}
 	if !p.IsLeaf() {
 		return reflect.ValueOf(nil), fmt.Errorf("expected leaf")
 	}
-	if value, err := p.Int(); err == nil {
-		return reflect.ValueOf(value), nil
-	}
-	if value, err := p.Uint(); err == nil {
-		return reflect.ValueOf(value), nil
-	}
-	if value, err := p.Double(); err == nil {
-		return reflect.ValueOf(value), nil
+	if isNull(p) {
+		return reflect.ValueOf(nil), nil
 	}
-	if value, err := p.Bool(); err == nil {
-		return reflect.ValueOf(value), nil
+	v := reflect.New(typ).Elem()
+	overflow := false
+	var err error
+	switch typ.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		var value int64
+		value, err = p.Int()
+		overflow = v.OverflowInt(value)
+		v.SetInt(value)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		var value uint64
+		value, err = p.Uint()
+		overflow = v.OverflowUint(value)
+		v.SetUint(value)
+	case reflect.Float32, reflect.Float64:
+		var value float64
+		value, err = p.Double()
+		overflow = v.OverflowFloat(value)
+		v.SetFloat(value)
+	case reflect.Bool:
+		var value bool
+		value, err = p.Bool()
+		v.SetBool(value)
+	case reflect.String:
+		var value string
+		value, err = p.String()
+		v.SetString(value)
+	case reflect.Slice:
+		var value []byte
+		value, err = p.Bytes()
+		v.SetBytes(append([]byte{}, value...))
+	default:
+		err = fmt.Errorf("unsupported type %v", typ)
 	}
-	if value, err := p.String(); err == nil {
-		return reflect.ValueOf(value), nil
+	if err != nil {
+		return reflect.ValueOf(nil), err
 	}
-	if value, err := p.Bytes(); err == nil {
-		return reflect.ValueOf(value), nil
+	if overflow {
+		return reflect.ValueOf(nil), fmt.Errorf("value does not fit in %v", typ)
 	}
-	return reflect.ValueOf(nil), nil
+	return v, nil
 }
-- 
2.43.0


From 53c6642dd5d6491743860f11e4488dbf5af1aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 17/35] fix: parser/xml: report a read error inside text, not
 the part before it

---
 parser/xml/xml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/xml/xml.go b/parser/xml/xml.go
index d3cda7b..1acd3fd 100644
--- a/parser/xml/xml.go
+++ b/parser/xml/xml.go
@@ -956,6 +956,9 @@ Input:
 				}
 				return nil
 			}
+			if d.err != io.EOF {
+				return nil
+			}
 			break Input
 		}
 
-- 
2.43.0


From 5a0a998cd5f28622755cd626bf893f8051ec8197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:19 +0000
Subject: [PATCH 18/35] fix: parser/yaml: values of fields with a leading
 space, and empty elements

---
 parser/yaml/yaml.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 11c751c..0e7742b 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -305,7 +305,7 @@ type state struct {
 
 func (s *yamlParser) Bool() (bool, error) {
 	if s.isLeaf {
-		v := string(s.Value())
+		v := strings.TrimSpace(string(s.Value()))
 		if v == "true" {
 			return true, nil
 		}
@@ -320,9 +320,20 @@ func (s *yamlParser) Bytes() ([]byte, error) {
 	return nil, parser.ErrNotBytes
 }
 
+//number returns the text of a number.
+//Text with leading zeros, for example a telephone number, is not a number.
+func (s *yamlParser) number() string {
+	v := strings.TrimSpace(string(s.Value()))
+	digits := strings.TrimPrefix(v, "-")
+	if len(digits) > 1 && digits[0] == '0' && isDigit(digits[1]) {
+		return ""
+	}
+	return v
+}
+
 func (s *yamlParser) Double() (float64, error) {
 	if s.isLeaf {
-		v := string(s.Value())
+		v := s.number()
 		i, err := strconv.ParseFloat(v, 64)
 		return i, err
 	}
@@ -331,7 +342,7 @@ func (s *yamlParser) Double() (float64, error) {
 
 func (s *yamlParser) Int() (int64, error) {
 	if s.isLeaf {
-		v := string(s.Value())
+		v := s.number()
 		i, err := strconv.ParseInt(v, 10, 64)
 		if err != nil {
 			f, ferr := strconv.ParseFloat(v, 64)
@@ -372,7 +383,7 @@ func (s *yamlParser) String() (string, error) {
 
 func (s *yamlParser) Uint() (uint64, error) {
 	if s.isLeaf {
-		v := string(s.Value())
+		v := s.number()
 		i, err := strconv.ParseUint(v, 10, 64)
 		return uint64(i), err
 	}
@@ -484,7 +495,7 @@ func (s *yamlParser) peekNextLine() (*Line, error) {
 		for ; i < len(buf); i++ {
 			if buf[i] == '\n' {
 				return &Line{
-						isArray: true, indent: indent,
+						isArray: true, indent: indent, nameStart: s.offset + i,
 					},
 					nil
 			}
@@ -663,7 +674,7 @@ func (s *yamlParser) scanLine() (*Line, error) {
 			if buf[i] == '\n' {
 				s.offset += i
 				return &Line{
-						isArray: true, indent: indent,
+						isArray: true, indent: indent, nameStart: s.offset,
 					},
 					nil
 			}
-- 
2.43.0


From 7fed6c1cbdfff84e3abe328b72706c0bbd4e87ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 19/35] fix: parser/yaml: an empty array element at the end of
 the buffer

---
 parser/yaml/yaml.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 0e7742b..5042210 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -503,6 +503,9 @@ func (s *yamlParser) peekNextLine() (*Line, error) {
 				break
 			}
 		}
+		if i == len(buf) {
+			return &Line{isArray: true, indent: indent, nameStart: s.offset + i}, nil
+		}
 	}
 
 	var name []byte
@@ -682,6 +685,10 @@ func (s *yamlParser) scanLine() (*Line, error) {
 				break
 			}
 		}
+		if i == len(buf) {
+			s.offset += i
+			return &Line{isArray: true, indent: indent, nameStart: s.offset}, nil
+		}
 	}
 
 	var name []byte
-- 
2.43.0


From 089041afb131b52dc9fa3f073843a9d7203383db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 20/35] fix: parser/yaml: a last array element that is a field
 without a value

---
 parser/yaml/yaml.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 5042210..c5c45c6 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -225,6 +225,7 @@ func (s *yamlParser) nextValueInArray() error {
 	if err != nil { // no next line
 		s.startValueOffset = line.nameStart
 		s.endValueOffset = s.offset
+		s.isValueObject = true
 		return nil
 	}
 
-- 
2.43.0


From 27143da462f64a3ae48beec55d9c12fe7697d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 21/35] fix: funcs: print constants so that they are parsed as
 the same value

---
 relapse/funcs/const.gen.go      |  8 ++++----
 relapse/funcs/funcs-gen/main.go | 24 ++++++++++++++++++------
 relapse/funcs/sprint.go         | 14 ++++++++++++++
 3 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/relapse/funcs/const.gen.go b/relapse/funcs/const.gen.go
index d92aa08..58627c0 100644
--- a/relapse/funcs/const.gen.go
+++ b/relapse/funcs/const.gen.go
@@ -39,7 +39,7 @@ func (this *constDouble) Hash() uint64 {
 }
 
 func (this *constDouble) String() string {
-	return fmt.Sprintf("double(%f)", this.v)
+	return fmt.Sprintf("double(%s)", formatDouble(this.v))
 }
 
 // TrimDouble turns functions into constants, if they can be evaluated at compile time.
@@ -239,7 +239,7 @@ func (this *constString) Hash() uint64 {
 }
 
 func (this *constString) String() string {
-	return fmt.Sprintf("`%s`", this.v)
+	return fmt.Sprintf("%s", quote(this.v))
 }
 
 // TrimString turns functions into constants, if they can be evaluated at compile time.
@@ -341,7 +341,7 @@ func (this *constDoubles) Hash() uint64 {
 func (this *constDoubles) String() string {
 	ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("double(%f)", this.v[i])
+		ss[i] = fmt.Sprintf("double(%s)", formatDouble(this.v[i]))
 	}
 	return "[]double{" + strings.Join(ss, ",") + "}"
 }
@@ -557,7 +557,7 @@ func (this *constStrings) Hash() uint64 {
 func (this *constStrings) String() string {
 	ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("`%s`", this.v[i])
+		ss[i] = fmt.Sprintf("%s", quote(this.v[i]))
 	}
 	return "[]string{" + strings.Join(ss, ",") + "}"
 }
diff --git a/relapse/funcs/funcs-gen/main.go b/relapse/funcs/funcs-gen/main.go
index bd002f3..99d3dac 100644
--- a/relapse/funcs/funcs-gen/main.go
+++ b/relapse/funcs/funcs-gen/main.go
@@ -169,9 +169,9 @@ func (this *const{{.CType}}) Hash() uint64 {
 func (this *const{{.CType}}) String() string {
 	{{if .ListType}}ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("{{.String}}", this.v[i])
+		ss[i] = fmt.Sprintf("{{.String}}", {{.Format "this.v[i]"}})
 	}
-	return "[]{{.ListType}}{" + strings.Join(ss, ",") + "}"{{else}}return fmt.Sprintf("{{.String}}", this.v){{end}}
+	return "[]{{.ListType}}{" + strings.Join(ss, ",") + "}"{{else}}return fmt.Sprintf("{{.String}}", {{.Format "this.v"}}){{end}}
 }
 
 // Trim{{.CType}} turns functions into constants, if they can be evaluated at compile time.
@@ -201,6 +201,18 @@ func (this *conster) Hash() uint64 {
 	return deriveHashStr(this.CType)
 }
 
+//Format returns the code that is given to Sprintf for the value v.
+//Printed constants are parsed again, so no value may be lost.
+func (this *conster) Format(v string) string {
+	switch this.CType {
+	case "Double", "Doubles":
+		return "formatDouble(" + v + ")"
+	case "String", "Strings":
+		return "quote(" + v + ")"
+	}
+	return v
+}
+
 const listStr = `
 type listOf{{.FuncType}} struct {
 	List []{{.FuncType}}
@@ -882,17 +894,17 @@ func main() {
 		"ListOfBytes",
 	})
 	gen(constStr, "const.gen.go", []interface{}{
-		&conster{"Double", "float64", "double(%f)", ""},
+		&conster{"Double", "float64", "double(%s)", ""},
 		&conster{"Int", "int64", "int(%d)", ""},
 		&conster{"Uint", "uint64", "uint(%d)", ""},
 		&conster{"Bool", "bool", "%v", ""},
-		&conster{"String", "string", "`%s`", ""},
+		&conster{"String", "string", "%s", ""},
 		&conster{"Bytes", "[]byte", "%#v", ""},
-		&conster{"Doubles", "[]float64", "double(%f)", "double"},
+		&conster{"Doubles", "[]float64", "double(%s)", "double"},
 		&conster{"Ints", "[]int64", "int(%d)", "int"},
 		&conster{"Uints", "[]uint64", "uint(%d)", "uint"},
 		&conster{"Bools", "[]bool", "%v", "bool"},
-		&conster{"Strings", "[]string", "`%s`", "string"},
+		&conster{"Strings", "[]string", "%s", "string"},
 		&conster{"ListOfBytes", "[][]byte", "%#v", "[]byte"},
 	}, `"fmt"`, `"strings"`, `"reflect"`)
 	gen(listStr, "list.gen.go", []interface{}{
diff --git a/relapse/funcs/sprint.go b/relapse/funcs/sprint.go
index f6ca3d2..b3d8c6a 100644
--- a/relapse/funcs/sprint.go
+++ b/relapse/funcs/sprint.go
@@ -15,6 +15,7 @@
 package funcs
 
 import (
+	"strconv"
 	"strings"
 )
 
@@ -27,6 +28,19 @@ func sjoin(s ...Stringer) string {
 	return strings.Join(ss, ",")
 }
 
+//formatDouble returns the shortest text that is parsed as the same value.
+func formatDouble(v float64) string {
+	return strconv.FormatFloat(v, 'f', -1, 64)
+}
+
+//quote returns the string as a literal.
+func quote(s string) string {
+	if strconv.CanBackquote(s) {
+		return "`" + s + "`"
+	}
+	return strconv.Quote(s)
+}
+
 //Sprint returns the string printout of the function.
 func Sprint(s Stringer) string {
 	if shorthand, ok := s.(interface {
-- 
2.43.0


From 9de8bcb5a681ae5b637617d6d2b8e9bb008d40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 22/35] fix: parser/xml: Reset starts again with the buffer
 that was given to Init

---
 parser/xml/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index 37fb5b2..9846e47 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -84,9 +84,9 @@ func WithTextPrefix(e string) func(x *xmlParser) {
 var procInstPattern = regexp.MustCompile(`^(\s*<\?(?s:.*?)\?>)+`)
 
 func (p *xmlParser) Init(buf []byte) error {
+	p.buf = buf
 	buf = procInstPattern.ReplaceAll(buf, []byte{})
 	buf = bytes.TrimSpace(buf)
-	p.buf = buf
 	p.tok = nil
 	p.attrs = nil
 	p.attrIndex = 0
-- 
2.43.0


From ab57782555d1d843e3d5743393a6cf8b07bdc59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 23/35] fix: interp: keep the order of the operands of a
 comparison

The simplifier parsed the shorthand of ge(0, $int), >= 0, which is the
opposite comparison: ge($int, 0).
---
 relapse/intern/pattern.go  | 3 ++-
 relapse/interp/simplify.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/relapse/intern/pattern.go b/relapse/intern/pattern.go
index ab91728..f86a41f 100644
--- a/relapse/intern/pattern.go
+++ b/relapse/intern/pattern.go
@@ -68,7 +68,8 @@ func newASTPattern(p *Pattern) (*ast.Pattern, error) {
 		return ast.NewEmpty(), nil
 	case Node:
 		if isEmpty(p.Patterns[0]) {
-			exprStr := funcs.Sprint(p.Func)
+			//The shorthand is not used, since it does not keep the order of the operands.
+			exprStr := "->" + p.Func.String()
 			expr, err := parser.NewParser().ParseExpr(exprStr)
 			if err != nil {
 				return nil, err
diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index b9236b2..fcae68b 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -127,7 +127,8 @@ func (this *simplifier) simplify(p *ast.Pattern, top bool) *ast.Pattern {
 		if funcs.IsFalse(b) {
 			return emptyset
 		}
-		e, err := parser.ParseExpr(funcs.Sprint(b))
+		//The shorthand is not used, since it does not keep the order of the operands.
+		e, err := parser.ParseExpr("->" + b.String())
 		if err != nil {
 			//Don't simplify if there is an error to keep this function signature simple.
 			return p
-- 
2.43.0


From 013258738d5bd2fac498a981f4ea7bd0c78bbc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:13 +0000
Subject: [PATCH 24/35] fix: encode/proto: a value that is too large for a
 float field is an error

---
 encode/proto/proto.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index af86eb2..6f45e0b 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -235,7 +235,7 @@ func (this *msgField) encode(buf []byte, offset int, p parser.Interface) ([]byte
 }
 
 func errOverflow(v interface{}) error {
-	return fmt.Errorf("encode/proto: %d does not fit in 32 bits", v)
+	return fmt.Errorf("encode/proto: %v does not fit in 32 bits", v)
 }
 
 func checkSize(buf []byte, offset int, size int) []byte {
@@ -336,7 +336,11 @@ func (this *floatField) encode(buf []byte, offset int, p parser.Interface) ([]by
 	if err != nil {
 		return nil, 0, err
 	}
-	buf, offset = safeFixed32(buf, offset, math.Float32bits(float32(v)))
+	f := float32(v)
+	if math.IsInf(float64(f), 0) && !math.IsInf(v, 0) {
+		return nil, 0, errOverflow(v)
+	}
+	buf, offset = safeFixed32(buf, offset, math.Float32bits(f))
 	return buf, offset, nil
 }
 
-- 
2.43.0


From 5129c340503341ff92b188b94b60037d4cb642d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 25/35] fix: intern: do not reorder the patterns of a merged
 pattern in place

---
 relapse/intern/construct.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index c064519..1b8dfe7 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -366,7 +366,11 @@ func (c *construct) MergeOr(l, r *Pattern) (*Pattern, error) {
 	} else {
 		right = []*Pattern{r}
 	}
-	return c.NewOr(append(left, right...))
+	// NewOr orders its patterns in place, so it does not get the patterns of l.
+	ps := make([]*Pattern, 0, len(left)+len(right))
+	ps = append(ps, left...)
+	ps = append(ps, right...)
+	return c.NewOr(ps)
 }
 
 func (c *construct) NewOr(ps []*Pattern) (*Pattern, error) {
@@ -507,7 +511,11 @@ func (c *construct) MergeAnd(l, r *Pattern) (*Pattern, error) {
 	} else {
 		right = []*Pattern{r}
 	}
-	return c.NewAnd(append(left, right...))
+	// NewAnd orders its patterns in place, so it does not get the patterns of l.
+	ps := make([]*Pattern, 0, len(left)+len(right))
+	ps = append(ps, left...)
+	ps = append(ps, right...)
+	return c.NewAnd(ps)
 }
 
 func (c *construct) NewAnd(ps []*Pattern) (*Pattern, error) {
-- 
2.43.0


From 174d44b5436382c73bb4c8f71bdb9451ae649fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 26/35] fix: ast: character, octal and hexadecimal elements of
 bytes have their values

---
 relapse/ast/util.go | 74 +++++++++++++++------------------------------
 1 file changed, 24 insertions(+), 50 deletions(-)

diff --git a/relapse/ast/util.go b/relapse/ast/util.go
index b44569a..0ef7dee 100644
--- a/relapse/ast/util.go
+++ b/relapse/ast/util.go
@@ -21,7 +21,6 @@ import (
 	"github.com/katydid/katydid/relapse/types"
 	"strconv"
 	"strings"
-	"unicode/utf8"
 )
 
 //NewKeyword is a parser utility function that returns a Keyword given a space and a token.
@@ -172,7 +171,7 @@ func NewBytesTerminal(stringLit string) (*Terminal, error) {
 }
 
 func parseBytes(s string) ([]byte, error) {
-	byteElems := strings.Split(s[strings.Index(s, "{")+1:strings.LastIndex(s, "}")], ",")
+	byteElems := splitByteElems(s[strings.Index(s, "{")+1 : strings.LastIndex(s, "}")])
 	data := make([]byte, 0, len(byteElems))
 	for _, b := range byteElems {
 		s := strings.TrimSpace(b)
@@ -188,63 +187,38 @@ func parseBytes(s string) ([]byte, error) {
 	return data, nil
 }
 
-func hexToByte(c byte) byte {
-	if 'a' <= c && c <= 'f' {
-		return c - 'a' + 10
-	}
-	if 'A' <= c && c <= 'F' {
-		return c - 'A' + 10
+//splitByteElems splits on the commas that are not the character of a character literal.
+func splitByteElems(s string) []string {
+	elems := strings.Split(s, ",")
+	for i := 0; i+1 < len(elems); i++ {
+		if strings.TrimSpace(elems[i]) == "'" && strings.HasPrefix(elems[i+1], "'") {
+			elems[i] += "," + elems[i+1]
+			elems = append(elems[:i+1], elems[i+2:]...)
+		}
 	}
-	return c - '0'
-}
-
-func hexesToByte(a byte, b byte) byte {
-	aa, bb := hexToByte(a), hexToByte(b)
-	return byte(aa*16 + bb)
+	return elems
 }
 
 func parseByte(s string) (byte, error) {
-	if s[0] == '\'' {
-		r, _ := utf8.DecodeRune([]byte(s)[1:])
-		if r <= 255 {
-			return byte(r), nil
-		}
-		return 0, fmt.Errorf("rune too large %v", r)
-	} else if s[0] == '0' {
-		if len(s) == 1 {
-			return 0, nil
-		}
-		if s[1] == 'x' || s[1] == 'X' {
-			if len(s) == 4 {
-				return hexesToByte(s[2], s[3]), nil
-			} else if len(s) == 3 {
-				return hexToByte(s[2]), nil
-			}
-			return 0, fmt.Errorf("not a hex digit %v", s)
-		} else {
-			switch len(s) {
-			case 4:
-				o := (int(s[1]-'0') * 64) + (int(s[2]-'0') * 8) + int(s[3]-'0')
-				if o >= 255 {
-					return 0, fmt.Errorf("octal too large %d", o)
-				}
-				return byte(o), nil
-			case 3:
-				return byte((s[1]-'0')*8 + (s[2] - '0')), nil
-			case 2:
-				return byte(s[1] - '0'), nil
-			}
-			return 0, nil
-		}
+	if s[0] != '\'' {
+		i, err := strconv.ParseUint(s, 0, 8)
+		return byte(i), err
+	}
+	if len(s) < 3 {
+		return 0, fmt.Errorf("not a character %s", s)
 	}
-	i, err := strconv.Atoi(s)
+	s = s[1 : len(s)-1]
+	if s == "'" || s == `\"` {
+		return s[len(s)-1], nil
+	}
+	r, _, _, err := strconv.UnquoteChar(s, '\'')
 	if err != nil {
 		return 0, err
 	}
-	if i >= 0 && i <= 255 {
-		return byte(i), nil
+	if r > 255 {
+		return 0, fmt.Errorf("rune too large %v", r)
 	}
-	return 0, fmt.Errorf("int too large %d", i)
+	return byte(r), nil
 }
 
 //NewSDTName is a parser utility function that returns a NameExpr given a white space and a terminal value expression.
-- 
2.43.0


From caacdf7d69e96b3af5acbbbb810e5b472d5b08f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 27/35] fix: ast: octal and hexadecimal integer literals have
 their values

---
 relapse/ast/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/ast/util.go b/relapse/ast/util.go
index 0ef7dee..400d7bd 100644
--- a/relapse/ast/util.go
+++ b/relapse/ast/util.go
@@ -109,7 +109,7 @@ func ToString(s1 string) string {
 
 //NewIntTerminal is a parser utility function that parses the int value out of the input string and returns a Terminal of type int.
 func NewIntTerminal(slit string) (*Terminal, error) {
-	i, err := strconv.ParseInt(string(Strip(slit, "int")), 10, 64)
+	i, err := strconv.ParseInt(string(Strip(slit, "int")), 0, 64)
 	if err != nil {
 		return nil, err
 	}
@@ -127,7 +127,7 @@ func ToInt64(tok []byte) *int64 {
 
 //NewUintTerminal is a parser utility function that parses the uint value out of the input string and returns a Terminal of type uint.
 func NewUintTerminal(slit string) (*Terminal, error) {
-	i, err := strconv.ParseUint(string(Strip(slit, "uint")), 10, 64)
+	i, err := strconv.ParseUint(string(Strip(slit, "uint")), 0, 64)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a58c5bf46cb05eef52ccc981604f4be11f7d07bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 28/35] fix: parser/proto: a packed list after single elements
 of the same field is not one more element

---
 parser/proto/proto.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 25a36ac..1a9c957 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -211,14 +211,14 @@ func (s *protoParser) Next() error {
 		if err != nil {
 			return err
 		}
-		fieldNumber := int32(v >> 3)
-		if fieldNumber != s.field.GetNumber() {
+		wireType := int(v & 0x7)
+		// A packed list of the same field is not another element of this list.
+		if s.fieldsMap[v] != s.field || wireType != s.field.WireType() {
 			s.length = 0
 			s.isRepeated = false
 			return io.EOF
 		}
 		s.offset += n
-		wireType := int(v & 0x7)
 		n, l, err := length(wireType, s.buf[s.offset:])
 		if err != nil {
 			return err
-- 
2.43.0


From 0e73f3ec1a0369b6886a30f89d67259e53064707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 29/35] fix: mem: states without calls have no patterns for the
 children

---
 relapse/mem/ifs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/relapse/mem/ifs.go b/relapse/mem/ifs.go
index 62d184b..6a485cc 100644
--- a/relapse/mem/ifs.go
+++ b/relapse/mem/ifs.go
@@ -29,7 +29,8 @@ type ifExprs struct {
 }
 
 func newIfExprs(ifs []*intern.IfExpr) *ifExprs {
-	return &ifExprs{&ifNode{prev: funcs.BoolConst(true), ifs: ifs}}
+	// without ifs there are no patterns for the children
+	return &ifExprs{&ifNode{prev: funcs.BoolConst(true), ifs: ifs, ps: []*intern.Pattern{}}}
 }
 
 type ifNode struct {
-- 
2.43.0


From 9bc49b37075a639b08337afc2a51893c5a87c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 30/35] fix: parser/proto: messages are found by their full
 names

---
 parser/proto/desc.go | 54 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/parser/proto/desc.go b/parser/proto/desc.go
index abeaf97..91c0b44 100644
--- a/parser/proto/desc.go
+++ b/parser/proto/desc.go
@@ -42,6 +42,14 @@ type descMap struct {
 	root       *descriptor.DescriptorProto
 	fieldToMsg map[*descriptor.FieldDescriptorProto]*descriptor.DescriptorProto
 	msgToField map[*descriptor.DescriptorProto]map[uint64]*descriptor.FieldDescriptorProto
+	fullToMsg  map[string]*descriptor.DescriptorProto
+	declared   map[*descriptor.DescriptorProto]declaration
+}
+
+//declaration is where a message is declared.
+type declaration struct {
+	pkgName  string
+	fullName string
 }
 
 //NewDescriptorMap returns a map of the FileDescriptorSet starting at the message represented by the package name and message name.
@@ -55,11 +63,42 @@ func NewDescriptorMap(pkgName, msgName string, desc *descriptor.FileDescriptorSe
 		root:       root,
 		fieldToMsg: make(map[*descriptor.FieldDescriptorProto]*descriptor.DescriptorProto),
 		msgToField: make(map[*descriptor.DescriptorProto]map[uint64]*descriptor.FieldDescriptorProto),
+		fullToMsg:  make(map[string]*descriptor.DescriptorProto),
+		declared:   make(map[*descriptor.DescriptorProto]declaration),
+	}
+	for _, file := range desc.GetFile() {
+		scope := ""
+		if len(file.GetPackage()) > 0 {
+			scope = "." + file.GetPackage()
+		}
+		d.declare(file.GetPackage(), scope, file.GetMessageType())
 	}
 	err := d.visit(pkgName, root)
 	return d, err
 }
 
+//declare remembers the full names of the messages in the scope and of the messages that are nested in them.
+func (this *descMap) declare(pkgName string, scope string, msgs []*descriptor.DescriptorProto) {
+	for _, msg := range msgs {
+		fullName := scope + "." + msg.GetName()
+		this.fullToMsg[fullName] = msg
+		this.declared[msg] = declaration{pkgName, fullName}
+		this.declare(pkgName, fullName, msg.GetNestedType())
+	}
+}
+
+//findMessage returns the type of a field of the message and the package it is declared in.
+func (this *descMap) findMessage(pkgName string, msg *descriptor.DescriptorProto, f *descriptor.FieldDescriptorProto) (string, *descriptor.DescriptorProto) {
+	if newMsg, ok := this.fullToMsg[f.GetTypeName()]; ok {
+		return this.declared[newMsg].pkgName, newMsg
+	}
+	newPkgName, newMsgName := this.desc.FindMessage(pkgName, msg.GetName(), f.GetName())
+	if len(newMsgName) == 0 {
+		return "", nil
+	}
+	return newPkgName, this.desc.GetMessage(newPkgName, newMsgName)
+}
+
 func dotToUnderscore(r rune) rune {
 	if r == '.' {
 		return '_'
@@ -67,9 +106,10 @@ func dotToUnderscore(r rune) rune {
 	return r
 }
 
-func (this *descMap) findExts(pkgName string, msgName string) []*descriptor.FieldDescriptorProto {
+func (this *descMap) findExts(pkgName string, msg *descriptor.DescriptorProto) []*descriptor.FieldDescriptorProto {
 	exts := []*descriptor.FieldDescriptorProto{}
-	extendee := "." + pkgName + "." + msgName
+	msgName := msg.GetName()
+	extendee := this.declared[msg].fullName
 	for _, file := range this.desc.GetFile() {
 		for i, ext := range file.GetExtension() {
 			if strings.Map(dotToUnderscore, file.GetPackage()) == strings.Map(dotToUnderscore, pkgName) {
@@ -111,7 +151,7 @@ func (this *descMap) visit(pkgName string, msg *descriptor.DescriptorProto) erro
 	}
 	fields := msg.GetField()
 	if msg.HasExtension() {
-		exts := this.findExts(pkgName, msg.GetName())
+		exts := this.findExts(pkgName, msg)
 		fields = append(fields[:len(fields):len(fields)], exts...)
 	}
 	for i, f := range fields {
@@ -123,13 +163,9 @@ func (this *descMap) visit(pkgName string, msg *descriptor.DescriptorProto) erro
 			this.msgToField[msg][k] = fields[i]
 		}
 		if f.GetType() == descriptor.FieldDescriptorProto_TYPE_MESSAGE {
-			newPkgName, newMsgName := this.desc.FindMessage(pkgName, msg.GetName(), f.GetName())
-			if len(newMsgName) == 0 {
-				return &errUnknown{pkgName + "." + msg.GetName() + "." + f.GetName()}
-			}
-			newMsg := this.desc.GetMessage(newPkgName, newMsgName)
+			newPkgName, newMsg := this.findMessage(pkgName, msg, f)
 			if newMsg == nil {
-				return &errUnknown{newPkgName + "." + newMsgName}
+				return &errUnknown{pkgName + "." + msg.GetName() + "." + f.GetName()}
 			}
 			this.fieldToMsg[fields[i]] = newMsg
 			if _, ok := this.msgToField[newMsg]; ok {
-- 
2.43.0


From 2af7c4ade081dd06c49abc4f81f2f0e2e6c9aa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 31/35] fix: parser/proto: extensions that are declared inside
 messages are known

---
 parser/proto/desc.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/proto/desc.go b/parser/proto/desc.go
index 91c0b44..8043f8d 100644
--- a/parser/proto/desc.go
+++ b/parser/proto/desc.go
@@ -111,7 +111,7 @@ func (this *descMap) findExts(pkgName string, msg *descriptor.DescriptorProto) [
 	msgName := msg.GetName()
 	extendee := this.declared[msg].fullName
 	for _, file := range this.desc.GetFile() {
-		for i, ext := range file.GetExtension() {
+		for _, ext := range declaredExts(file.GetExtension(), file.GetMessageType()) {
 			if strings.Map(dotToUnderscore, file.GetPackage()) == strings.Map(dotToUnderscore, pkgName) {
 				if !(ext.GetExtendee() == msgName || ext.GetExtendee() == extendee) {
 					continue
@@ -121,12 +121,21 @@ func (this *descMap) findExts(pkgName string, msg *descriptor.DescriptorProto) [
 					continue
 				}
 			}
-			exts = append(exts, file.Extension[i])
+			exts = append(exts, ext)
 		}
 	}
 	return exts
 }
 
+//declaredExts returns the extensions and those that are declared inside the messages.
+func declaredExts(exts []*descriptor.FieldDescriptorProto, msgs []*descriptor.DescriptorProto) []*descriptor.FieldDescriptorProto {
+	all := append([]*descriptor.FieldDescriptorProto{}, exts...)
+	for _, msg := range msgs {
+		all = append(all, declaredExts(msg.GetExtension(), msg.GetNestedType())...)
+	}
+	return all
+}
+
 func couldBePacked(field *descriptor.FieldDescriptorProto) bool {
 	return field.IsRepeated() && field.IsScalar()
 }
-- 
2.43.0


From 9dd9926a2e00830cfebf3b0e1add8c786ddc6a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 32/35] fix: intern: nested alternatives and conjunctions are
 flattened

---
 relapse/intern/construct.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index 1b8dfe7..0c15d8e 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -373,7 +373,28 @@ func (c *construct) MergeOr(l, r *Pattern) (*Pattern, error) {
 	return c.NewOr(ps)
 }
 
+// flatten replaces the patterns of the type by their own patterns,
+// without which alternatives of alternatives are not found to be equal and every child adds more of them.
+func flatten(typ PatternType, ps []*Pattern) []*Pattern {
+	nested := func(p *Pattern) bool {
+		return p.Type == typ
+	}
+	if !deriveAny(nested, ps) {
+		return ps
+	}
+	flat := make([]*Pattern, 0, 2*len(ps))
+	for _, p := range ps {
+		if nested(p) {
+			flat = append(flat, p.Patterns...)
+		} else {
+			flat = append(flat, p)
+		}
+	}
+	return flat
+}
+
 func (c *construct) NewOr(ps []*Pattern) (*Pattern, error) {
+	ps = flatten(Or, ps)
 	if deriveAny(isZAny, ps) {
 		return c.NewZAny(), nil
 	}
@@ -519,6 +540,7 @@ func (c *construct) MergeAnd(l, r *Pattern) (*Pattern, error) {
 }
 
 func (c *construct) NewAnd(ps []*Pattern) (*Pattern, error) {
+	ps = flatten(And, ps)
 	if deriveAny(isNotZAny, ps) {
 		return c.NewNotZAny(), nil
 	}
-- 
2.43.0


From e4e5b13e5ac01f36951df76221100a0e3f6c02d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 33/35] fix: parser/proto: unknown fields are skipped in a loop
 and not by recursion

---
 parser/proto/proto.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 1a9c957..5151ba1 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -178,7 +178,18 @@ func (s *protoParser) Init(buf []byte) error {
 	return nil
 }
 
+//errUnknownField is returned by next after it has skipped a field that is not in the descriptor.
+var errUnknownField = fmt.Errorf("unknown field")
+
 func (s *protoParser) Next() error {
+	err := s.next()
+	for err == errUnknownField {
+		err = s.next()
+	}
+	return err
+}
+
+func (s *protoParser) next() error {
 	if s.isLeaf {
 		if s.hadLeaf {
 			return io.EOF
@@ -266,7 +277,7 @@ func (s *protoParser) Next() error {
 		s.field = field
 		return nil
 	}
-	return s.Next()
+	return errUnknownField
 }
 
 func (s *protoParser) skipRepeated() error {
-- 
2.43.0


From 44396e0c65b30db4ff3b973bcdd716303743391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 34/35] fix: parser/xml: nested elements are skipped in a loop
 and not by recursion

---
 parser/xml/read.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/xml/read.go b/parser/xml/read.go
index 3f17e8c..29a61fd 100644
--- a/parser/xml/read.go
+++ b/parser/xml/read.go
@@ -674,6 +674,7 @@ Loop:
 // It returns nil if it finds an end element matching the start
 // element; otherwise it returns an error describing the problem.
 func (d *Decoder) Skip() error {
+	depth := 0
 	for {
 		tok, err := d.Token()
 		if err != nil {
@@ -681,11 +682,12 @@ func (d *Decoder) Skip() error {
 		}
 		switch tok.(type) {
 		case StartElement:
-			if err := d.Skip(); err != nil {
-				return err
-			}
+			depth++
 		case EndElement:
-			return nil
+			if depth == 0 {
+				return nil
+			}
+			depth--
 		}
 	}
 }
-- 
2.43.0


From 6023d80b6454f7cc8dff8ff4262908bd27a5b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 35/35] fix: parser/reflect: Init forgets the levels that an
 earlier walk left open

---
 parser/reflect/reflect.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/reflect/reflect.go b/parser/reflect/reflect.go
index 05745e0..ff9592b 100644
--- a/parser/reflect/reflect.go
+++ b/parser/reflect/reflect.go
@@ -83,6 +83,7 @@ func NewReflectParser() ReflectParser {
 
 func (s *reflectParser) Init(value reflect.Value) ReflectParser {
 	s.state = newState(value)
+	s.stack = s.stack[:0]
 	return s
 }
 
-- 
2.43.0

