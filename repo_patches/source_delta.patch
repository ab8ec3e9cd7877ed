From bb79e6427d6a478ae6cc93280e84b903ec8ccd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 01/54] fix: keep the remaining clauses of sibling branches
 apart when splitting a matcher

---
 model/defs/matcher_def.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 09494fa..9450a39 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -162,7 +162,8 @@ func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [
 		}
 		return buildExprTree(node, tokens[index+1:], and)
 	} else { // operator.Value == &&
-		return buildExprTree(node, tokens[:index], append(and, tokens[index+1:]))
+		//limit the capacity, otherwise sibling branches would overwrite each other's remaining clauses
+		return buildExprTree(node, tokens[:index], append(and[:len(and):len(and)], tokens[index+1:]))
 	}
 }
 
-- 
2.43.0


From ed6379ce5c4c8236aeb2f034705f8d7ee84578ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 02/54] fix: support matchers with more than two alternatives

---
 model/matcher/matcher.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 47622fe..bd567f9 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -33,13 +33,21 @@ type MatcherNode struct {
 func NewMatcherNode(rule []string) *MatcherNode {
 	node := &MatcherNode{}
 	node.rule = rule
-	node.children = make([]map[string]*MatcherNode, 2)
-	node.children[0] = make(map[string]*MatcherNode)
-	node.children[1] = make(map[string]*MatcherNode)
 	return node
 }
 
+// childrenAt returns the child nodes of branch i
+func (n *MatcherNode) childrenAt(i int) map[string]*MatcherNode {
+	if i >= len(n.children) {
+		return nil
+	}
+	return n.children[i]
+}
+
 func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode {
+	for len(n.children) <= i {
+		n.children = append(n.children, make(map[string]*MatcherNode))
+	}
 	if node, ok := n.children[i][key]; ok {
 		return node
 	}
@@ -135,7 +143,7 @@ func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node
 			nextNode := node.GetOrCreate(i, key, rule)
 			m.addRuleHelper(rule, nextExpr, nextNode)
 		} else {
-			node.children[i][key] = NewMatcherNode(rule)
+			node.GetOrCreate(i, key, rule)
 		}
 	}
 
@@ -158,11 +166,11 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		}
 
 		if !nextExpr.IsLeafNode() {
-			if nextNode, ok := node.children[i][key]; ok {
+			if nextNode, ok := node.childrenAt(i)[key]; ok {
 				m.removeRuleHelper(rule, nextExpr, nextNode)
 			}
 		} else {
-			delete(node.children[i], key)
+			delete(node.childrenAt(i), key)
 		}
 	}
 }
@@ -198,7 +206,7 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 
 func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(rule []string) bool) (bool, error) {
 	for i, nextExpr := range exprNode.Children() {
-		cont, err := m.rangeMatches(nextExpr, node.children[i], params, functions, func(nextNode *MatcherNode) bool {
+		cont, err := m.rangeMatches(nextExpr, node.childrenAt(i), params, functions, func(nextNode *MatcherNode) bool {
 			if nextExpr.IsLeafNode() && !fn(nextNode.rule) {
 				return false //break
 			} else {
-- 
2.43.0


From 8fbe34b0a9a051d4554c6e434ef9e483231934a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 03/54] fix: drop matcher nodes which have no rules left

---
 model/matcher/matcher.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index bd567f9..fc8593d 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -44,6 +44,15 @@ func (n *MatcherNode) childrenAt(i int) map[string]*MatcherNode {
 	return n.children[i]
 }
 
+func (n *MatcherNode) isEmpty() bool {
+	for _, children := range n.children {
+		if len(children) > 0 {
+			return false
+		}
+	}
+	return true
+}
+
 func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode {
 	for len(n.children) <= i {
 		n.children = append(n.children, make(map[string]*MatcherNode))
@@ -168,6 +177,9 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		if !nextExpr.IsLeafNode() {
 			if nextNode, ok := node.childrenAt(i)[key]; ok {
 				m.removeRuleHelper(rule, nextExpr, nextNode)
+				if nextNode.isEmpty() {
+					delete(node.childrenAt(i), key)
+				}
 			}
 		} else {
 			delete(node.childrenAt(i), key)
-- 
2.43.0


From 150f37f6acb6ab62dbb26f0baf4871d1f4f709c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 04/54] fix: report evaluation errors of nested matcher clauses

---
 model/matcher/matcher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index fc8593d..0951d9f 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -218,17 +218,22 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 
 func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(rule []string) bool) (bool, error) {
 	for i, nextExpr := range exprNode.Children() {
+		var nextErr error
 		cont, err := m.rangeMatches(nextExpr, node.childrenAt(i), params, functions, func(nextNode *MatcherNode) bool {
 			if nextExpr.IsLeafNode() && !fn(nextNode.rule) {
 				return false //break
 			} else {
 				cont, err := m.rangeMatchesHelper(nextExpr, nextNode, params, functions, fn)
 				if err != nil || !cont {
+					nextErr = err
 					return false
 				}
 			}
 			return true //continue
 		})
+		if err == nil {
+			err = nextErr
+		}
 		if err != nil {
 			return false, err
 		}
-- 
2.43.0


From 62dc55b5246b34763e178a033107e0572260c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 05/54] fix: evaluate matcher clauses from their tokens,
 printing them garbles literals

---
 model/defs/matcher_def.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 9450a39..ccc9cb0 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -3,6 +3,7 @@ package defs
 import (
 	"errors"
 	"fmt"
+	"regexp"
 	"strings"
 
 	"github.com/abichinger/govaluate"
@@ -10,6 +11,7 @@ import (
 
 type MatcherStage struct {
 	expr     string
+	tokens   []govaluate.ExpressionToken
 	pArgs    []string
 	rArgs    []string
 	children []*MatcherStage
@@ -23,6 +25,12 @@ func NewMatcherStage(expr string) *MatcherStage {
 	return stage
 }
 
+func newMatcherStageFromTokens(tokens []govaluate.ExpressionToken) *MatcherStage {
+	stage := NewMatcherStage(tokensToExpr(tokens))
+	stage.tokens = tokens
+	return stage
+}
+
 func (stage *MatcherStage) GetPolicyArgs() []string {
 	return stage.pArgs
 }
@@ -58,7 +66,27 @@ func (stage *MatcherStage) IsLeafNode() bool {
 }
 
 func (def *MatcherStage) NewExpressionWithFunctions(functions map[string]govaluate.ExpressionFunction) (*govaluate.EvaluableExpression, error) {
-	return govaluate.NewEvaluableExpressionWithFunctions(def.expr, functions)
+	if len(def.tokens) == 0 {
+		return govaluate.NewEvaluableExpressionWithFunctions(def.expr, functions)
+	}
+
+	//reuse the parsed tokens, literals can not be restored from their printed form
+	tokens := make([]govaluate.ExpressionToken, len(def.tokens))
+	for i, token := range def.tokens {
+		switch token.Kind {
+		case govaluate.FUNCTION:
+			function, ok := functions[token.Value2.(string)]
+			if !ok {
+				return nil, fmt.Errorf("Undefined function %s", token.Value2)
+			}
+			token.Value = function
+		case govaluate.PATTERN:
+			token.Kind = govaluate.STRING
+			token.Value = token.Value.(*regexp.Regexp).String()
+		}
+		tokens[i] = token
+	}
+	return govaluate.NewEvaluableExpressionFromTokens(tokens)
 }
 
 type MatcherDef struct {
@@ -144,8 +172,7 @@ func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [
 
 	//expr has no more logical operators
 	if index == -1 {
-		expr := tokensToExpr(tokens)
-		nextNode := NewMatcherStage(expr)
+		nextNode := newMatcherStageFromTokens(tokens)
 		node.children = append(node.children, nextNode)
 		if len(and) > 0 {
 			bTokens := and[len(and)-1]
-- 
2.43.0


From 098c8730e55ffa52f6de5a4ee1dd638a56013f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 06/54] fix: do not split matchers at the logical operators of
 a ternary

---
 model/defs/matcher_def.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index ccc9cb0..e7820d3 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -96,9 +96,11 @@ type MatcherDef struct {
 }
 
 //nextOperator returns the index of the next logical operator, or -1
+//a ternary binds weaker than the logical operators, therefore it can not be split
 func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 	clauseCounter := 0
 	index := -1
+	firstOr := -1
 	isBracket := tokens[0].Kind == govaluate.CLAUSE
 
 	for i, token := range tokens {
@@ -115,11 +117,18 @@ func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 				break
 			}
 			index = i
-			if token.Value == "||" {
-				return index, false
+			if token.Value == "||" && firstOr == -1 {
+				firstOr = i
+			}
+		case govaluate.TERNARY:
+			if clauseCounter == 0 {
+				return -1, false
 			}
 		}
 	}
+	if firstOr != -1 {
+		return firstOr, false
+	}
 	return index, isBracket
 }
 
-- 
2.43.0


From 84ce11cab38d25c583caa80fac3d8f86a5c1a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 07/54] fix: only treat whole names outside of string literals
 as policy and request arguments

---
 model/defs/defs.go        | 14 ++++++++++++--
 model/defs/matcher_def.go | 20 +++++++++++++++++---
 model/matcher/matcher.go  |  3 +--
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index 67ee870..9cf5ea3 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -28,8 +28,18 @@ const DefaultSep = ","
 const DefaultRoleParty = "_"
 
 var ArgReg = regexp.MustCompile(`([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
-var pArgReg = regexp.MustCompile(`([pg][0-9]*)_([A-Za-z0-9_]+)`)
-var rArgReg = regexp.MustCompile(`(r[0-9]*)_([A-Za-z0-9_]+)`)
+var argOrLiteralReg = regexp.MustCompile(`(["'](?:\\[\s\S]|[^"'\\])*["'])|([\pL\p{Nd}_.]+)`)
+var argReg = regexp.MustCompile(`^([prg][0-9]*)\.`)
+var pArgReg = regexp.MustCompile(`^[pg][0-9]*_`)
+var rArgReg = regexp.MustCompile(`^r[0-9]*_`)
+
+// EscapeArgs replaces the first dot of all request and policy arguments (r.sub => r_sub).
+// String literals and the remaining parts of an accessor (r.sub.Name => r_sub.Name) are left as they are.
+func EscapeArgs(expr string) string {
+	return argOrLiteralReg.ReplaceAllStringFunc(expr, func(token string) string {
+		return argReg.ReplaceAllString(token, "${1}_")
+	})
+}
 
 type IDef interface {
 	String() string
diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index e7820d3..6142e79 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -20,14 +20,28 @@ type MatcherStage struct {
 func NewMatcherStage(expr string) *MatcherStage {
 	stage := &MatcherStage{}
 	stage.expr = expr
-	stage.pArgs = pArgReg.FindAllString(stage.expr, -1)
-	stage.rArgs = rArgReg.FindAllString(stage.expr, -1)
 	return stage
 }
 
 func newMatcherStageFromTokens(tokens []govaluate.ExpressionToken) *MatcherStage {
 	stage := NewMatcherStage(tokensToExpr(tokens))
 	stage.tokens = tokens
+	for _, token := range tokens {
+		var name string
+		switch token.Kind {
+		case govaluate.VARIABLE:
+			name = token.Value.(string)
+		case govaluate.ACCESSOR:
+			name = token.Value.([]string)[0]
+		default:
+			continue
+		}
+		if pArgReg.MatchString(name) {
+			stage.pArgs = append(stage.pArgs, name)
+		} else if rArgReg.MatchString(name) {
+			stage.rArgs = append(stage.rArgs, name)
+		}
+	}
 	return stage
 }
 
@@ -222,7 +236,7 @@ func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction)
 	}()
 
 	def.root = NewMatcherStage("")
-	expr := ArgReg.ReplaceAllString(def.expr, "${1}_${3}")
+	expr := EscapeArgs(def.expr)
 	parsedExpr, err := govaluate.NewEvaluableExpressionWithFunctions(expr, functions)
 	if err != nil {
 		return err
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 0951d9f..21ac63e 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -273,8 +273,7 @@ func generateEvalFunction(fMap fm.FunctionMap, parameters *MatchParameters) gova
 			return false, fmt.Errorf("%s: %s", "eval", err)
 		}
 
-		expression := args[0].(string)
-		expression = defs.ArgReg.ReplaceAllString(expression, "${1}_${3}")
+		expression := defs.EscapeArgs(args[0].(string))
 		return eval(expression, functions, parameters)
 	}
 }
-- 
2.43.0


From e1ecd8090d520445d1bde2b38f4c591511263ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 08/54] fix: do not group rules by the arguments of a clause
 which calls eval

---
 model/defs/matcher_def.go | 10 ++++++++++
 model/matcher/matcher.go  | 34 ++++++++++++++++------------------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 6142e79..af9ac85 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -15,6 +15,7 @@ type MatcherStage struct {
 	pArgs    []string
 	rArgs    []string
 	children []*MatcherStage
+	dynamic  bool
 }
 
 func NewMatcherStage(expr string) *MatcherStage {
@@ -33,6 +34,9 @@ func newMatcherStageFromTokens(tokens []govaluate.ExpressionToken) *MatcherStage
 			name = token.Value.(string)
 		case govaluate.ACCESSOR:
 			name = token.Value.([]string)[0]
+		case govaluate.FUNCTION:
+			stage.dynamic = stage.dynamic || token.Value2 == "eval"
+			continue
 		default:
 			continue
 		}
@@ -71,6 +75,12 @@ func (stage *MatcherStage) RecursiveRequestArgs() []string {
 	return res
 }
 
+// IsDynamic reports whether the stage evaluates expressions which are stored inside of rules.
+// Such a stage can depend on any value of a rule, not only on its own policy arguments.
+func (stage *MatcherStage) IsDynamic() bool {
+	return stage.dynamic
+}
+
 func (stage *MatcherStage) Children() []*MatcherStage {
 	return stage.children
 }
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 21ac63e..08a93ec 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -132,21 +132,27 @@ func (m *Matcher) GetPolicyKey() string {
 	return m.pDef.GetKey()
 }
 
+// getNodeKey returns the key of the node which holds rule.
+// Rules share a node, if the stage can not distinguish between them.
+func (m *Matcher) getNodeKey(rule []string, stage *defs.MatcherStage) string {
+	pArgs := stage.GetPolicyArgs()
+	if len(pArgs) == 0 || stage.IsLeafNode() || stage.IsDynamic() {
+		return util.Hash(rule)
+	}
+	values, err := m.pDef.GetParameters(rule, pArgs)
+	if err != nil {
+		return "!" + util.Hash(rule) // rule has not enough values
+	}
+	return util.Hash(values)
+}
+
 func (m *Matcher) addRule(rule []string) {
 	m.addRuleHelper(rule, m.exprRoot, m.root)
 }
 
 func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node *MatcherNode) {
 	for i, nextExpr := range exprNode.Children() {
-		pArgs := nextExpr.GetPolicyArgs()
-
-		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
-			key = util.Hash(rule)
-		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
-			key = util.Hash(r)
-		}
+		key := m.getNodeKey(rule, nextExpr)
 
 		if !nextExpr.IsLeafNode() {
 			nextNode := node.GetOrCreate(i, key, rule)
@@ -164,15 +170,7 @@ func (m *Matcher) removeRule(rule []string) {
 
 func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, node *MatcherNode) {
 	for i, nextExpr := range exprNode.Children() {
-		pArgs := nextExpr.GetPolicyArgs()
-
-		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
-			key = util.Hash(rule)
-		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
-			key = util.Hash(r)
-		}
+		key := m.getNodeKey(rule, nextExpr)
 
 		if !nextExpr.IsLeafNode() {
 			if nextNode, ok := node.childrenAt(i)[key]; ok {
-- 
2.43.0


From 8745de136152c6b51c982025919b2651a2537745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 09/54] fix: do not mix up rules whose values contain a comma

---
 util/util.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 74f217b..cdb2637 100644
--- a/util/util.go
+++ b/util/util.go
@@ -3,6 +3,7 @@ package util
 import (
 	"errors"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -26,6 +27,14 @@ func FileExists(path string) (bool, error) {
 	return false, err
 }
 
+// Hash returns a string which identifies rule.
+// Every value is prefixed with its length, because values can contain the separator.
 func Hash(rule []string) string {
-	return strings.Join(rule, DefaultSep)
+	var sb strings.Builder
+	for _, value := range rule {
+		sb.WriteString(strconv.Itoa(len(value)))
+		sb.WriteString(DefaultSep)
+		sb.WriteString(value)
+	}
+	return sb.String()
 }
-- 
2.43.0


From b2b28c4318df977b09683764bec32a3f35ee2135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 10/54] fix: report a rule only once, if it matches several
 alternatives of a matcher

---
 model/defs/matcher_def.go | 13 +++++++++++++
 model/matcher/matcher.go  | 14 ++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index af9ac85..1fe110b 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -85,6 +85,19 @@ func (stage *MatcherStage) Children() []*MatcherStage {
 	return stage.children
 }
 
+// HasAlternatives reports whether there is more than one path to a leaf node
+func (stage *MatcherStage) HasAlternatives() bool {
+	if len(stage.children) > 1 {
+		return true
+	}
+	for _, child := range stage.children {
+		if child.HasAlternatives() {
+			return true
+		}
+	}
+	return false
+}
+
 func (stage *MatcherStage) IsLeafNode() bool {
 	return len(stage.children) == 0
 }
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 08a93ec..33459a5 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -247,6 +247,20 @@ func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap f
 	fMap.SetFunction("eval", generateEvalFunction(fMap, params))
 	functions := fMap.GetFunctions()
 
+	// a rule can match several alternatives, but should only be reported once
+	if m.exprRoot.HasAlternatives() {
+		seen := make(map[string]struct{})
+		next := fn
+		fn = func(rule []string) bool {
+			key := util.Hash(rule)
+			if _, ok := seen[key]; ok {
+				return true
+			}
+			seen[key] = struct{}{}
+			return next(rule)
+		}
+	}
+
 	_, err := m.rangeMatchesHelper(m.exprRoot, m.root, params, functions, fn)
 	if err != nil {
 		return err
-- 
2.43.0


From da7e433daba5befd89d8ff8026bc4f165e3afb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 11/54] fix: do not return a made-up rule when filtering an
 empty policy

---
 enforcer.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/enforcer.go b/enforcer.go
index 6cad9a0..ae375c7 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -22,6 +22,7 @@ import (
 	m "github.com/abichinger/fastac/model"
 	"github.com/abichinger/fastac/model/defs"
 	"github.com/abichinger/fastac/model/eft"
+	p "github.com/abichinger/fastac/model/policy"
 	"github.com/abichinger/fastac/model/types"
 	"github.com/abichinger/fastac/storage"
 	a "github.com/abichinger/fastac/storage/adapter"
@@ -305,9 +306,23 @@ func (e *Enforcer) RangeMatches(params []interface{}, fn func(rule []string) boo
 }
 
 func (e *Enforcer) RangeMatchesWithContext(ctx *Context, rvals []interface{}, fn func(rule []string) bool) error {
+	// the matcher reports an empty rule, if the policy has no rules (see enforce)
+	policy, ok := e.model.GetPolicy(ctx.matcher.GetPolicyKey())
+	if ok && isEmpty(policy) {
+		return nil
+	}
 	return e.model.RangeMatches(ctx.matcher, ctx.rDef, rvals, fn)
 }
 
+func isEmpty(policy p.IPolicy) bool {
+	empty := true
+	policy.Range(func(rule []string) bool {
+		empty = false
+		return false
+	})
+	return empty
+}
+
 func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 	def, _ := e.model.GetDef(m.P_SEC, ctx.matcher.GetPolicyKey())
 	pDef := def.(*defs.PolicyDef)
@@ -316,7 +331,7 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 	matches := [][]string{}
 
 	var eftErr error = nil
-	err := e.RangeMatchesWithContext(ctx, rvals, func(rule []string) bool {
+	err := e.model.RangeMatches(ctx.matcher, ctx.rDef, rvals, func(rule []string) bool {
 		effect := pDef.GetEft(rule)
 
 		effects = append(effects, effect)
-- 
2.43.0


From f836153094c90786b367e7c56d77b2842d65d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 12/54] fix: return the error of an unsupported policy effect

---
 enforcer.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index ae375c7..b44f7cd 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -347,12 +347,11 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	if eftErr != nil {
-		return false, err
+	if eftErr == nil && res == eft.Indeterminate {
+		res, _, eftErr = ctx.effector.MergeEffects(effects, matches, true)
 	}
-
-	if res == eft.Indeterminate {
-		res, _, _ = ctx.effector.MergeEffects(effects, matches, true)
+	if eftErr != nil {
+		return false, eftErr
 	}
 
 	return res == eft.Allow, nil
-- 
2.43.0


From c2f92899d10158b49654d130622c50eeec4a6c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 13/54] fix: an allow rule permits regardless of the order of
 the matched rules

---
 model/effector/default_effector.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/model/effector/default_effector.go b/model/effector/default_effector.go
index 7a63f6e..07cb072 100644
--- a/model/effector/default_effector.go
+++ b/model/effector/default_effector.go
@@ -43,10 +43,12 @@ func (e *DefaultEffector) MergeEffects(effects []types.Effect, matches [][]strin
 		case eft.NO_DENY:
 			return eft.Allow, []string{}, nil
 		case eft.SOME_ALLOW_NO_DENY:
-			if len(matches) == 0 {
-				return eft.Deny, []string{}, nil
+			for i, effect := range effects {
+				if effect == eft.Allow {
+					return effect, matches[i], nil
+				}
 			}
-			return effects[0], matches[0], nil
+			return eft.Deny, []string{}, nil
 		}
 		return eft.Deny, []string{}, errors.New("unsupported effect")
 	}
-- 
2.43.0


From 77615b87f72aae90ba87c65745e9918de906bd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 14/54] fix: do not read another column as effect, if a rule
 has no effect column

---
 enforcer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enforcer.go b/enforcer.go
index b44f7cd..0bd1e7f 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -332,7 +332,7 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 
 	var eftErr error = nil
 	err := e.model.RangeMatches(ctx.matcher, ctx.rDef, rvals, func(rule []string) bool {
-		effect := pDef.GetEft(rule)
+		effect := pDef.GetEft(rule[1:]) // without policy key
 
 		effects = append(effects, effect)
 		matches = append(matches, rule)
-- 
2.43.0


From 9bfb6e0ef382bf7c3c1925989eda0651339e2b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 15/54] fix: return an error instead of panicking, if a
 definition is missing

---
 context.go     | 12 +++++++++---
 enforcer.go    |  6 +++++-
 model/model.go |  9 ++++++---
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/context.go b/context.go
index e0caff9..6a83916 100644
--- a/context.go
+++ b/context.go
@@ -103,13 +103,19 @@ func NewContext(model model.IModel, options ...ContextOption) (*Context, error)
 	}
 
 	if ctx.rDef == nil {
-		_ = SetRequestDef("r")(ctx)
+		if err := SetRequestDef("r")(ctx); err != nil {
+			return nil, err
+		}
 	}
 	if ctx.matcher == nil {
-		_ = SetMatcher("m")(ctx)
+		if err := SetMatcher("m")(ctx); err != nil {
+			return nil, err
+		}
 	}
 	if ctx.effector == nil {
-		_ = SetEffector("e")(ctx)
+		if err := SetEffector("e")(ctx); err != nil {
+			return nil, err
+		}
 	}
 
 	return ctx, nil
diff --git a/enforcer.go b/enforcer.go
index 0bd1e7f..7cc9eb6 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -16,6 +16,7 @@ package fastac
 
 import (
 	"errors"
+	"fmt"
 	"time"
 
 	log "github.com/abichinger/fastac/log"
@@ -325,7 +326,10 @@ func isEmpty(policy p.IPolicy) bool {
 
 func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 	def, _ := e.model.GetDef(m.P_SEC, ctx.matcher.GetPolicyKey())
-	pDef := def.(*defs.PolicyDef)
+	pDef, ok := def.(*defs.PolicyDef)
+	if !ok {
+		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, ctx.matcher.GetPolicyKey())
+	}
 	res := eft.Indeterminate
 	effects := []types.Effect{}
 	matches := [][]string{}
diff --git a/model/model.go b/model/model.go
index 88b8d5d..e990b1d 100644
--- a/model/model.go
+++ b/model/model.go
@@ -328,7 +328,10 @@ func (m *Model) SetPolicy(key string, policy policy.IPolicy) {
 
 func (m *Model) GetRoleManager(key string) (rbac.IRoleManager, bool) {
 	rp, ok := m.rpMap[key]
-	return rp.GetRoleManager(), ok
+	if !ok {
+		return nil, false
+	}
+	return rp.GetRoleManager(), true
 }
 
 func (m *Model) SetRoleManager(key string, rm rbac.IRoleManager) {
@@ -346,8 +349,8 @@ func (m *Model) SetMatcher(key string, matcher matcher.IMatcher) {
 }
 
 func (m *Model) GetRequestDef(key string) (*defs.RequestDef, bool) {
-	def, ok := m.defs[R_SEC][key]
-	return def.(*defs.RequestDef), ok
+	def, ok := m.defs[R_SEC][key].(*defs.RequestDef)
+	return def, ok
 }
 
 func (m *Model) SetRequestDef(key string, def *defs.RequestDef) {
-- 
2.43.0


From 832938360a3bcff4e9508f3f07107180e05f1284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 16/54] fix: stop ranging over rules and links, if the callback
 returns false

---
 model/model.go         | 13 +++++++++++--
 rbac/domain_manager.go |  7 ++++---
 rbac/role_manager.go   |  7 ++++---
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/model/model.go b/model/model.go
index e990b1d..3b169b9 100644
--- a/model/model.go
+++ b/model/model.go
@@ -407,17 +407,26 @@ func (m *Model) String() string {
 }
 
 func (m *Model) RangeRules(fn func(rule []string) bool) {
+	cont := true
 	for pKey, p := range m.pMap {
 		ruleKey := []string{pKey}
 		p.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
+			cont = fn(append(ruleKey, rule...))
+			return cont
 		})
+		if !cont {
+			return
+		}
 	}
 	for gKey, rm := range m.rpMap {
 		ruleKey := []string{gKey}
 		rm.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
+			cont = fn(append(ruleKey, rule...))
+			return cont
 		})
+		if !cont {
+			return
+		}
 	}
 }
 
diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 135ad93..1f56843 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -286,6 +286,7 @@ func (dm *DomainManager) GetAllDomains() ([]string, error) {
 }
 
 func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
+	cont := true
 	rmMap.Range(func(key, value interface{}) bool {
 		roleManager := value.(IRoleManager)
 		domains := []string{}
@@ -294,11 +295,11 @@ func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string
 		}
 
 		roleManager.Range(func(name1, name2 string, domain ...string) bool {
-			fn(name1, name2, append(domains, domain...)...)
-			return true
+			cont = fn(name1, name2, append(domains, domain...)...)
+			return cont
 		})
 
-		return true
+		return cont
 	})
 }
 
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 098da72..f16d162 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -252,16 +252,17 @@ func (rm *RoleManager) GetAllDomains() ([]string, error) {
 }
 
 func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
+	cont := true
 	users.Range(func(_, value interface{}) bool {
 		user := value.(*Role)
 		user.roles.Range(func(key, _ interface{}) bool {
 			roleName := key.(string)
 			if _, ok := user.redundant.Load(roleName); !ok {
-				return fn(user.name, roleName)
+				cont = fn(user.name, roleName)
 			}
-			return true
+			return cont
 		})
-		return true
+		return cont
 	})
 }
 
-- 
2.43.0


From 03112b354c95a5a284492167c948ca9fccbba629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 17/54] fix: use the file adapter which gets created for a
 policy path

---
 enforcer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enforcer.go b/enforcer.go
index 7cc9eb6..cf08a96 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -100,7 +100,7 @@ func NewEnforcer(model interface{}, adapter interface{}, options ...Option) (*En
 	var a3 storage.Adapter
 	switch a2 := adapter.(type) {
 	case string:
-		a3 := a.NewFileAdapter(a2)
+		a3 = a.NewFileAdapter(a2)
 		if err := a3.LoadPolicy(e.model); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From ca0bde2c9962b6e728d405c22ff456bfc573ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 18/54] fix: listen for rule updates of the new model after
 SetModel

---
 enforcer.go           |  1 +
 storage/controller.go | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/enforcer.go b/enforcer.go
index cf08a96..c4ede25 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -363,6 +363,7 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 
 func (e *Enforcer) SetModel(model m.IModel) {
 	e.model = model
+	e.sc.SetEmitter(model)
 }
 
 func (e *Enforcer) GetModel() m.IModel {
diff --git a/storage/controller.go b/storage/controller.go
index 2c9e208..04e815d 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -100,6 +100,16 @@ func (sc *StorageController) Disable() {
 	sc.listeners = []listener{}
 }
 
+// SetEmitter replaces the source of rule updates
+func (sc *StorageController) SetEmitter(em api.IAddRemoveListener) {
+	enabled := sc.Enabled()
+	sc.Disable()
+	sc.em = em
+	if enabled {
+		sc.Enable()
+	}
+}
+
 func (sc *StorageController) addOp(opc opcode, rule []string) {
 	sc.q = append(sc.q, operation{opc, rule})
 	if sc.autosave {
-- 
2.43.0


From 646c7f180462ba663ad7e295f7a294659107db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 19/54] fix: notify matchers when grouping rules get cleared

---
 rbac/role_policy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index f1193e3..caf1dc9 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -45,7 +45,11 @@ func (p *RolePolicy) GetDistinct(columns []int) ([][]string, error) {
 }
 
 func (p *RolePolicy) Clear() error {
-	return p.rm.Clear()
+	if err := p.rm.Clear(); err != nil {
+		return err
+	}
+	p.Emitter.EmitEvent(policy.EVT_CLEARED)
+	return nil
 }
 
 func (p *RolePolicy) GetRoleManager() IRoleManager {
-- 
2.43.0


From d8966776135ef5b9ee8aa78bc5369c4f22df66f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 20/54] fix: reject incomplete rules with an error

---
 model/model.go      | 8 +++++++-
 rbac/role_policy.go | 9 +++++++++
 str/errors.go       | 1 +
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index 3b169b9..13e7563 100644
--- a/model/model.go
+++ b/model/model.go
@@ -168,7 +168,7 @@ func (m *Model) SetDef(sec byte, key string, value string) error {
 	if !ok {
 		return fmt.Errorf(str.ERR_INVALID_SEC, sec)
 	}
-	if key[0] != secDef.keyPrefix {
+	if key == "" || key[0] != secDef.keyPrefix {
 		return fmt.Errorf(str.ERR_INVALID_KEY_PREFIX, secDef.name, secDef.keyPrefix)
 	}
 	if err := secDef.handler(m, key, value); err != nil {
@@ -246,6 +246,9 @@ func (m *Model) BuildMatcherFromDef(mDef *defs.MatcherDef) (matcher.IMatcher, er
 }
 
 func (m *Model) AddRule(rule []string) (bool, error) {
+	if len(rule) == 0 || rule[0] == "" {
+		return false, fmt.Errorf(str.ERR_INVALID_RULE, rule)
+	}
 	key := rule[0]
 	sec := key[0]
 	var added bool
@@ -265,6 +268,9 @@ func (m *Model) AddRule(rule []string) (bool, error) {
 }
 
 func (m *Model) RemoveRule(rule []string) (bool, error) {
+	if len(rule) == 0 || rule[0] == "" {
+		return false, fmt.Errorf(str.ERR_INVALID_RULE, rule)
+	}
 	key := rule[0]
 	sec := key[0]
 	var removed bool
diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index caf1dc9..6d9bcef 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -1,7 +1,10 @@
 package rbac
 
 import (
+	"fmt"
+
 	"github.com/abichinger/fastac/model/policy"
+	"github.com/abichinger/fastac/str"
 	em "github.com/vansante/go-event-emitter"
 )
 
@@ -16,6 +19,9 @@ func NewRolePolicy(rm IRoleManager) *RolePolicy {
 }
 
 func (p *RolePolicy) AddRule(rule []string) (bool, error) {
+	if len(rule) < 2 {
+		return false, fmt.Errorf(str.ERR_INVALID_RULE, rule)
+	}
 	added, err := p.rm.AddLink(rule[0], rule[1], rule[2:]...)
 	if !added || err != nil {
 		return added, err
@@ -25,6 +31,9 @@ func (p *RolePolicy) AddRule(rule []string) (bool, error) {
 }
 
 func (p *RolePolicy) RemoveRule(rule []string) (bool, error) {
+	if len(rule) < 2 {
+		return false, fmt.Errorf(str.ERR_INVALID_RULE, rule)
+	}
 	removed, err := p.rm.DeleteLink(rule[0], rule[1], rule[2:]...)
 	if !removed || err != nil {
 		return removed, err
diff --git a/str/errors.go b/str/errors.go
index b8b0b6b..ea95e8d 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -22,5 +22,6 @@ const (
 	ERR_RM_NOT_FOUND         = "error: role manager %s not found"
 	ERR_REQUESTDEF_NOT_FOUND = "error: request definition %s not found"
 	ERR_EFFECTOR_NOT_FOUND   = "error: effect definition %s not found"
+	ERR_INVALID_RULE         = "error: invalid rule %v"
 	ERR_INVALID_MODEL        = "invalid model"
 )
-- 
2.43.0


From e174624c617ff8220928450e4b717a43c5a67bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 21/54] fix: quote values in policy files, so that all rules
 can be loaded again

---
 storage/adapter/fileadapter.go | 57 +++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 682f49e..ba03c7d 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -17,8 +17,10 @@ package adapter
 import (
 	"bufio"
 	"encoding/csv"
+	"io"
 	"os"
 	"strings"
+	"unicode"
 
 	"github.com/abichinger/fastac/api"
 	"github.com/abichinger/fastac/model/defs"
@@ -32,18 +34,50 @@ func LoadPolicyLine(line string, m api.IAddRuleBool) error {
 		return nil
 	}
 
-	r := csv.NewReader(strings.NewReader(line))
+	return loadPolicy(strings.NewReader(line), m)
+}
+
+// loadPolicy loads all rules from reader
+func loadPolicy(reader io.Reader, m api.IAddRuleBool) error {
+	r := csv.NewReader(reader)
 	r.Comma = ','
 	r.Comment = '#'
 	r.TrimLeadingSpace = true
+	r.FieldsPerRecord = -1
 
-	tokens, err := r.Read()
-	if err != nil {
-		return err
+	for {
+		tokens, err := r.Read()
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		if len(tokens) == 1 && tokens[0] == "" {
+			continue //blank line
+		}
+		if _, err = m.AddRule(tokens); err != nil {
+			return err
+		}
 	}
+}
 
-	_, err = m.AddRule(tokens)
-	return err
+// quote encloses value in quotes, if it can not be stored as it is
+func quote(value string, first bool) string {
+	if strings.ContainsAny(value, ",\"\r\n") ||
+		strings.TrimLeftFunc(value, unicode.IsSpace) != value ||
+		(first && strings.HasPrefix(value, "#")) {
+		return `"` + strings.ReplaceAll(value, `"`, `""`) + `"`
+	}
+	return value
+}
+
+func formatRule(rule []string) string {
+	values := make([]string, len(rule))
+	for i, value := range rule {
+		values[i] = quote(value, i == 0)
+	}
+	return strings.Join(values, ", ")
 }
 
 type FileAdapter struct {
@@ -85,14 +119,7 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	}
 	defer file.Close()
 
-	scanner := bufio.NewScanner(file)
-	for scanner.Scan() {
-		if err := LoadPolicyLine(scanner.Text(), model); err != nil {
-			return err
-		}
-	}
-
-	return scanner.Err()
+	return loadPolicy(file, model)
 }
 
 func getWriter(path string) (*bufio.Writer, error) {
@@ -119,7 +146,7 @@ func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
 		return err
 	}
 	model.RangeRules(func(rule []string) bool {
-		if _, err = writer.WriteString(strings.Join(rule, ", ") + "\n"); err != nil {
+		if _, err = writer.WriteString(formatRule(rule) + "\n"); err != nil {
 			return false
 		}
 		return true
-- 
2.43.0


From 765c846b1b9d8ca0f0d4faab3c358d14c24a94d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 22/54] fix: close policy files after writing them

---
 storage/adapter/fileadapter.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index ba03c7d..3b7dc99 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -122,7 +122,7 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	return loadPolicy(file, model)
 }
 
-func getWriter(path string) (*bufio.Writer, error) {
+func createFile(path string) (*os.File, error) {
 	if exists, err := util.FileExists(path); err != nil {
 		return nil, err
 	} else if exists {
@@ -130,21 +130,17 @@ func getWriter(path string) (*bufio.Writer, error) {
 			return nil, err
 		}
 	}
-	if _, err := os.Create(path); err != nil {
-		return nil, err
-	}
-	f, err := os.OpenFile(path, os.O_WRONLY, 0600)
-	if err != nil {
-		return nil, err
-	}
-	return bufio.NewWriter(f), nil
+	return os.Create(path)
 }
 
 func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
-	writer, err := getWriter(a.path)
+	file, err := createFile(a.path)
 	if err != nil {
 		return err
 	}
+	defer file.Close()
+
+	writer := bufio.NewWriter(file)
 	model.RangeRules(func(rule []string) bool {
 		if _, err = writer.WriteString(formatRule(rule) + "\n"); err != nil {
 			return false
-- 
2.43.0


From 41b3ad04f0665023ad956d904817058d3f5d6619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 23/54] fix: turn panics of matcher functions into errors

---
 model/matcher/matcher.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 33459a5..9698439 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -185,6 +185,16 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 	}
 }
 
+// safeEval turns panics of functions which are called by the expression into errors
+func safeEval(expr *govaluate.EvaluableExpression, params *MatchParameters) (res interface{}, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			res, err = nil, fmt.Errorf("panic during evaluation: %v", r)
+		}
+	}()
+	return expr.Eval(params)
+}
+
 func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(node *MatcherNode) bool) (bool, error) {
 	expr, err := exprNode.NewExpressionWithFunctions(functions)
 	if err != nil {
@@ -200,7 +210,7 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 
 	for _, child := range rules {
 		params.pvals = child.rule
-		res, err := expr.Eval(params)
+		res, err := safeEval(expr, params)
 		if err != nil {
 			return false, err
 		}
-- 
2.43.0


From c74be6d7de05c0a4e0ddbcc4a3b56aef11c2a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 24/54] fix: limit the nesting of eval calls

---
 model/matcher/matcher.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 9698439..1836fe5 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -25,6 +25,9 @@ import (
 	"github.com/abichinger/govaluate"
 )
 
+// maximum number of nested eval calls, a rule is able to eval itself
+const maxEvalDepth = 16
+
 type MatcherNode struct {
 	rule     []string
 	children []map[string]*MatcherNode
@@ -289,11 +292,17 @@ func eval(expression string, functions map[string]govaluate.ExpressionFunction,
 
 func generateEvalFunction(fMap fm.FunctionMap, parameters *MatchParameters) govaluate.ExpressionFunction {
 	functions := fMap.GetFunctions()
+	depth := 0
 
 	return func(args ...interface{}) (interface{}, error) {
 		if err := util.ValidateVariadicArgs(1, args...); err != nil {
 			return false, fmt.Errorf("%s: %s", "eval", err)
 		}
+		if depth >= maxEvalDepth {
+			return false, errors.New("eval: too many nested calls")
+		}
+		depth++
+		defer func() { depth-- }()
 
 		expression := defs.EscapeArgs(args[0].(string))
 		return eval(expression, functions, parameters)
-- 
2.43.0


From 746f3736d6e7d6d009e7f65e574573e3085737f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 25/54] fix: keep operations queued until the adapter has
 stored them

---
 storage/controller.go | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/storage/controller.go b/storage/controller.go
index 04e815d..4f1e628 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -135,46 +135,35 @@ func (sc *StorageController) AutosaveEnabled() bool {
 	return sc.autosave
 }
 
+// operations stay in the queue until the adapter has processed them
 func (sc *StorageController) flush() error {
 	for len(sc.q) > 0 {
 		operation := sc.q[0]
-		sc.q = sc.q[1:]
 		if err := sc.run(operation.opc, operation.rule); err != nil {
 			return err
 		}
+		sc.q = sc.q[1:]
 	}
 	return nil
 }
 
 func (sc *StorageController) batchFlush() error {
-
-	rules := [][]string{}
-
-	var currentOpc opcode
-	if len(sc.q) > 0 {
-		currentOpc = sc.q[0].opc
-	}
-
 	for len(sc.q) > 0 {
 
-		operation := sc.q[0]
-		sc.q = sc.q[1:]
+		currentOpc := sc.q[0].opc
+		rules := [][]string{}
 
-		if currentOpc == operation.opc {
-			rules = append(rules, operation.rule)
-		} else {
-			if err := sc.runBatch(currentOpc, rules); err != nil {
-				return err
+		for _, operation := range sc.q {
+			if operation.opc != currentOpc {
+				break
 			}
-			currentOpc = operation.opc
-			rules = [][]string{operation.rule}
+			rules = append(rules, operation.rule)
 		}
-	}
 
-	if len(rules) > 0 {
 		if err := sc.runBatch(currentOpc, rules); err != nil {
 			return err
 		}
+		sc.q = sc.q[len(rules):]
 	}
 	return nil
 }
-- 
2.43.0


From bb51a3ca310ec3169613fbc1408d7d93490c24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 26/54] fix: update the value when putting an existing key into
 the cache

---
 util/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/cache.go b/util/cache.go
index 3ace430..3c8737b 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -71,6 +71,7 @@ func (cache *LRUCache) Put(key interface{}, value interface{}) {
 	n, ok := cache.m[key]
 	if ok {
 		cache.remove(n, false)
+		n.value = value
 	} else {
 		n = &node{key, value, nil, nil}
 		if len(cache.m) >= cache.capacity {
-- 
2.43.0


From 62c408516fd4aed1eb1531cf91aeda4a4634a4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 27/54] fix: lock the cache exclusively in Get, it reorders the
 entries

---
 util/cache.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/cache.go b/util/cache.go
index 3c8737b..4d56f33 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -93,8 +93,9 @@ func NewSyncLRUCache(capacity int) *SyncLRUCache {
 }
 
 func (cache *SyncLRUCache) Get(key interface{}) (value interface{}, ok bool) {
-	cache.rwm.RLock()
-	defer cache.rwm.RUnlock()
+	// Get modifies the order of the entries, therefore a read lock is not sufficient
+	cache.rwm.Lock()
+	defer cache.rwm.Unlock()
 	return cache.LRUCache.Get(key)
 }
 
-- 
2.43.0


From 803c573a182e136450790af349c640378084486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 28/54] fix: match paths which contain a literal star segment
 or use a longer separator

---
 util/builtin_operators.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index f6b7bcf..b0f3731 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -153,7 +153,7 @@ func nextSegment(path, sep string) (seg string, remaining string, last bool) {
 	if i == -1 {
 		return path, "", true
 	}
-	return path[:i], path[i+1:], false
+	return path[:i], path[i+len(sep):], false
 }
 
 func isDynamicSegment(segment string, prefix, suffix byte) bool {
@@ -175,12 +175,6 @@ func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
 	pathS, path, lastPathSeg = nextSegment(path, sep)
 	patternS, pattern, lastPatternSeg = nextSegment(pattern, sep)
 
-	if pathS == patternS || isDynamicSegment(patternS, prefix, suffix) {
-		if lastPathSeg != lastPatternSeg {
-			return false
-		}
-		return PathMatchHelper(path, pattern, sep, prefix, suffix)
-	}
 	if patternS == "*" {
 		if !lastPatternSeg && lastPathSeg {
 			return false
@@ -188,6 +182,12 @@ func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
 		return PathMatchHelper(path, pattern, sep, prefix, suffix) ||
 			PathMatchHelper(path, "*"+sep+pattern, sep, prefix, suffix)
 	}
+	if pathS == patternS || isDynamicSegment(patternS, prefix, suffix) {
+		if lastPathSeg != lastPatternSeg {
+			return false
+		}
+		return PathMatchHelper(path, pattern, sep, prefix, suffix)
+	}
 	return false
 }
 
-- 
2.43.0


From 484439723f06f172c0fa8a45cc6dc55eef7a9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 29/54] fix: do not mix up explicit links and links of domain
 patterns

---
 rbac/domain_manager.go |  4 ++--
 rbac/role.go           | 47 +++++++++++++++++++++++++++++++++++++++++-
 rbac/role_manager.go   | 21 ++++++-------------
 3 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 1f56843..1ba0481 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -167,7 +167,7 @@ func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string)
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	added, _ := roleManager.AddLink(name1, name2, subdomains...)
 
-	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
+	if added && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
 			_, _ = rm.AddLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
 		})
@@ -185,7 +185,7 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	removed, _ := roleManager.DeleteLink(name1, name2, subdomains...)
 
-	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
+	if removed && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
 			_, _ = rm.DeleteLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
 		})
diff --git a/rbac/role.go b/rbac/role.go
index f8976c8..4393945 100644
--- a/rbac/role.go
+++ b/rbac/role.go
@@ -26,7 +26,8 @@ type Role struct {
 	users     *sync.Map
 	matched   *sync.Map
 	matchedBy *sync.Map
-	redundant *sync.Map //string set of redundant roles
+	explicit  *sync.Map //string set of roles, which have been added explicitly
+	redundant *sync.Map //number of redundant links per role
 }
 
 func newRole(name string) *Role {
@@ -36,6 +37,7 @@ func newRole(name string) *Role {
 	r.users = &sync.Map{}
 	r.matched = &sync.Map{}
 	r.matchedBy = &sync.Map{}
+	r.explicit = &sync.Map{}
 	r.redundant = &sync.Map{}
 	return &r
 }
@@ -63,6 +65,49 @@ func (r *Role) removeRole(role *Role) bool {
 	return true
 }
 
+// addLink adds an explicit or a redundant link to role
+// returns false, if an explicit link was already present
+func (r *Role) addLink(role *Role, redundant bool) bool {
+	r.addRole(role)
+	if redundant {
+		r.redundant.Store(role.name, r.redundantLinks(role)+1)
+		return true
+	}
+	_, exists := r.explicit.LoadOrStore(role.name, nil)
+	return !exists
+}
+
+// removeLink removes an explicit or a redundant link to role
+// role is inherited until all of its links are removed
+func (r *Role) removeLink(role *Role, redundant bool) bool {
+	_, explicit := r.explicit.Load(role.name)
+	n := r.redundantLinks(role)
+	if redundant {
+		if n == 0 {
+			return false
+		}
+		n--
+		r.redundant.Store(role.name, n)
+	} else {
+		if !explicit {
+			return false
+		}
+		explicit = false
+		r.explicit.Delete(role.name)
+	}
+	if !explicit && n == 0 {
+		r.removeRole(role)
+	}
+	return true
+}
+
+func (r *Role) redundantLinks(role *Role) int {
+	if n, ok := r.redundant.Load(role.name); ok {
+		return n.(int)
+	}
+	return 0
+}
+
 //should only be called inside addRole
 func (r *Role) addUser(user *Role) {
 	r.users.Store(user.name, user)
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index f16d162..1ad670d 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -164,11 +164,8 @@ func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (b
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
-	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-		user.redundant.LoadOrStore(name2, nil)
-	}
-
-	return user.addRole(role), nil
+	redundant := len(domains) > 0 && domains[0] == REDUNDANT_ROLE
+	return user.addLink(role, redundant), nil
 }
 
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
@@ -177,11 +174,8 @@ func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string)
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
-	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-		user.redundant.Delete(name2)
-	}
-
-	return user.removeRole(role), nil
+	redundant := len(domains) > 0 && domains[0] == REDUNDANT_ROLE
+	return user.removeLink(role, redundant), nil
 }
 
 // HasLink determines whether role: name1 inherits role: name2.
@@ -255,11 +249,8 @@ func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string)
 	cont := true
 	users.Range(func(_, value interface{}) bool {
 		user := value.(*Role)
-		user.roles.Range(func(key, _ interface{}) bool {
-			roleName := key.(string)
-			if _, ok := user.redundant.Load(roleName); !ok {
-				cont = fn(user.name, roleName)
-			}
+		user.explicit.Range(func(key, _ interface{}) bool {
+			cont = fn(user.name, key.(string))
 			return cont
 		})
 		return cont
-- 
2.43.0


From 32d7f3e3eb4c2cdb3a74489d86ce742b57d9d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 30/54] fix: keep links without a domain apart from links of
 named domains

---
 rbac/domain_manager.go | 156 +++++++++++++++++++----------------------
 rbac/role_manager.go   |  23 ++++--
 2 files changed, 89 insertions(+), 90 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 1ba0481..61d5c92 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -21,10 +21,9 @@ import (
 	"github.com/abichinger/fastac/util"
 )
 
-const defaultDomain string = "RoleManager"
-
 type DomainManager struct {
-	rmMap             *sync.Map
+	rm                *RoleManager //links without a domain
+	rmMap             *sync.Map    //links of each domain
 	patternMap        *sync.Map
 	maxHierarchyLevel int
 	matcher           util.IMatcher
@@ -36,13 +35,14 @@ type DomainManager struct {
 // default DomainManager implementation.
 func NewDomainManager(maxHierarchyLevel int) *DomainManager {
 	dm := &DomainManager{}
-	_ = dm.Clear() // init rmMap and rmCache
 	dm.maxHierarchyLevel = maxHierarchyLevel
+	_ = dm.Clear() // init rm, rmMap and rmCache
 	return dm
 }
 
 func (dm *DomainManager) SetMatcher(matcher util.IMatcher) {
 	dm.matcher = matcher
+	dm.rm.SetMatcher(matcher)
 	dm.rmMap.Range(func(key, value interface{}) bool {
 		value.(IDefaultRoleManager).SetMatcher(matcher)
 		return true
@@ -61,9 +61,9 @@ func (dm *DomainManager) SetDomainMatcher(matcher util.IMatcher) {
 
 // clears the map of RoleManagers
 func (dm *DomainManager) rebuild() {
-	rmMap := dm.rmMap
+	rm, rmMap := dm.rm, dm.rmMap
 	_ = dm.Clear()
-	dm.rangeLinks(rmMap, func(name1, name2 string, domain ...string) bool {
+	rangeDomainLinks(rm, rmMap, func(name1, name2 string, domain ...string) bool {
 		_, _ = dm.AddLink(name1, name2, domain...)
 		return true
 	})
@@ -71,21 +71,13 @@ func (dm *DomainManager) rebuild() {
 
 //Clear clears all stored data and resets the role manager to the initial state.
 func (dm *DomainManager) Clear() error {
+	dm.rm = newRoleManagerWithMatchingFunc(dm.maxHierarchyLevel-1, dm.matcher)
 	dm.rmMap = &sync.Map{}
 	dm.patternMap = &sync.Map{}
 	dm.matchingFuncCache = util.NewSyncLRUCache(100)
 	return nil
 }
 
-func (dm *DomainManager) getDomain(domains ...string) (domain string, subdomains []string, err error) {
-	if len(domains) == 0 {
-		return defaultDomain, []string{}, nil
-	} else if domains[0] == REDUNDANT_ROLE {
-		return defaultDomain, []string{REDUNDANT_ROLE}, nil
-	}
-	return domains[0], domains[1:], nil
-}
-
 func (dm *DomainManager) match(str string, pattern string) bool {
 	cacheKey := strings.Join([]string{str, pattern}, "$$")
 	if v, has := dm.matchingFuncCache.Get(cacheKey); has {
@@ -97,24 +89,24 @@ func (dm *DomainManager) match(str string, pattern string) bool {
 	}
 }
 
-func (dm *DomainManager) load(name interface{}) (value IDefaultRoleManager, ok bool) {
+func (dm *DomainManager) load(name interface{}) (value linkManager, ok bool) {
 	if r, ok := dm.rmMap.Load(name); ok {
-		return r.(IDefaultRoleManager), true
+		return r.(linkManager), true
 	}
 	return nil, false
 }
 
-func (dm *DomainManager) rangeMatchingRMs(pattern string, fn func(rm IRoleManager)) {
+func (dm *DomainManager) rangeMatchingRMs(pattern string, fn func(rm linkManager)) {
 	dm.rmMap.Range(func(key, value interface{}) bool {
 		domain := key.(string)
 		if pattern != domain && dm.match(domain, pattern) {
-			fn(value.(IRoleManager))
+			fn(value.(linkManager))
 		}
 		return true
 	})
 }
 
-func (dm *DomainManager) rangeMatchingPatterns(domain string, fn func(rm IRoleManager)) {
+func (dm *DomainManager) rangeMatchingPatterns(domain string, fn func(rm linkManager)) {
 	dm.patternMap.Range(func(key, _ interface{}) bool {
 		pattern := key.(string)
 		if pattern != domain && dm.match(domain, pattern) {
@@ -125,19 +117,19 @@ func (dm *DomainManager) rangeMatchingPatterns(domain string, fn func(rm IRoleMa
 	})
 }
 
-// load or create a RoleManager instance of domain
-func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ...string) IRoleManager {
-	var rm IDefaultRoleManager
-	var ok bool
-
-	if rm, ok = dm.load(domain); !ok {
-		if domain != defaultDomain {
-			rm = NewDomainManager(dm.maxHierarchyLevel - 1)
-			rm.SetMatcher(dm.matcher)
-			rm.SetDomainMatcher(dm.domainMatcher)
-		} else {
-			rm = newRoleManagerWithMatchingFunc(dm.maxHierarchyLevel-1, dm.matcher)
-		}
+// load or create a RoleManager instance of domains[0]
+// the remaining domains are returned as subdomains
+func (dm *DomainManager) getRoleManager(store bool, domains ...string) (rm linkManager, subdomains []string) {
+	if len(domains) == 0 {
+		return dm.rm, domains
+	}
+
+	domain, subdomains := domains[0], domains[1:]
+	rm, ok := dm.load(domain)
+	if !ok {
+		rm = NewDomainManager(dm.maxHierarchyLevel - 1)
+		rm.SetMatcher(dm.matcher)
+		rm.SetDomainMatcher(dm.domainMatcher)
 		if store {
 			dm.rmMap.Store(domain, rm)
 		}
@@ -145,95 +137,85 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 			if dm.domainMatcher.IsPattern(domain) {
 				dm.patternMap.Store(domain, nil)
 			} else {
-				dm.rangeMatchingPatterns(domain, func(rm2 IRoleManager) {
+				dm.rangeMatchingPatterns(domain, func(rm2 linkManager) {
 					rm2.Range(func(name1, name2 string, domain ...string) bool {
-						_, _ = rm.AddLink(name1, name2, append(domain, REDUNDANT_ROLE)...)
+						rm.addLink(true, name1, name2, domain...)
 						return true
 					})
 				})
 			}
 		}
 	}
-	return rm
+	return rm, subdomains
 }
 
 // AddLink adds the inheritance link between role: name1 and role: name2.
 // aka role: name1 inherits role: name2.
 func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
-	domain, subdomains, err := dm.getDomain(domains...)
-	if err != nil {
-		return false, err
-	}
-	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
-	added, _ := roleManager.AddLink(name1, name2, subdomains...)
+	return dm.addLink(false, name1, name2, domains...), nil
+}
+
+func (dm *DomainManager) addLink(redundant bool, name1, name2 string, domains ...string) bool {
+	roleManager, subdomains := dm.getRoleManager(true, domains...) //create role manager if it does not exist
+	added := roleManager.addLink(redundant, name1, name2, subdomains...)
 
-	if added && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
-		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.AddLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
+	if added && dm.isPattern(domains) {
+		dm.rangeMatchingRMs(domains[0], func(rm linkManager) {
+			rm.addLink(true, name1, name2, subdomains...)
 		})
 	}
-	return added, nil
+	return added
 }
 
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
 // aka role: name1 does not inherit role: name2 any more.
 func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...string) (bool, error) {
-	domain, subdomains, err := dm.getDomain(domains...)
-	if err != nil {
-		return false, err
-	}
-	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
-	removed, _ := roleManager.DeleteLink(name1, name2, subdomains...)
+	return dm.deleteLink(false, name1, name2, domains...), nil
+}
+
+func (dm *DomainManager) deleteLink(redundant bool, name1, name2 string, domains ...string) bool {
+	roleManager, subdomains := dm.getRoleManager(true, domains...) //create role manager if it does not exist
+	removed := roleManager.deleteLink(redundant, name1, name2, subdomains...)
 
-	if removed && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
-		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.DeleteLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
+	if removed && dm.isPattern(domains) {
+		dm.rangeMatchingRMs(domains[0], func(rm linkManager) {
+			rm.deleteLink(true, name1, name2, subdomains...)
 		})
 	}
-	return removed, nil
+	return removed
+}
+
+// isPattern determines whether domains[0] is a pattern domain
+func (dm *DomainManager) isPattern(domains []string) bool {
+	return len(domains) > 0 && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domains[0])
 }
 
 // HasLink determines whether role: name1 inherits role: name2.
 func (dm *DomainManager) HasLink(name1 string, name2 string, domains ...string) (bool, error) {
-	domain, subdomains, err := dm.getDomain(domains...)
-	if err != nil {
-		return false, err
-	}
-	rm := dm.getRoleManager(domain, false, subdomains...)
+	rm, subdomains := dm.getRoleManager(false, domains...)
 	return rm.HasLink(name1, name2, subdomains...)
 }
 
 // GetRoles gets the roles that a subject inherits.
 func (dm *DomainManager) GetRoles(name string, domains ...string) ([]string, error) {
-	domain, subdomains, err := dm.getDomain(domains...)
-	if err != nil {
-		return nil, err
-	}
-	rm := dm.getRoleManager(domain, false, subdomains...)
+	rm, subdomains := dm.getRoleManager(false, domains...)
 	return rm.GetRoles(name, subdomains...)
 }
 
 // GetUsers gets the users of a role.
 func (dm *DomainManager) GetUsers(name string, domains ...string) ([]string, error) {
-	domain, subdomains, err := dm.getDomain(domains...)
-	if err != nil {
-		return nil, err
-	}
-	rm := dm.getRoleManager(domain, false, subdomains...)
+	rm, subdomains := dm.getRoleManager(false, domains...)
 	return rm.GetUsers(name, subdomains...)
 }
 
 func (dm *DomainManager) resolveRoleManager(domains ...string) *RoleManager {
-	var domain string
 	domainManager := dm
-	domain, subdomains, _ := dm.getDomain(domains...)
-
-	for domain != defaultDomain {
-		domainManager = domainManager.getRoleManager(domain, false, subdomains...).(*DomainManager)
-		domain, subdomains, _ = dm.getDomain(subdomains...)
+	for len(domains) > 0 {
+		var rm linkManager
+		rm, domains = domainManager.getRoleManager(false, domains...)
+		domainManager = rm.(*DomainManager)
 	}
-
-	return domainManager.getRoleManager(domain, false, subdomains...).(*RoleManager)
+	return domainManager.rm
 }
 
 // GetDomains gets domains that a user has
@@ -285,14 +267,18 @@ func (dm *DomainManager) GetAllDomains() ([]string, error) {
 	return res, nil
 }
 
-func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
+func rangeDomainLinks(rm *RoleManager, rmMap *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
 	cont := true
+	rm.Range(func(name1, name2 string, _ ...string) bool {
+		cont = fn(name1, name2)
+		return cont
+	})
+	if !cont {
+		return
+	}
 	rmMap.Range(func(key, value interface{}) bool {
 		roleManager := value.(IRoleManager)
-		domains := []string{}
-		if d := key.(string); d != defaultDomain {
-			domains = append(domains, d)
-		}
+		domains := []string{key.(string)}
 
 		roleManager.Range(func(name1, name2 string, domain ...string) bool {
 			cont = fn(name1, name2, append(domains, domain...)...)
@@ -304,5 +290,5 @@ func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string
 }
 
 func (dm *DomainManager) Range(fn func(name1, name2 string, domain ...string) bool) {
-	dm.rangeLinks(dm.rmMap, fn)
+	rangeDomainLinks(dm.rm, dm.rmMap, fn)
 }
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 1ad670d..1e5ba5f 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -21,7 +21,14 @@ import (
 	"github.com/abichinger/fastac/util"
 )
 
-const REDUNDANT_ROLE = "redundant_role"
+// linkManager is implemented by the role managers of this package
+// links, which are implied by a pattern domain, are called redundant
+type linkManager interface {
+	IDefaultRoleManager
+
+	addLink(redundant bool, name1, name2 string, domains ...string) bool
+	deleteLink(redundant bool, name1, name2 string, domains ...string) bool
+}
 
 // RoleManager provides a default implementation for the RoleManager interface
 type RoleManager struct {
@@ -161,21 +168,27 @@ func (rm *RoleManager) Clear() error {
 // AddLink adds the inheritance link between role: name1 and role: name2.
 // aka role: name1 inherits role: name2.
 func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
+	return rm.addLink(false, name1, name2, domains...), nil
+}
+
+func (rm *RoleManager) addLink(redundant bool, name1, name2 string, domains ...string) bool {
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
-	redundant := len(domains) > 0 && domains[0] == REDUNDANT_ROLE
-	return user.addLink(role, redundant), nil
+	return user.addLink(role, redundant)
 }
 
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
 // aka role: name1 does not inherit role: name2 any more.
 func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string) (bool, error) {
+	return rm.deleteLink(false, name1, name2, domains...), nil
+}
+
+func (rm *RoleManager) deleteLink(redundant bool, name1, name2 string, domains ...string) bool {
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
-	redundant := len(domains) > 0 && domains[0] == REDUNDANT_ROLE
-	return user.removeLink(role, redundant), nil
+	return user.removeLink(role, redundant)
 }
 
 // HasLink determines whether role: name1 inherits role: name2.
-- 
2.43.0


From c87a3571dde95409783b73c5ec695cf85b487c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 31/54] fix: apply the links of pattern domains to nested
 domains, regardless of queries on pattern domains

---
 rbac/domain_manager.go | 59 ++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 61d5c92..21c92ee 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -24,13 +24,20 @@ import (
 type DomainManager struct {
 	rm                *RoleManager //links without a domain
 	rmMap             *sync.Map    //links of each domain
-	patternMap        *sync.Map
+	patternLinks      *sync.Map
 	maxHierarchyLevel int
 	matcher           util.IMatcher
 	domainMatcher     util.IMatcher
 	matchingFuncCache *util.SyncLRUCache
 }
 
+// patternLink is a link of a pattern domain
+type patternLink struct {
+	name1, name2 string
+	domains      []string
+	count        int
+}
+
 // NewDomainManager is the constructor for creating an instance of the
 // default DomainManager implementation.
 func NewDomainManager(maxHierarchyLevel int) *DomainManager {
@@ -73,7 +80,7 @@ func (dm *DomainManager) rebuild() {
 func (dm *DomainManager) Clear() error {
 	dm.rm = newRoleManagerWithMatchingFunc(dm.maxHierarchyLevel-1, dm.matcher)
 	dm.rmMap = &sync.Map{}
-	dm.patternMap = &sync.Map{}
+	dm.patternLinks = &sync.Map{}
 	dm.matchingFuncCache = util.NewSyncLRUCache(100)
 	return nil
 }
@@ -96,27 +103,44 @@ func (dm *DomainManager) load(name interface{}) (value linkManager, ok bool) {
 	return nil, false
 }
 
+// rangeMatchingRMs ranges over the domains which match pattern
 func (dm *DomainManager) rangeMatchingRMs(pattern string, fn func(rm linkManager)) {
 	dm.rmMap.Range(func(key, value interface{}) bool {
 		domain := key.(string)
-		if pattern != domain && dm.match(domain, pattern) {
+		if !dm.domainMatcher.IsPattern(domain) && dm.match(domain, pattern) {
 			fn(value.(linkManager))
 		}
 		return true
 	})
 }
 
-func (dm *DomainManager) rangeMatchingPatterns(domain string, fn func(rm linkManager)) {
-	dm.patternMap.Range(func(key, _ interface{}) bool {
-		pattern := key.(string)
-		if pattern != domain && dm.match(domain, pattern) {
-			value, _ := dm.load(pattern)
-			fn(value)
+// rangePatternLinks ranges over the links of the patterns which domain matches
+func (dm *DomainManager) rangePatternLinks(domain string, fn func(link patternLink)) {
+	dm.patternLinks.Range(func(_, value interface{}) bool {
+		link := value.(patternLink)
+		if dm.match(domain, link.domains[0]) {
+			for i := 0; i < link.count; i++ {
+				fn(link)
+			}
 		}
 		return true
 	})
 }
 
+// countPatternLink adds n to the number of times a link of a pattern domain has been added
+func (dm *DomainManager) countPatternLink(n int, name1, name2 string, domains []string) {
+	key := util.Hash(append([]string{name1, name2}, domains...))
+	link := patternLink{name1, name2, append([]string{}, domains...), n}
+	if value, ok := dm.patternLinks.Load(key); ok {
+		link.count += value.(patternLink).count
+	}
+	if link.count > 0 {
+		dm.patternLinks.Store(key, link)
+	} else {
+		dm.patternLinks.Delete(key)
+	}
+}
+
 // load or create a RoleManager instance of domains[0]
 // the remaining domains are returned as subdomains
 func (dm *DomainManager) getRoleManager(store bool, domains ...string) (rm linkManager, subdomains []string) {
@@ -133,17 +157,10 @@ func (dm *DomainManager) getRoleManager(store bool, domains ...string) (rm linkM
 		if store {
 			dm.rmMap.Store(domain, rm)
 		}
-		if dm.domainMatcher != nil {
-			if dm.domainMatcher.IsPattern(domain) {
-				dm.patternMap.Store(domain, nil)
-			} else {
-				dm.rangeMatchingPatterns(domain, func(rm2 linkManager) {
-					rm2.Range(func(name1, name2 string, domain ...string) bool {
-						rm.addLink(true, name1, name2, domain...)
-						return true
-					})
-				})
-			}
+		if dm.domainMatcher != nil && !dm.domainMatcher.IsPattern(domain) {
+			dm.rangePatternLinks(domain, func(link patternLink) {
+				rm.addLink(true, link.name1, link.name2, link.domains[1:]...)
+			})
 		}
 	}
 	return rm, subdomains
@@ -160,6 +177,7 @@ func (dm *DomainManager) addLink(redundant bool, name1, name2 string, domains ..
 	added := roleManager.addLink(redundant, name1, name2, subdomains...)
 
 	if added && dm.isPattern(domains) {
+		dm.countPatternLink(1, name1, name2, domains)
 		dm.rangeMatchingRMs(domains[0], func(rm linkManager) {
 			rm.addLink(true, name1, name2, subdomains...)
 		})
@@ -178,6 +196,7 @@ func (dm *DomainManager) deleteLink(redundant bool, name1, name2 string, domains
 	removed := roleManager.deleteLink(redundant, name1, name2, subdomains...)
 
 	if removed && dm.isPattern(domains) {
+		dm.countPatternLink(-1, name1, name2, domains)
 		dm.rangeMatchingRMs(domains[0], func(rm linkManager) {
 			rm.deleteLink(true, name1, name2, subdomains...)
 		})
-- 
2.43.0


From d34a0f6b2ae86bda190d7b3d5a4b439309301f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 32/54] fix: keep the links of pattern domains when a matcher
 gets set

---
 rbac/domain_manager.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 21c92ee..b9c8c78 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -49,11 +49,7 @@ func NewDomainManager(maxHierarchyLevel int) *DomainManager {
 
 func (dm *DomainManager) SetMatcher(matcher util.IMatcher) {
 	dm.matcher = matcher
-	dm.rm.SetMatcher(matcher)
-	dm.rmMap.Range(func(key, value interface{}) bool {
-		value.(IDefaultRoleManager).SetMatcher(matcher)
-		return true
-	})
+	dm.rebuild()
 }
 
 // SetDomainMatcher support use domain pattern in g
-- 
2.43.0


From 07ae61d911262eebea09529fe2b65e2a431513ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 33/54] fix: do not mix up nested domains whose joined names
 are equal

---
 rbac/domain_manager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index b9c8c78..69b8c09 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -257,8 +257,7 @@ func (dm *DomainManager) GetDomains(name string) ([]string, error) {
 func (dm *DomainManager) getAllDomainsHelper() ([][]string, error) {
 	domainMap := make(map[string][]string)
 	dm.Range(func(name1, name2 string, domains ...string) bool {
-		domain := strings.Join(domains, "/")
-		domainMap[domain] = domains
+		domainMap[util.Hash(domains)] = domains
 		return true
 	})
 	domains := [][]string{}
-- 
2.43.0


From 0ee18975e2a7c89030fdf8156e1e631ac6a172c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 34/54] fix: do not mix up cached matches of names which
 contain a separator

---
 rbac/domain_manager.go | 2 +-
 rbac/role_manager.go   | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 69b8c09..b7cb32b 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -82,7 +82,7 @@ func (dm *DomainManager) Clear() error {
 }
 
 func (dm *DomainManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	cacheKey := util.Hash([]string{str, pattern})
 	if v, has := dm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 1e5ba5f..4c0e2a4 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -15,7 +15,6 @@
 package rbac
 
 import (
-	"strings"
 	"sync"
 
 	"github.com/abichinger/fastac/util"
@@ -67,7 +66,7 @@ func (rm *RoleManager) rebuild() {
 }
 
 func (rm *RoleManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	cacheKey := util.Hash([]string{str, pattern})
 	if v, has := rm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
-- 
2.43.0


From 77e8ceea39cd207ed2b670c50d677a4c8572eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 35/54] fix: match patterns with existing patterns, regardless
 of the order they were added

---
 rbac/role_manager.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 4c0e2a4..1a64da4 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -119,11 +119,10 @@ func (rm *RoleManager) getRole(name string) (r *Role, created bool) {
 				rm.rangeMatchingRoles(name, func(r *Role) {
 					role.addMatch(r)
 				})
-			} else {
-				rm.rangeMatchingPatterns(name, func(r *Role) {
-					r.addMatch(role)
-				})
 			}
+			rm.rangeMatchingPatterns(name, func(r *Role) {
+				r.addMatch(role)
+			})
 		}
 	}
 
-- 
2.43.0


From a031fc39684525b079599fc563c35e42a5723f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 36/54] fix: forget names which are not part of any link

---
 rbac/role_manager.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 1a64da4..45ab373 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -186,7 +186,24 @@ func (rm *RoleManager) deleteLink(redundant bool, name1, name2 string, domains .
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
-	return user.removeLink(role, redundant)
+	removed := user.removeLink(role, redundant)
+	rm.removeUnlinked(user)
+	rm.removeUnlinked(role)
+	return removed
+}
+
+// removes role, if it is not part of any link
+func (rm *RoleManager) removeUnlinked(role *Role) {
+	linked := false
+	found := func(key, value interface{}) bool {
+		linked = true
+		return false
+	}
+	role.roles.Range(found)
+	role.users.Range(found)
+	if !linked {
+		rm.removeRole(role.name)
+	}
 }
 
 // HasLink determines whether role: name1 inherits role: name2.
-- 
2.43.0


From 92ba645e2c0e7b1abcd38953df61b4cc4e889761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 37/54] fix: do not share the eval function between
 simultaneous and nested calls

---
 model/matcher/matcher.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 1836fe5..2368128 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -257,8 +257,7 @@ func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherN
 
 func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap fm.FunctionMap, fn func(rule []string) bool) error {
 	params := NewMatchParameters(*m.pDef, nil, rDef, rvals)
-	fMap.SetFunction("eval", generateEvalFunction(fMap, params))
-	functions := fMap.GetFunctions()
+	functions := generateFunctions(fMap, params)
 
 	// a rule can match several alternatives, but should only be reported once
 	if m.exprRoot.HasAlternatives() {
@@ -290,8 +289,18 @@ func eval(expression string, functions map[string]govaluate.ExpressionFunction,
 	return expr.Eval(parameters)
 }
 
-func generateEvalFunction(fMap fm.FunctionMap, parameters *MatchParameters) govaluate.ExpressionFunction {
-	functions := fMap.GetFunctions()
+// generateFunctions returns a copy of all functions including an eval function which uses the given parameters
+// fMap stays untouched, because it is shared with all other calls of RangeMatches
+func generateFunctions(fMap fm.FunctionMap, parameters *MatchParameters) map[string]govaluate.ExpressionFunction {
+	functions := make(map[string]govaluate.ExpressionFunction)
+	for name, function := range fMap.GetFunctions() {
+		functions[name] = function
+	}
+	functions["eval"] = generateEvalFunction(functions, parameters)
+	return functions
+}
+
+func generateEvalFunction(functions map[string]govaluate.ExpressionFunction, parameters *MatchParameters) govaluate.ExpressionFunction {
 	depth := 0
 
 	return func(args ...interface{}) (interface{}, error) {
-- 
2.43.0


From f03735b134c93e79f956fbef2a32de08b4036bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 38/54] fix: make simultaneous queries of a role manager safe

---
 rbac/domain_manager.go |  8 +++-----
 rbac/role_manager.go   | 10 ++++++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index b7cb32b..a7a6f7d 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -243,11 +243,9 @@ func (dm *DomainManager) GetDomains(name string) ([]string, error) {
 	res := []string{}
 	for _, domains := range domainArr {
 		rm := dm.resolveRoleManager(domains...)
-		role, created := rm.getRole(name)
-		if created {
-			defer rm.removeRole(role.name)
-		}
-		if len(role.getUsers()) > 0 || len(role.getRoles()) > 0 {
+		roles, _ := rm.GetRoles(name)
+		users, _ := rm.GetUsers(name)
+		if len(users) > 0 || len(roles) > 0 {
 			res = append(res, strings.Join(domains, "/"))
 		}
 	}
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 45ab373..904c478 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -31,6 +31,7 @@ type linkManager interface {
 
 // RoleManager provides a default implementation for the RoleManager interface
 type RoleManager struct {
+	mu                sync.Mutex //unknown names are added temporarily, to find the patterns they match
 	allRoles          *sync.Map
 	patternRoles      *sync.Map
 	maxHierarchyLevel int
@@ -212,6 +213,9 @@ func (rm *RoleManager) HasLink(name1 string, name2 string, domains ...string) (b
 		return true, nil
 	}
 
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
 	user, userCreated := rm.getRole(name1)
 	role, roleCreated := rm.getRole(name2)
 
@@ -246,6 +250,9 @@ func (rm *RoleManager) hasLinkHelper(targetName string, roles map[string]*Role,
 
 // GetRoles gets the roles that a user inherits.
 func (rm *RoleManager) GetRoles(name string, domains ...string) ([]string, error) {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
 	user, created := rm.getRole(name)
 	if created {
 		defer rm.removeRole(user.name)
@@ -256,6 +263,9 @@ func (rm *RoleManager) GetRoles(name string, domains ...string) ([]string, error
 // GetUsers gets the users of a role.
 // domain is an unreferenced parameter here, may be used in other implementations.
 func (rm *RoleManager) GetUsers(name string, domain ...string) ([]string, error) {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
 	role, created := rm.getRole(name)
 	if created {
 		defer rm.removeRole(role.name)
-- 
2.43.0


From ca15b5f5202c917bd808bd371d601e8eb95e6692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 39/54] fix: filter grouping rules which have subdomains by the
 right values

---
 model/model.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index 13e7563..1d73183 100644
--- a/model/model.go
+++ b/model/model.go
@@ -232,7 +232,13 @@ func (m *Model) BuildMatcherFromDef(mDef *defs.MatcherDef) (matcher.IMatcher, er
 		}
 		pDef = def.(*defs.PolicyDef)
 	case G_SEC:
-		pDef = defs.NewPolicyDef(pKey, "user, role, domain")
+		args := "user, role, domain"
+		if rDef, ok := m.defs[G_SEC][pKey].(*defs.RoleDef); ok {
+			for i := 3; i < rDef.NArgs(); i++ {
+				args += fmt.Sprintf(", subdomain%d", i-2)
+			}
+		}
+		pDef = defs.NewPolicyDef(pKey, args)
 	default:
 		return nil, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, pKey)
 	}
-- 
2.43.0


From db8362ea5db1b612f478319fb9e2366f2015554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 40/54] fix: create the default logger eagerly, Logger gets
 called simultaneously

---
 log/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index f7858f5..d70759f 100644
--- a/log/log.go
+++ b/log/log.go
@@ -6,7 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
-var defaultLogger log.FieldLogger
+var defaultLogger log.FieldLogger = NullLogger()
 
 func NullLogger() log.FieldLogger {
 	log := log.New()
-- 
2.43.0


From a84b58621e18262cf552322c4dec915380612a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 41/54] fix: do not crash if a cache without capacity gets used

---
 util/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/cache.go b/util/cache.go
index 4d56f33..ee68d53 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -68,6 +68,9 @@ func (cache *LRUCache) Get(key interface{}) (value interface{}, ok bool) {
 }
 
 func (cache *LRUCache) Put(key interface{}, value interface{}) {
+	if cache.capacity < 1 {
+		return
+	}
 	n, ok := cache.m[key]
 	if ok {
 		cache.remove(n, false)
-- 
2.43.0


From 2478c0857e27334086a4af9438953fe1714dc286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 42/54] fix: quote matchers with comment signs or line breaks
 in the text form of a model

---
 model/defs/matcher_def.go |  2 +-
 model/defs/util.go        | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 1fe110b..4ad6dfa 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -293,6 +293,6 @@ func (def *MatcherDef) GetPolicyKey() string {
 }
 
 func (def *MatcherDef) String() string {
-	return fmt.Sprintf("%s = %s", def.key, def.expr)
+	return fmt.Sprintf("%s = %s", def.key, quoteValue(def.expr))
 
 }
diff --git a/model/defs/util.go b/model/defs/util.go
index 24f8726..f113f72 100644
--- a/model/defs/util.go
+++ b/model/defs/util.go
@@ -23,3 +23,15 @@ func SplitMatcherKey(key string) (string, int) {
 	}
 	return mKey, index
 }
+
+// quoteValue quotes a value which could not be restored from a model file otherwise,
+// because it contains comment signs, line breaks or surrounding quotes
+func quoteValue(value string) string {
+	if !strings.ContainsAny(value, "#;\n") && strings.TrimLeft(value, "\"'`") == value && !strings.HasSuffix(value, "\\") {
+		return value
+	}
+	if strings.Contains(value, "\n") && strings.Contains(value, "`") {
+		return `"""` + value + `"""`
+	}
+	return "`" + value + "`"
+}
-- 
2.43.0


From 0f8fdfef392bf57a12e95ae114fb6c79c67df646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 43/54] fix: refuse expressions with misplaced brackets, a part
 of them would be ignored

---
 model/defs/matcher_def.go | 32 +++++++++++++++++++++++++++++++-
 model/matcher/matcher.go  |  2 +-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 4ad6dfa..bd81b53 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -240,6 +240,36 @@ func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [
 	}
 }
 
+// ParseExpression parses expr and rejects misplaced brackets, which govaluate accepts,
+// although it ignores everything that follows them
+func ParseExpression(expr string, functions map[string]govaluate.ExpressionFunction) (*govaluate.EvaluableExpression, error) {
+	parsedExpr, err := govaluate.NewEvaluableExpressionWithFunctions(expr, functions)
+	if err != nil {
+		return nil, err
+	}
+
+	depth := 0
+	prevKind := govaluate.UNKNOWN
+	for _, token := range parsedExpr.Tokens() {
+		switch token.Kind {
+		case govaluate.CLAUSE_CLOSE:
+			depth--
+		case govaluate.CLAUSE, govaluate.NUMERIC, govaluate.BOOLEAN, govaluate.STRING, govaluate.PATTERN, govaluate.TIME, govaluate.VARIABLE, govaluate.ACCESSOR, govaluate.FUNCTION:
+			if prevKind == govaluate.CLAUSE_CLOSE {
+				return nil, fmt.Errorf("missing operator after ')': %s", expr)
+			}
+			if token.Kind == govaluate.CLAUSE {
+				depth++
+			}
+		}
+		if depth < 0 {
+			return nil, fmt.Errorf("unbalanced brackets: %s", expr)
+		}
+		prevKind = token.Kind
+	}
+	return parsedExpr, nil
+}
+
 func NewMatcherDef(key string, expr string) *MatcherDef {
 	return &MatcherDef{key, expr, nil}
 }
@@ -260,7 +290,7 @@ func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction)
 
 	def.root = NewMatcherStage("")
 	expr := EscapeArgs(def.expr)
-	parsedExpr, err := govaluate.NewEvaluableExpressionWithFunctions(expr, functions)
+	parsedExpr, err := ParseExpression(expr, functions)
 	if err != nil {
 		return err
 	}
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 2368128..5af3148 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -282,7 +282,7 @@ func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap f
 }
 
 func eval(expression string, functions map[string]govaluate.ExpressionFunction, parameters *MatchParameters) (interface{}, error) {
-	expr, err := govaluate.NewEvaluableExpressionWithFunctions(expression, functions)
+	expr, err := defs.ParseExpression(expression, functions)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6b292c282a09ada5ba0d488dfe8cbe684b54ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 44/54] fix: build a copy of the matcher definition of a
 context, simultaneous calls may share it

---
 context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 6a83916..56f8ab9 100644
--- a/context.go
+++ b/context.go
@@ -30,7 +30,8 @@ func SetMatcher(matcher interface{}) ContextOption {
 			}
 			ctx.matcher = m
 		case *defs.MatcherDef:
-			m, err := ctx.model.BuildMatcherFromDef(mType)
+			mDef := *mType //build a copy, simultaneous calls may share the definition
+			m, err := ctx.model.BuildMatcherFromDef(&mDef)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 5e73e24bd4e3734337f834cf7b971e393df0b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 45/54] fix: return errors of autosave instead of panicking
 inside of an event handler, which left the emitter locked

---
 enforcer.go           | 24 ++++++++++++++++--------
 storage/controller.go | 15 +++++++++++----
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index c4ede25..ac32521 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -178,7 +178,11 @@ func (e *Enforcer) Flush() error {
 // Add grouping rule:
 //  e.AddRule([]string{"g", "alice", "group1"})
 func (e *Enforcer) AddRule(rule []string) (bool, error) {
-	return e.model.AddRule(rule)
+	ok, err := e.model.AddRule(rule)
+	if saveErr := e.sc.AutosaveError(); err == nil {
+		err = saveErr
+	}
+	return ok, err
 }
 
 // RemoveRule removes a rule from the model
@@ -189,17 +193,21 @@ func (e *Enforcer) AddRule(rule []string) (bool, error) {
 // Add grouping rule:
 //  e.RemoveRule([]string{"g", "alice", "group1"})
 func (e *Enforcer) RemoveRule(rule []string) (bool, error) {
-	return e.model.RemoveRule(rule)
+	ok, err := e.model.RemoveRule(rule)
+	if saveErr := e.sc.AutosaveError(); err == nil {
+		err = saveErr
+	}
+	return ok, err
 }
 
 // AddRules adds multiple rules to the model
-func (e *Enforcer) AddRules(rules [][]string) error {
+func (e *Enforcer) AddRules(rules [][]string) (err error) {
 	if e.sc.AutosaveEnabled() {
 		e.sc.DisableAutosave()
 		defer func() {
 			e.sc.EnableAutosave()
-			if err := e.sc.Flush(); err != nil {
-				panic(err)
+			if saveErr := e.sc.Flush(); err == nil {
+				err = saveErr
 			}
 		}()
 	}
@@ -212,13 +220,13 @@ func (e *Enforcer) AddRules(rules [][]string) error {
 }
 
 // RemoveRules removes multiple rules from the model
-func (e *Enforcer) RemoveRules(rules [][]string) error {
+func (e *Enforcer) RemoveRules(rules [][]string) (err error) {
 	if e.sc.AutosaveEnabled() {
 		e.sc.DisableAutosave()
 		defer func() {
 			e.sc.EnableAutosave()
-			if err := e.sc.Flush(); err != nil {
-				panic(err)
+			if saveErr := e.sc.Flush(); err == nil {
+				err = saveErr
 			}
 		}()
 	}
diff --git a/storage/controller.go b/storage/controller.go
index 4f1e628..47cb7c3 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -46,6 +46,7 @@ type StorageController struct {
 	q         []operation
 	wait      int
 	listeners []listener
+	err       error
 }
 
 func NewStorageController(eventemitter api.IAddRemoveListener, adapter Adapter, autosave bool) *StorageController {
@@ -115,10 +116,8 @@ func (sc *StorageController) addOp(opc opcode, rule []string) {
 	if sc.autosave {
 		sc.wait--
 		if sc.wait <= 0 {
-			err := sc.Flush()
-			if err != nil {
-				panic(err)
-			}
+			// a panic inside of an event handler would leave the emitter locked
+			sc.err = sc.Flush()
 		}
 	}
 }
@@ -131,6 +130,13 @@ func (sc *StorageController) DisableAutosave() {
 	sc.autosave = false
 }
 
+// AutosaveError returns the error of the last automatic flush, every error is returned once
+func (sc *StorageController) AutosaveError() error {
+	err := sc.err
+	sc.err = nil
+	return err
+}
+
 func (sc *StorageController) AutosaveEnabled() bool {
 	return sc.autosave
 }
@@ -181,6 +187,7 @@ func (sc *StorageController) Flush() error {
 	}
 
 	sc.wait = 0
+	sc.err = nil
 	return err
 }
 
-- 
2.43.0


From 78695815d9a58564f26268cc6b184b1a8e5771db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 46/54] fix: return an error instead of crashing, if
 GetDistinct is called with a column that a rule does not have

---
 model/policy/policy_api.go | 11 +++++++++++
 str/errors.go              |  1 +
 2 files changed, 12 insertions(+)

diff --git a/model/policy/policy_api.go b/model/policy/policy_api.go
index 45381d1..b9bf163 100644
--- a/model/policy/policy_api.go
+++ b/model/policy/policy_api.go
@@ -1,7 +1,10 @@
 package policy
 
 import (
+	"fmt"
+
 	"github.com/abichinger/fastac/api"
+	"github.com/abichinger/fastac/str"
 	"github.com/abichinger/fastac/util"
 	em "github.com/vansante/go-event-emitter"
 )
@@ -22,15 +25,23 @@ type IPolicy interface {
 }
 
 func GetDistinct(p IPolicy, columns []int) ([][]string, error) {
+	var err error
 	resMap := make(map[string][]string)
 	p.Range(func(rule []string) bool {
 		values := make([]string, len(columns))
 		for i, column := range columns {
+			if column < 0 || column >= len(rule) {
+				err = fmt.Errorf(str.ERR_INVALID_COLUMN, column, rule)
+				return false
+			}
 			values[i] = rule[column]
 		}
 		resMap[util.Hash(values)] = values
 		return true
 	})
+	if err != nil {
+		return nil, err
+	}
 	res := make([][]string, 0)
 	for _, values := range resMap {
 		res = append(res, values)
diff --git a/str/errors.go b/str/errors.go
index ea95e8d..3238cba 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -23,5 +23,6 @@ const (
 	ERR_REQUESTDEF_NOT_FOUND = "error: request definition %s not found"
 	ERR_EFFECTOR_NOT_FOUND   = "error: effect definition %s not found"
 	ERR_INVALID_RULE         = "error: invalid rule %v"
+	ERR_INVALID_COLUMN       = "error: column %d not found in rule %v"
 	ERR_INVALID_MODEL        = "invalid model"
 )
-- 
2.43.0


From 269a843075538bd84184e5a158a71917f67b39d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 47/54] fix: let RegexMatcher match nothing, if a role or
 domain is no valid regular expression, instead of panicking at every later
 call

---
 util/builtin_operators.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index b0f3731..fda541a 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -229,8 +229,15 @@ var PathMatchFunc2 = WrapMatchingFunc(PathMatch2)
 var RegexMatchFunc = WrapMatchingFunc(RegexMatch)
 var IPMatchFunc = WrapMatchingFunc(IPMatch)
 
+// matchValidRegex matches nothing, if the pattern can not be parsed.
+// Names of roles and domains are not trusted, one of them must not break all the others
+func matchValidRegex(str, pattern string) bool {
+	matched, err := regexp.MatchString(pattern, str)
+	return err == nil && matched
+}
+
 const defaultPrefix = "p'"
 
 var PathMatcher = NewMatcher(IsPathPattern, PathMatch)
 var PathMatcher2 = NewMatcher(IsPathPattern2, PathMatch2)
-var RegexMatcher = NewPrefixMatcher(defaultPrefix, RegexMatch)
+var RegexMatcher = NewPrefixMatcher(defaultPrefix, matchValidRegex)
-- 
2.43.0


From a8f60f10654cb39116b0bb72deecc8d6d1fd461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 48/54] fix: apply the same hierarchy limit in every domain,
 links in (sub)domains were followed for fewer levels

---
 rbac/domain_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index a7a6f7d..72a1240 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -74,7 +74,7 @@ func (dm *DomainManager) rebuild() {
 
 //Clear clears all stored data and resets the role manager to the initial state.
 func (dm *DomainManager) Clear() error {
-	dm.rm = newRoleManagerWithMatchingFunc(dm.maxHierarchyLevel-1, dm.matcher)
+	dm.rm = newRoleManagerWithMatchingFunc(dm.maxHierarchyLevel, dm.matcher)
 	dm.rmMap = &sync.Map{}
 	dm.patternLinks = &sync.Map{}
 	dm.matchingFuncCache = util.NewSyncLRUCache(100)
@@ -147,7 +147,7 @@ func (dm *DomainManager) getRoleManager(store bool, domains ...string) (rm linkM
 	domain, subdomains := domains[0], domains[1:]
 	rm, ok := dm.load(domain)
 	if !ok {
-		rm = NewDomainManager(dm.maxHierarchyLevel - 1)
+		rm = NewDomainManager(dm.maxHierarchyLevel)
 		rm.SetMatcher(dm.matcher)
 		rm.SetDomainMatcher(dm.domainMatcher)
 		if store {
-- 
2.43.0


From 9e0f1f14d783a089dde773e3b865d55dd58fd2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:53 +0000
Subject: [PATCH 49/54] fix: save policy files atomically, a failure while
 saving lost the whole policy

---
 storage/adapter/fileadapter.go | 42 +++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 3b7dc99..be9faa9 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -17,6 +17,7 @@ package adapter
 import (
 	"bufio"
 	"encoding/csv"
+	"fmt"
 	"io"
 	"os"
 	"strings"
@@ -25,7 +26,6 @@ import (
 	"github.com/abichinger/fastac/api"
 	"github.com/abichinger/fastac/model/defs"
 	"github.com/abichinger/fastac/model/policy"
-	"github.com/abichinger/fastac/util"
 )
 
 // LoadPolicyLine loads a text line as a policy rule to model.
@@ -122,23 +122,30 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	return loadPolicy(file, model)
 }
 
-func createFile(path string) (*os.File, error) {
-	if exists, err := util.FileExists(path); err != nil {
-		return nil, err
-	} else if exists {
-		if err := os.Remove(path); err != nil {
-			return nil, err
+// createTemp creates a new file next to path
+func createTemp(path string) (*os.File, error) {
+	for i := 0; ; i++ {
+		file, err := os.OpenFile(fmt.Sprintf("%s.%d.tmp", path, i), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
+		if !os.IsExist(err) {
+			return file, err
 		}
 	}
-	return os.Create(path)
 }
 
-func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
-	file, err := createFile(a.path)
+// SavePolicy replaces the policy file after all rules have been written,
+// a failure or a crash leaves the previous file as it was
+func (a *FileAdapter) SavePolicy(model api.IRangeRules) (err error) {
+	file, err := createTemp(a.path)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	saved := false
+	defer func() {
+		if !saved {
+			file.Close()
+			os.Remove(file.Name())
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
 	model.RangeRules(func(rule []string) bool {
@@ -150,8 +157,17 @@ func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
 	if err != nil {
 		return err
 	}
-
-	return writer.Flush()
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	if err := file.Close(); err != nil {
+		return err
+	}
+	if err := os.Rename(file.Name(), a.path); err != nil {
+		return err
+	}
+	saved = true
+	return nil
 }
 
 func (a *FileAdapter) AddRule(rule []string) error {
-- 
2.43.0


From 8270fda293495c1e0e25bb71ccc573c44912b501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:36 +0000
Subject: [PATCH 50/54] fix: match paths in polynomial time, patterns with
 several stars could take forever

---
 util/builtin_operators.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index fda541a..55f60e8 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -166,6 +166,12 @@ func isDynamicSegment(segment string, prefix, suffix byte) bool {
 }
 
 func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
+	return pathMatchHelper(path, pattern, sep, prefix, suffix, nil)
+}
+
+// failed holds the lengths of the remaining paths and patterns, which are known not to match.
+// Without it, the time to match a path would be exponential to the number of stars.
+func pathMatchHelper(path, pattern, sep string, prefix, suffix byte, failed map[[2]int]struct{}) bool {
 	if path == pattern || pattern == "*" {
 		return true
 	}
@@ -179,14 +185,22 @@ func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
 		if !lastPatternSeg && lastPathSeg {
 			return false
 		}
-		return PathMatchHelper(path, pattern, sep, prefix, suffix) ||
-			PathMatchHelper(path, "*"+sep+pattern, sep, prefix, suffix)
+		key := [2]int{len(path), len(pattern)}
+		if _, ok := failed[key]; ok {
+			return false
+		}
+		if failed == nil {
+			failed = make(map[[2]int]struct{})
+		}
+		failed[key] = struct{}{}
+		return pathMatchHelper(path, pattern, sep, prefix, suffix, failed) ||
+			pathMatchHelper(path, "*"+sep+pattern, sep, prefix, suffix, failed)
 	}
 	if pathS == patternS || isDynamicSegment(patternS, prefix, suffix) {
 		if lastPathSeg != lastPatternSeg {
 			return false
 		}
-		return PathMatchHelper(path, pattern, sep, prefix, suffix)
+		return pathMatchHelper(path, pattern, sep, prefix, suffix, failed)
 	}
 	return false
 }
-- 
2.43.0


From 98d7b82c062d626e1662f0c5a6c47461cc0482cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:54 +0000
Subject: [PATCH 51/54] fix: refuse matchers whose alternatives multiply
 without bound

---
 model/defs/matcher_def.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index bd81b53..d2bd35f 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -208,35 +208,43 @@ func tokensToExpr(tokens []govaluate.ExpressionToken) string {
 	return res
 }
 
-func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [][]govaluate.ExpressionToken) error {
+// maximum number of stages of a matcher, the alternatives of (a || b) && (c || d) && ... multiply
+const maxStages = 1 << 14
+
+// buildExprTree appends the stages of tokens to node, remaining is the number of stages which may still be created
+func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [][]govaluate.ExpressionToken, remaining *int) error {
 	index, isBracket := nextOperator(tokens)
 
 	//expr is wrapped inside brackets
 	if isBracket {
-		return buildExprTree(node, tokens[1:len(tokens)-1], and)
+		return buildExprTree(node, tokens[1:len(tokens)-1], and, remaining)
 	}
 
 	//expr has no more logical operators
 	if index == -1 {
+		if *remaining == 0 {
+			return errors.New("matcher has too many alternatives")
+		}
+		*remaining--
 		nextNode := newMatcherStageFromTokens(tokens)
 		node.children = append(node.children, nextNode)
 		if len(and) > 0 {
 			bTokens := and[len(and)-1]
-			return buildExprTree(nextNode, bTokens, and[:len(and)-1])
+			return buildExprTree(nextNode, bTokens, and[:len(and)-1], remaining)
 		}
 		return nil
 	}
 
 	operator := tokens[index]
 	if operator.Value == "||" {
-		err := buildExprTree(node, tokens[:index], and)
+		err := buildExprTree(node, tokens[:index], and, remaining)
 		if err != nil {
 			return err
 		}
-		return buildExprTree(node, tokens[index+1:], and)
+		return buildExprTree(node, tokens[index+1:], and, remaining)
 	} else { // operator.Value == &&
 		//limit the capacity, otherwise sibling branches would overwrite each other's remaining clauses
-		return buildExprTree(node, tokens[:index], append(and[:len(and):len(and)], tokens[index+1:]))
+		return buildExprTree(node, tokens[:index], append(and[:len(and):len(and)], tokens[index+1:]), remaining)
 	}
 }
 
@@ -294,7 +302,8 @@ func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction)
 	if err != nil {
 		return err
 	}
-	return buildExprTree(def.root, parsedExpr.Tokens(), nil)
+	remaining := maxStages
+	return buildExprTree(def.root, parsedExpr.Tokens(), nil, &remaining)
 }
 
 func (def *MatcherDef) Root() *MatcherStage {
-- 
2.43.0


From 8dcbbe2f53e9cc0160a3d47b47fe4500ea95e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:45 +0000
Subject: [PATCH 52/54] fix: keep the mode and symbolic links of policy files

---
 storage/adapter/fileadapter.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index be9faa9..ad8400a 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 	"strings"
 	"unicode"
 
@@ -135,7 +136,11 @@ func createTemp(path string) (*os.File, error) {
 // SavePolicy replaces the policy file after all rules have been written,
 // a failure or a crash leaves the previous file as it was
 func (a *FileAdapter) SavePolicy(model api.IRangeRules) (err error) {
-	file, err := createTemp(a.path)
+	path := a.path
+	if target, err := filepath.EvalSymlinks(path); err == nil {
+		path = target
+	}
+	file, err := createTemp(path)
 	if err != nil {
 		return err
 	}
@@ -160,10 +165,15 @@ func (a *FileAdapter) SavePolicy(model api.IRangeRules) (err error) {
 	if err := writer.Flush(); err != nil {
 		return err
 	}
+	if info, err := os.Stat(path); err == nil {
+		if err := file.Chmod(info.Mode().Perm()); err != nil {
+			return err
+		}
+	}
 	if err := file.Close(); err != nil {
 		return err
 	}
-	if err := os.Rename(file.Name(), a.path); err != nil {
+	if err := os.Rename(file.Name(), path); err != nil {
 		return err
 	}
 	saved = true
-- 
2.43.0


From 4e632b8af3523e9ae82b9be4717c7d3460586cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 53/54] fix: leave nothing behind when a pattern matcher panics
 during a query

---
 rbac/domain_manager.go |  6 +++---
 rbac/role_manager.go   | 11 +++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 72a1240..c6c9ffb 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -150,14 +150,14 @@ func (dm *DomainManager) getRoleManager(store bool, domains ...string) (rm linkM
 		rm = NewDomainManager(dm.maxHierarchyLevel)
 		rm.SetMatcher(dm.matcher)
 		rm.SetDomainMatcher(dm.domainMatcher)
-		if store {
-			dm.rmMap.Store(domain, rm)
-		}
 		if dm.domainMatcher != nil && !dm.domainMatcher.IsPattern(domain) {
 			dm.rangePatternLinks(domain, func(link patternLink) {
 				rm.addLink(true, link.name1, link.name2, link.domains[1:]...)
 			})
 		}
+		if store {
+			dm.rmMap.Store(domain, rm)
+		}
 	}
 	return rm, subdomains
 }
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 904c478..d8e71b6 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -114,6 +114,13 @@ func (rm *RoleManager) getRole(name string) (r *Role, created bool) {
 		role = newRole(name)
 		rm.allRoles.Store(name, role)
 
+		matched := false
+		defer func() {
+			if !matched { //the matcher panicked
+				rm.removeRole(name)
+			}
+		}()
+
 		if rm.matcher != nil {
 			if rm.matcher.IsPattern(name) {
 				rm.patternRoles.Store(name, nil)
@@ -125,6 +132,7 @@ func (rm *RoleManager) getRole(name string) (r *Role, created bool) {
 				r.addMatch(role)
 			})
 		}
+		matched = true
 	}
 
 	return role, !ok
@@ -217,11 +225,10 @@ func (rm *RoleManager) HasLink(name1 string, name2 string, domains ...string) (b
 	defer rm.mu.Unlock()
 
 	user, userCreated := rm.getRole(name1)
-	role, roleCreated := rm.getRole(name2)
-
 	if userCreated {
 		defer rm.removeRole(user.name)
 	}
+	role, roleCreated := rm.getRole(name2)
 	if roleCreated {
 		defer rm.removeRole(role.name)
 	}
-- 
2.43.0


From 26671d7c2f643df20850930c1ec597d206061cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:55 +0000
Subject: [PATCH 54/54] fix: limit the number of nested eval calls

---
 model/matcher/matcher.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 5af3148..9f1eabd 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -28,6 +28,9 @@ import (
 // maximum number of nested eval calls, a rule is able to eval itself
 const maxEvalDepth = 16
 
+// maximum number of eval calls caused by one eval call of the matcher, nested calls are able to multiply
+const maxEvalCalls = 1 << 12
+
 type MatcherNode struct {
 	rule     []string
 	children []map[string]*MatcherNode
@@ -302,12 +305,17 @@ func generateFunctions(fMap fm.FunctionMap, parameters *MatchParameters) map[str
 
 func generateEvalFunction(functions map[string]govaluate.ExpressionFunction, parameters *MatchParameters) govaluate.ExpressionFunction {
 	depth := 0
+	calls := 0
 
 	return func(args ...interface{}) (interface{}, error) {
 		if err := util.ValidateVariadicArgs(1, args...); err != nil {
 			return false, fmt.Errorf("%s: %s", "eval", err)
 		}
-		if depth >= maxEvalDepth {
+		if depth == 0 {
+			calls = 0
+		}
+		calls++
+		if depth >= maxEvalDepth || calls > maxEvalCalls {
 			return false, errors.New("eval: too many nested calls")
 		}
 		depth++
-- 
2.43.0

