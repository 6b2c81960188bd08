From 06f7aec6e4c6df63a126ef358e7717f5c6e46d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 01/14] fix: copy the catalog's messages in
 GettextCatalog.Messages instead of dereferencing nil

---
 catalog/po.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/po.go b/catalog/po.go
index dbe8df8..4b9ad8f 100644
--- a/catalog/po.go
+++ b/catalog/po.go
@@ -67,7 +67,7 @@ func (c *GettextCatalog) Messages() PoLookupMap {
 		cpy[ctx] = make(map[string]*GettextMessage, len(c.lookupMap[ctx]))
 
 		for msgID := range c.lookupMap[ctx] {
-			msg := cpy[ctx][msgID]
+			msg := c.lookupMap[ctx][msgID]
 			cpy[ctx][msgID] = msg.Clone()
 		}
 	}
-- 
2.43.0


From 1b46dea1231947eb255ff22cd67f697f0745950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 02/14] fix: record the domain in catalogs decoded from po and
 mo files

---
 catalog/po_decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalog/po_decoder.go b/catalog/po_decoder.go
index 6edc53b..ed2ed80 100644
--- a/catalog/po_decoder.go
+++ b/catalog/po_decoder.go
@@ -127,6 +127,7 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 
 	cat := &GettextCatalog{
 		language:  lang,
+		domain:    domain,
 		lookupMap: lookupMap,
 	}
 
-- 
2.43.0


From db18852f3bae40680bb14476e35e01b058d0e81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:36 +0000
Subject: [PATCH 03/14] fix: reject a JSON catalog file whose content is null

json.Unmarshal(data, &cat) replaced the catalog interface itself with nil
for the JSON literal null, so Decode returned a nil catalog and no error.
---
 catalog/json_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/json_decoder.go b/catalog/json_decoder.go
index 8eb7f42..ff30804 100644
--- a/catalog/json_decoder.go
+++ b/catalog/json_decoder.go
@@ -16,7 +16,7 @@ func NewJSONDecoder() *JSONDecoder { return &JSONDecoder{} }
 
 func (JSONDecoder) Decode(lang language.Tag, domain string, data []byte) (Catalog, error) {
 	cat := NewJSONCatalog(lang, domain)
-	if err := json.Unmarshal(data, &cat); err != nil {
+	if err := json.Unmarshal(data, cat); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From f79be971dd0469e1de0222624a8c39899f313fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:32 +0000
Subject: [PATCH 04/14] fix: select gettext plural forms of integers without
 rounding them through float64

Integer counts above 2^53 were converted to float64 first, so the form of a
neighbouring number was selected.
---
 catalog/poplural/rule.go |  8 ++++++++
 internal/cast/number.go  | 28 ++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 01c7e43..1d11ba7 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -21,6 +21,14 @@ type Rule struct {
 // If the value is not an integer, it is formatted accordingly.
 // If formatting is not possible, an error is returned.
 func (f *Rule) Evaluate(a any) (int, error) {
+	// Integers are used as they are, a float64 cannot represent all of them.
+	if n, ok := cast.ToInt64(a); ok {
+		if n < 0 {
+			n = -n
+		}
+		return f.FormFunc(n), nil
+	}
+
 	num, err := cast.ToNumber(a)
 	if err != nil {
 		return 0, err
diff --git a/internal/cast/number.go b/internal/cast/number.go
index 0934cf7..59a7f95 100644
--- a/internal/cast/number.go
+++ b/internal/cast/number.go
@@ -3,6 +3,7 @@ package cast
 import (
 	"errors"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 )
@@ -57,6 +58,33 @@ func ToNumber(n any) (float64, error) {
 	return ToNumber(fmt.Sprintf("%v", n))
 }
 
+// ToInt64 returns the exact value of any Go integer (or pointer to one) that fits into an int64.
+func ToInt64(n any) (int64, bool) {
+	switch nt := Indirect(n).(type) {
+	case int:
+		return int64(nt), true
+	case int8:
+		return int64(nt), true
+	case int16:
+		return int64(nt), true
+	case int32:
+		return int64(nt), true
+	case int64:
+		return nt, true
+	case uint:
+		return int64(nt), uint64(nt) <= math.MaxInt64
+	case uint8:
+		return int64(nt), true
+	case uint16:
+		return int64(nt), true
+	case uint32:
+		return int64(nt), true
+	case uint64:
+		return int64(nt), nt <= math.MaxInt64
+	}
+	return 0, false
+}
+
 // Indirect returns the value, after dereferencing as many times
 // as necessary to reach the base type (or nil).
 // From html/template/content.go
-- 
2.43.0


From 25015935d252a3f98a565f2b9cc17c363f798307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:09 +0000
Subject: [PATCH 05/14] fix: look up plural rules along the CLDR parents before
 the base language

---
 catalog/cldrplural/builtin.go | 15 ++++++---------
 catalog/poplural/builtin.go   | 15 ++++++---------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/catalog/cldrplural/builtin.go b/catalog/cldrplural/builtin.go
index ad17b85..eaa190d 100644
--- a/catalog/cldrplural/builtin.go
+++ b/catalog/cldrplural/builtin.go
@@ -8,20 +8,17 @@ var fallbackLanguage = "en"
 // ForLanguage returns the set of rules for a language.
 // If no matching language is found, the English rule set and false are returned.
 func ForLanguage(lang language.Tag) (*RuleSet, bool) {
-	n := lang
-	for !n.IsRoot() {
+	for n := lang; !n.IsRoot(); n = n.Parent() {
 		if ruleSet := getBuiltInForLanguage(n.String()); ruleSet != nil {
 			return ruleSet, true
 		}
+	}
 
-		base, confidence := n.Base()
-		if confidence >= language.High {
-			if ruleSet := getBuiltInForLanguage(base.String()); ruleSet != nil {
-				return ruleSet, true
-			}
+	base, confidence := lang.Base()
+	if confidence >= language.High {
+		if ruleSet := getBuiltInForLanguage(base.String()); ruleSet != nil {
+			return ruleSet, true
 		}
-
-		n = n.Parent()
 	}
 
 	return getBuiltInForLanguage(fallbackLanguage), false
diff --git a/catalog/poplural/builtin.go b/catalog/poplural/builtin.go
index 50037ea..9aad235 100644
--- a/catalog/poplural/builtin.go
+++ b/catalog/poplural/builtin.go
@@ -19,20 +19,17 @@ func ForLanguage(lang language.Tag) (PluralFunc, bool) {
 }
 
 func pluralRuleForLanguage(lang language.Tag) (*Rule, bool) {
-	n := lang
-	for !n.IsRoot() {
+	for n := lang; !n.IsRoot(); n = n.Parent() {
 		if rule := getBuiltInForLanguage(n.String()); rule != nil {
 			return rule, true
 		}
+	}
 
-		base, confidence := n.Base()
-		if confidence >= language.High {
-			if rule := getBuiltInForLanguage(base.String()); rule != nil {
-				return rule, true
-			}
+	base, confidence := lang.Base()
+	if confidence >= language.High {
+		if rule := getBuiltInForLanguage(base.String()); rule != nil {
+			return rule, true
 		}
-
-		n = n.Parent()
 	}
 
 	return getBuiltInForLanguage(fallbackLanguage), false
-- 
2.43.0


From c1968cc5203352470ac5405162913307b9de6104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 06/14] fix: treat every non-zero operand of ?:, && and || in a
 Plural-Forms formula as true

---
 catalog/poplural/rule.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 1d11ba7..8f8b303 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -90,16 +90,16 @@ func evaluateNode(node ast.Node, num int64) int64 {
 	case *ast.OperandExpr:
 		return num
 	case *ast.QuestionMarkExpr:
-		if evaluateNode(v.Cond, num) == 1 {
+		if evaluateNode(v.Cond, num) != 0 {
 			return evaluateNode(v.T, num)
 		}
 		return evaluateNode(v.F, num)
 	case *ast.BinaryExpr:
 		switch v.Type() {
 		case ast.LogicalAnd:
-			conditionTrue = evaluateNode(v.X, num) == 1 && evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 && evaluateNode(v.Y, num) != 0
 		case ast.LogicalOr:
-			conditionTrue = evaluateNode(v.X, num) == 1 || evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 || evaluateNode(v.Y, num) != 0
 		case ast.Equal:
 			conditionTrue = evaluateNode(v.X, num) == evaluateNode(v.Y, num)
 		case ast.NotEqual:
-- 
2.43.0


From 91084125d18cd67353d899e4c3b6a4a2566c9f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:59 +0000
Subject: [PATCH 07/14] fix: accept chains of comparison and remainder
 operators in Plural-Forms formulas

---
 catalog/poplural/ast/parser.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/catalog/poplural/ast/parser.go b/catalog/poplural/ast/parser.go
index 2b439e4..c2e05b0 100644
--- a/catalog/poplural/ast/parser.go
+++ b/catalog/poplural/ast/parser.go
@@ -204,7 +204,7 @@ func (p *parser) equalityExpression() (Node, error) {
 		return nil, err
 	}
 
-	if p.lastToken == Equal || p.lastToken == NotEqual {
+	for p.lastToken == Equal || p.lastToken == NotEqual {
 		compareNode := &BinaryExpr{Op: p.lastToken}
 
 		if errScan := p.scanNext(); errScan != nil {
@@ -218,7 +218,7 @@ func (p *parser) equalityExpression() (Node, error) {
 
 		compareNode.X = n
 		compareNode.Y = re
-		return compareNode, nil
+		n = compareNode
 	}
 
 	return n, nil
@@ -230,7 +230,7 @@ func (p *parser) relationalExpression() (Node, error) {
 		return nil, err
 	}
 
-	if p.lastToken == Greater || p.lastToken == Less || p.lastToken == GreaterOrEqual || p.lastToken == LessOrEqual {
+	for p.lastToken == Greater || p.lastToken == Less || p.lastToken == GreaterOrEqual || p.lastToken == LessOrEqual {
 		compareNode := &BinaryExpr{Op: p.lastToken}
 
 		if errScan := p.scanNext(); errScan != nil {
@@ -244,7 +244,7 @@ func (p *parser) relationalExpression() (Node, error) {
 
 		compareNode.X = n
 		compareNode.Y = me
-		return compareNode, nil
+		n = compareNode
 	}
 
 	return n, nil
@@ -256,7 +256,7 @@ func (p *parser) multiplicativeExpression() (Node, error) {
 		return nil, err
 	}
 
-	if p.lastToken == Reminder {
+	for p.lastToken == Reminder {
 		if errScan := p.scanNext(); errScan != nil {
 			return nil, errScan
 		}
@@ -266,12 +266,11 @@ func (p *parser) multiplicativeExpression() (Node, error) {
 			return nil, errPm
 		}
 
-		modNode := &BinaryExpr{
+		n = &BinaryExpr{
 			X:  n,
 			Op: Reminder,
 			Y:  pm,
 		}
-		return modNode, nil
 	}
 
 	return n, nil
-- 
2.43.0


From 8f8ea3165b695d5ed922f563619dd284afafac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 08/14] fix: reject Plural-Forms numbers that are not integers
 in range

---
 catalog/poplural/ast/parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/catalog/poplural/ast/parser.go b/catalog/poplural/ast/parser.go
index c2e05b0..cc69f6e 100644
--- a/catalog/poplural/ast/parser.go
+++ b/catalog/poplural/ast/parser.go
@@ -50,7 +50,11 @@ func (p *parser) Parse() (*Forms, error) {
 	if tok, lit := p.scanIgnoreWhitespace(); tok != Value {
 		return nil, fmt.Errorf("po parser: found %q, expected '=' after nplurals", lit)
 	} else {
-		forms.NPlurals, _ = strconv.Atoi(lit)
+		n, err := strconv.Atoi(lit)
+		if err != nil {
+			return nil, fmt.Errorf("po parser: invalid number of plural forms %q: %w", lit, err)
+		}
+		forms.NPlurals = n
 	}
 
 	if tok, lit := p.scanIgnoreWhitespace(); tok != semicolon {
@@ -284,7 +288,10 @@ func (p *parser) pmExpression() (Node, error) {
 		}
 		return &OperandExpr{}, nil
 	case Value:
-		value, _ := strconv.ParseInt(p.lastLiteral, 10, 64)
+		value, errVal := strconv.ParseInt(p.lastLiteral, 10, 64)
+		if errVal != nil {
+			return nil, fmt.Errorf("po parser: invalid number %q: %w", p.lastLiteral, errVal)
+		}
 		if errScan := p.scanNext(); errScan != nil {
 			return nil, errScan
 		}
-- 
2.43.0


From d6e3a773abbbac849a4b86423d82402d2edf3404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 09/14] fix: keep the grouping of a Plural-Forms formula when
 it is matched with the built-in rules

---
 catalog/poplural/ast/compile.go | 44 ++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/catalog/poplural/ast/compile.go b/catalog/poplural/ast/compile.go
index d6aacce..6e33fb9 100644
--- a/catalog/poplural/ast/compile.go
+++ b/catalog/poplural/ast/compile.go
@@ -21,7 +21,7 @@ func compileNode(node Node) string {
 		then := compileNode(v.T)
 		other := compileNode(v.F)
 
-		if len(cond) > 1 && (!strings.HasPrefix(cond, "(") || !strings.HasSuffix(cond, ")")) {
+		if v.Cond.Type() == Question || len(cond) > 1 && (!strings.HasPrefix(cond, "(") || !strings.HasSuffix(cond, ")")) {
 			cond = "(" + cond + ")"
 		}
 		if len(then) > 1 {
@@ -33,26 +33,30 @@ func compileNode(node Node) string {
 
 		return fmt.Sprintf("%s ? %s : %s", cond, then, other)
 	case *BinaryExpr:
-		switch v.Type() {
-		case LogicalAnd:
-			return compileNode(v.X) + " && " + compileNode(v.Y)
-		case LogicalOr:
-			return fmt.Sprintf("(%s || %s)", compileNode(v.X), compileNode(v.Y))
-		case Equal:
-			return compileNode(v.X) + " == " + compileNode(v.Y)
-		case NotEqual:
-			return compileNode(v.X) + " != " + compileNode(v.Y)
-		case Greater:
-			return compileNode(v.X) + " > " + compileNode(v.Y)
-		case GreaterOrEqual:
-			return compileNode(v.X) + " >= " + compileNode(v.Y)
-		case Less:
-			return compileNode(v.X) + " < " + compileNode(v.Y)
-		case LessOrEqual:
-			return compileNode(v.X) + " <= " + compileNode(v.Y)
-		case Reminder:
-			return compileNode(v.X) + " % " + compileNode(v.Y)
+		x, y := compileOperand(v.X, v.Op), compileOperand(v.Y, v.Op)
+		if v.Op == LogicalOr {
+			return fmt.Sprintf("(%s || %s)", x, y)
 		}
+		return fmt.Sprintf("%s %s %s", x, v.Op, y)
 	}
 	return ""
 }
+
+// compileOperand compiles an operand of op, enclosed in parentheses
+// if it could otherwise be read with another grouping.
+func compileOperand(node Node, op Token) string {
+	enclose := false
+	switch node.Type() {
+	case Question:
+		enclose = true
+	case Reminder:
+		enclose = op == Reminder
+	case LogicalAnd, Equal, NotEqual, Greater, GreaterOrEqual, Less, LessOrEqual:
+		enclose = op != LogicalAnd && op != LogicalOr
+	}
+
+	if enclose {
+		return "(" + compileNode(node) + ")"
+	}
+	return compileNode(node)
+}
-- 
2.43.0


From 268bde5ee2aaaa77dd44141b3b90ec241447ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 10/14] fix: compare plural operands with rule values exactly
 instead of with a tolerance

---
 catalog/cldrplural/evaluation.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index 22f6271..8ce5b24 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -4,7 +4,6 @@ import (
 	"math"
 
 	"github.com/vorlif/spreak/catalog/cldrplural/ast"
-	"github.com/vorlif/spreak/internal/util"
 )
 
 func MustParseRules(rules map[Category]string) *RuleSet {
@@ -151,16 +150,9 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 		lower := rangeValues[i]
 		upper := rangeValues[i+1]
 
-		// If the value is not within the range, not every value needs to be checked.
-		if !(x >= float64(lower) && x <= float64(upper)) {
-			continue
-		}
-
-		// Checking each value
-		for v := lower; v <= upper; v++ {
-			if util.FloatEqual(float64(v), x) {
-				return true
-			}
+		// A range contains only the integers between its bounds.
+		if x >= float64(lower) && x <= float64(upper) && x == math.Trunc(x) {
+			return true
 		}
 	}
 
@@ -169,7 +161,7 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 
 func isFloatOneOf(target float64, vals ...int64) bool {
 	for _, val := range vals {
-		if util.FloatEqual(float64(val), target) {
+		if float64(val) == target {
 			return true
 		}
 	}
-- 
2.43.0


From 17dbf1ab1b62c74d0109f669d3fca0b1aa44da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 11/14] fix: derive the plural operands of every number from
 its plain decimal digits

---
 catalog/cldrplural/cldr.go | 87 +++++++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 30 deletions(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index 201566d..79c0d4c 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -94,23 +94,23 @@ func NewOperands(a any) (*Operands, error) {
 		return nil, errors.New("operands value is nil")
 	}
 
+	if i, ok := cast.ToInt64(a); ok && i != math.MinInt64 {
+		return newOperandsInt(i), nil
+	}
+
 	switch v := a.(type) {
 	case string:
 		return newOperandsString(v)
-	case int64:
-		return newOperandsInt(v), nil
-	case int:
-		return newOperandsInt(int64(v)), nil
 	case float32:
-		return newOperandsString(fmt.Sprintf("%v", v))
+		return newOperandsString(strconv.FormatFloat(float64(v), 'f', -1, 32))
 	case float64:
-		return newOperandsString(fmt.Sprintf("%v", v))
+		return newOperandsString(strconv.FormatFloat(v, 'f', -1, 64))
 	default:
 		num, err := cast.ToNumber(v)
 		if err != nil {
 			return nil, err
 		}
-		return newOperandsString(fmt.Sprintf("%v", num))
+		return newOperandsString(strconv.FormatFloat(num, 'f', -1, 64))
 	}
 }
 
@@ -121,52 +121,79 @@ func newOperandsInt(i int64) *Operands {
 	return &Operands{float64(i), i, 0, 0, 0, 0, 0}
 }
 
+// maxCompactExponent is the largest compact exponent for which the integer digits fit into an int64.
+const maxCompactExponent = 18
+
 func newOperandsString(raw string) (*Operands, error) {
 	op := &Operands{}
 
-	if cIdx := strings.Index(raw, "c"); cIdx >= 0 {
-		c, err := strconv.Atoi(raw[cIdx+1:])
-		if err != nil {
-			return nil, err
+	raw, c, hasExponent := strings.Cut(raw, "c")
+	raw, err := plainDecimal(raw)
+	if err != nil {
+		return nil, err
+	}
+
+	if hasExponent {
+		exponent, errC := strconv.Atoi(c)
+		if errC != nil {
+			return nil, errC
+		}
+		if exponent < 0 || exponent > maxCompactExponent {
+			return nil, fmt.Errorf("compact exponent %d is out of range", exponent)
 		}
-		op.C = int64(c)
-		raw = shiftDecimalPoint(raw[:cIdx], c)
+		op.C = int64(exponent)
+		raw = shiftDecimalPoint(raw, exponent)
 	}
 
-	src, errP := strconv.ParseFloat(raw, 64)
-	if errP != nil {
-		return nil, errP
+	op.N, err = strconv.ParseFloat(raw, 64)
+	if err != nil {
+		return nil, err
 	}
 
-	op.N = math.Abs(src)
-	op.I = int64(src)
+	integerDigits, fractionDigits, _ := strings.Cut(raw, ".")
+	if integerDigits != "" {
+		op.I, err = strconv.ParseInt(integerDigits, 10, 64)
+		if err != nil {
+			return nil, err
+		}
+	}
 
-	if pointIdx := strings.Index(raw, "."); pointIdx >= 0 {
-		fractionDigits := raw[pointIdx+1:]
-		if fractionDigits != "" {
-			op.V = int64(len(fractionDigits))
-			f, err := strconv.ParseInt(fractionDigits, 10, 64)
-			if err != nil {
-				return nil, err
-			}
-			op.F = f
+	if fractionDigits != "" {
+		op.V = int64(len(fractionDigits))
+		op.F, err = strconv.ParseInt(fractionDigits, 10, 64)
+		if err != nil {
+			return nil, err
 		}
 
 		withoutZeros := strings.TrimRight(fractionDigits, "0")
 		if withoutZeros != "" {
 			op.W = int64(len(withoutZeros))
-			t, err := strconv.ParseInt(withoutZeros, 10, 64)
+			op.T, err = strconv.ParseInt(withoutZeros, 10, 64)
 			if err != nil {
 				return nil, err
 			}
-
-			op.T = t
 		}
 	}
 
 	return op, nil
 }
 
+// plainDecimal returns the digits of the absolute value of a number without an exponent.
+func plainDecimal(raw string) (string, error) {
+	num, err := strconv.ParseFloat(raw, 64)
+	if err != nil {
+		return "", err
+	}
+	if math.IsNaN(num) || math.IsInf(num, 0) {
+		return "", fmt.Errorf("%q is not a finite number", raw)
+	}
+
+	if strings.ContainsAny(raw, "eExX") {
+		raw = strconv.FormatFloat(num, 'f', -1, 64)
+	}
+	return strings.TrimLeft(raw, "+-"), nil
+}
+
 func shiftDecimalPoint(raw string, c int) string {
 	var s strings.Builder
 
-- 
2.43.0


From 4c63bb80508efafceec3077bb38bf5ebe95d4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 12/14] fix: do not use the address of nil pointers, channels
 and functions as a count

---
 internal/cast/number.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/cast/number.go b/internal/cast/number.go
index 59a7f95..b15b99b 100644
--- a/internal/cast/number.go
+++ b/internal/cast/number.go
@@ -51,6 +51,12 @@ func ToNumber(n any) (float64, error) {
 		return res, nil
 	}
 
+	switch reflect.TypeOf(n).Kind() {
+	case reflect.Ptr, reflect.UnsafePointer, reflect.Chan, reflect.Func:
+		// Formatting would yield the address.
+		return 0, fmt.Errorf("unable to cast value of type %T to float64", n)
+	}
+
 	if num, errC := ToNumber(fmt.Sprintf("%d", n)); errC == nil {
 		return num, nil
 	}
-- 
2.43.0


From 63ff074cbd6c98fb8d38a3279c5c179dbb935196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 13/14] fix: read the texts of a mo file in full when the
 reader delivers them in parts

---
 internal/mo/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index ce632ed..b685bea 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -251,6 +251,6 @@ func (p *parser) binaryRead(data any) error {
 }
 
 func (p *parser) read(d []byte) error {
-	_, err := p.r.Read(d)
+	_, err := io.ReadFull(p.r, d)
 	return err
 }
-- 
2.43.0


From d8d788a5594388ab643f8d11908b97d7487613f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 14/14] fix: reject mo files whose tables or texts lie outside
 the file before memory is reserved for them

---
 internal/mo/parser.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index b685bea..35abd86 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -24,6 +24,7 @@ type parser struct {
 	bo binary.ByteOrder
 	r  io.ReadSeeker
 
+	size         int64
 	magicNumber  uint32
 	majorVersion uint16
 	minorVersion uint16
@@ -58,6 +59,10 @@ func newParser(r io.ReadSeeker) *parser {
 }
 
 func (p *parser) parse() (*po.File, error) {
+	if err := p.parseSize(); err != nil {
+		return nil, err
+	}
+
 	if err := p.parseByteOrder(); err != nil {
 		return nil, err
 	}
@@ -78,6 +83,18 @@ func (p *parser) parse() (*po.File, error) {
 	return file, nil
 }
 
+// parseSize determines the size of the file, to which everything the file refers to is limited.
+func (p *parser) parseSize() error {
+	size, err := p.r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return err
+	}
+
+	p.size = size
+	_, err = p.r.Seek(0, io.SeekStart)
+	return err
+}
+
 func (p *parser) parseByteOrder() error {
 	var magicNumber uint32
 	if err := p.binaryRead(&magicNumber); err != nil {
@@ -128,6 +145,11 @@ func (p *parser) parseHeader() error {
 }
 
 func (p *parser) parseMessageData() error {
+	// every message has an entry of eight bytes in both tables
+	if int64(p.msgIDCount)*8 > p.size {
+		return io.ErrUnexpectedEOF
+	}
+
 	p.messageData = make([]*msgData, p.msgIDCount)
 
 	if _, err := p.r.Seek(int64(p.msgIDOffset), io.SeekStart); err != nil {
@@ -206,6 +228,11 @@ func (p *parser) parseMessages() (*po.File, error) {
 }
 
 func (p *parser) parseMessage(data *msgData) (id string, localized string, err error) {
+	if int64(data.idOffset)+int64(data.idLength) > p.size || int64(data.translationOffset)+int64(data.translationLength) > p.size {
+		err = io.ErrUnexpectedEOF
+		return
+	}
+
 	if _, err = p.r.Seek(int64(data.idOffset), 0); err != nil {
 		return
 	}
-- 
2.43.0

