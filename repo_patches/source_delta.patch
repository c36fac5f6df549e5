From 9644dccc47eff4e24ad134d5f4d24b4f6805eaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 01/23] fix: do not run a filter body when there are no
 candidates

A loop over values that offered nothing (scalars, empty arrays and objects)
still ran its body once, with a null candidate, so [?(e)] could yield a null
that is not in the document, or raise a run-time error.
---
 mach/run.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 1a1d3e7..b829eeb 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -542,7 +542,14 @@ func looptop(vm *machine, producer func(chan<- JSON, []JSON), epc int) {
 	vm.pushInput(values)
 	go producer(values, vm.out)
 	vm.out = []JSON{}
-	vm.dot = <-values
+	dot, more := <-values
+	if !more {
+		// no candidates at all: skip the loop body
+		vm.popInput()
+		vm.branch(epc)
+		return
+	}
+	vm.dot = dot
 }
 
 // sliceEval returns an interpretation of the given Slice with respect to an array of length l.
-- 
2.43.0


From dd3570107907dccc3114d6ab24b9ce0207542d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 02/23] fix: a slice of a non-array must not discard earlier
 results

valsByKey returned nil instead of the accumulated values, losing what had
been selected from earlier values or by earlier elements of a union.
---
 mach/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index b829eeb..7f47717 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -724,7 +724,7 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 	if isSlice(key) {
 		src, ok := src.([]JSON)
 		if !ok {
-			return nil
+			return vals
 		}
 		slice := key.(*paths.Slice)
 		start, end, stride := sliceEval(slice, int64(len(src)))
-- 
2.43.0


From fc58c1a40c33201203c1d7b4a30eae904f6da937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:21 +0000
Subject: [PATCH 03/23] fix: prevent overflow when stepping a slice by a huge
 stride

$[1::9223372036854775807] overflowed the index and panicked.
---
 mach/run.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 7f47717..86b23b8 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -559,6 +559,14 @@ func sliceEval(slice *paths.Slice, l int64) (int64, int64, int64) {
 	stride := int64(1)
 	if slice.Stride != nil {
 		stride = cvi(slice.Stride)
+		// a stride beyond either end selects just one element:
+		// limit it so that stepping by it cannot overflow
+		switch {
+		case stride > l+1:
+			stride = l + 1
+		case stride < -l-1:
+			stride = -l - 1
+		}
 	}
 	start := int64(0)
 	end := int64(l)
-- 
2.43.0


From 9c4f42c902ee6058dff0cfc2f44e3b91a611cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:32 +0000
Subject: [PATCH 04/23] fix: do not leave a producer goroutine blocked after a
 run-time error

Run returned with the process feeding the current loop still waiting to
send its next value, for ever.
---
 mach/run.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 86b23b8..c832934 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -89,6 +89,16 @@ func (m *machine) popInput() {
 	m.values = m.values[0 : len(m.values)-1]
 }
 
+// drain consumes what remains of any unfinished input after a run-time error,
+// allowing the processes that produce it to finish.
+func (m *machine) drain() {
+	for len(m.values) > 0 {
+		for range m.topInput() {
+		}
+		m.popInput()
+	}
+}
+
 // nothing represents an evaluation without a usable result.
 // Any error will do.
 // ("nothing is better than Advil")
@@ -125,6 +135,7 @@ func (m *machine) valsOK(a, b JSON) bool {
 // Following the usual JavaScript conventions, many other errors do not stop evaluation, but yield a null result, detectable using || and &&.
 func (p *Program) Run(root JSON) ([]JSON, error) {
 	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
+	defer vm.drain()
 	for vm.pc < len(p.orders) {
 		ord := p.orders[vm.pc]
 		vm.pc++
-- 
2.43.0


From e75ddf2684005332123eaa08a999bfcb76d27435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 05/23] fix: max of strings must return the greatest, not the
 least

---
 mach/fns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/fns.go b/mach/fns.go
index 21280ba..03542b0 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -350,7 +350,7 @@ func minString(index int, min, el string) string {
 }
 
 func maxString(index int, max, el string) string {
-	if index == 0 || el < max {
+	if index == 0 || el > max {
 		return el
 	}
 	return max
-- 
2.43.0


From 19f226e67a4edfa7a2f4c6278e083e4a699f757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 06/23] fix: objects with different keys are not equal

A missing key compared as null, so {"a":null} == {"b":null} was true.
---
 mach/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index 42740c6..f18b1d1 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -247,7 +247,8 @@ func eqVal(a, b JSON) bool {
 				return false
 			}
 			for k, v := range a {
-				if !eqVal(v, b[k]) {
+				w, ok := b[k]
+				if !ok || !eqVal(v, w) {
 					return false
 				}
 			}
-- 
2.43.0


From 7dca0784d770ab0b93e39a4c4edf99f39a4f855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:16 +0000
Subject: [PATCH 07/23] fix: numeric equality must convert strings and array
 elements properly

An integer or boolean was compared with a string holding a real number, or
with an array's only element, by converting the latter to integer with 0 for
anything else, so 0 == "1.5", false == ["abc"], 0 == [[1, 2]] and
0 == [{}] were true, and 1 == "1.0" false.
---
 mach/json.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/mach/json.go b/mach/json.go
index f18b1d1..94d9a03 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -108,7 +108,18 @@ func eqArrayN(a []JSON, b JSON) bool {
 	case 0:
 		return eqNum(b, 0.0)
 	case 1:
-		return eqNum(a[0], b)
+		switch el := a[0].(type) {
+		case nil, error:
+			return eqNum(b, 0.0) // wat! (null and undefined elements become "")
+		case string:
+			return !badNum(el, false) && eqNum(el, b)
+		case bool, int, int64, float64:
+			return eqNum(el, b)
+		case []JSON:
+			return eqArrayN(el, b)
+		default:
+			return false
+		}
 	default:
 		return false
 	}
@@ -132,9 +143,26 @@ func badNum(s string, fp bool) bool {
 	return false
 }
 
+// isReal returns true if v must be converted to a number as floating-point:
+// it's a floating-point value, or a string that isn't the text of an integer.
+func isReal(v JSON) bool {
+	switch v := v.(type) {
+	case float64:
+		return true
+	case string:
+		if v == "" {
+			return false
+		}
+		_, err := strconv.ParseInt(v, 10, 64)
+		return err != nil
+	default:
+		return false
+	}
+}
+
 // eqNum returns true if numeric values a and b are equal
 func eqNum(a, b JSON) bool {
-	if isFloat(a) || isFloat(b) {
+	if isReal(a) || isReal(b) {
 		var zero float64
 		va := cvf(a)
 		vb := cvf(b)
@@ -186,13 +214,11 @@ func eqVal(a, b JSON) bool {
 		case Object<<8 | Boolean:
 			// 11.9.3(6) [a == ToNumber(b)]
 			a, ok := a.([]JSON)
-			b := cvi(b)
-			return ok && (b == 0 && len(a) == 0 || len(a) == 1 && cvi(a[0]) == b)
+			return ok && eqArrayN(a, b)
 		case Boolean<<8 | Object:
 			// 11.9.3(7) [ToNumber(a) == b]
 			b, ok := b.([]JSON)
-			a := cvi(a)
-			return ok && (a == 0 && len(b) == 0 || len(b) == 1 && cvi(b[0]) == a)
+			return ok && eqArrayN(b, a)
 		case String<<8 | Object, Object<<8 | String:
 			// 11.9.3(8), 11.9.3(9)
 			// note only one can be an Object, and only when that's an array can == be true
-- 
2.43.0


From 1cff319611d4757e1fb5743223d5605fdb9cbdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 08/23] fix: array elements must convert to strings as
 JavaScript does

[1000000] == "1000000" was false because the number was given an exponent,
[null] was not equal to "", and nested arrays all became "[object Object]".
---
 mach/json.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index 94d9a03..c384ca5 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -95,7 +95,16 @@ func eqArrayS(a []JSON, b string) bool {
 	case 0:
 		return b == ""
 	case 1:
-		return cvs(a[0]) == b
+		switch el := a[0].(type) {
+		case nil, error:
+			return b == "" // wat! (null and undefined elements become "")
+		case float64:
+			return numString(el) == b
+		case []JSON:
+			return eqArrayS(el, b)
+		default:
+			return cvs(el) == b
+		}
 	default:
 		return false
 	}
@@ -316,6 +325,18 @@ func cvs(v JSON) string {
 	}
 }
 
+// numString converts a number to a string the JavaScript way, without an exponent unless it's very large or small.
+func numString(f float64) string {
+	switch abs := math.Abs(f); {
+	case abs == 0:
+		return "0" // including -0
+	case abs >= 1e-6 && abs < 1e21:
+		return strconv.FormatFloat(f, 'f', -1, 64)
+	default:
+		return fmt.Sprint(f)
+	}
+}
+
 // convert a value to integer.
 func cvi(v JSON) int64 {
 	// TO DO: protect against conversion traps
-- 
2.43.0


From b889a0113b9d5b61f1aaa568dc1f2a15574e5cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 09/23] fix: indexing an array by a non-index in an expression
 yields nothing

A key that is not a number was converted to 0, so @['key'] applied to an array
selected its first element.
---
 mach/run.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index c832934..1d8171b 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"math"
 	"regexp"
+	"strconv"
 	"unicode/utf8"
 
 	"github.com/forsyth/jsonpath/paths"
@@ -301,6 +302,10 @@ func (p *Program) Run(root JSON) ([]JSON, error) {
 			}
 			switch val := val.(type) {
 			case []JSON:
+				if !isIndex(index) {
+					vm.push(nothing)
+					break
+				}
 				sel := cvi(index) // can be only int, or convertible
 				l := int64(len(val))
 				if sel < 0 {
@@ -831,6 +836,19 @@ func valByKey(src JSON, key JSON, negIndex bool) (JSON, bool) {
 	}
 }
 
+// isIndex returns true if key can index an array: it's a number, or can be converted to an integer.
+func isIndex(key JSON) bool {
+	switch key := key.(type) {
+	case int, int64, float64, bool:
+		return true
+	case string:
+		_, err := strconv.ParseInt(key, 10, 64)
+		return err == nil
+	default:
+		return false
+	}
+}
+
 // stepping sends the JSON structures from the given array one at a time on values.
 func stepping(values chan<- JSON, vals []JSON) {
 	defer close(values)
-- 
2.43.0


From d4b7fc6607a6c785005143d5619cdf1ddb2fdf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 10/23] fix: a document number as a subscript expression must
 index arrays

Numbers in documents are floating-point, as are the results of min and max,
but an expression's value indexed an array only if it was a Go integer,
so $.a[($.i)] selected nothing.
---
 mach/run.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mach/run.go b/mach/run.go
index 1d8171b..f558d52 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -768,8 +768,8 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 	}
 	switch src := src.(type) {
 	case []JSON:
-		if isInt(key) {
-			// [integer]
+		if isInt(key) || isFloat(key) {
+			// [integer], or a number from [(expr)] converted to integer
 			v, ok := valByKey(src, key, negIndex)
 			if ok {
 				vals = append(vals, v)
-- 
2.43.0


From bf733f59b9798f6bc379245283c3cb2eabe8c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 11/23] fix: a string ending in an escape at end of input is
 unclosed

The lexer backed up over the last character of the escape at end of file,
so for instance '\' as the whole text was accepted as a closed string.
---
 paths/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paths/lex.go b/paths/lex.go
index aebc49f..37de6d9 100644
--- a/paths/lex.go
+++ b/paths/lex.go
@@ -200,7 +200,9 @@ func (l *lexer) lexString(cq int) (string, error) {
 				}
 				s.WriteRune(rv)
 			}
-			r.unget()
+			if c != eof {
+				r.unget()
+			}
 			if surr != 0 {
 				// surrogate prefix without successor
 				s.WriteRune(unicode.ReplacementChar)
-- 
2.43.0


From 1854c00f689ebb0bd6bb6f5ebdd337327f6b6aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 12/23] fix: an unpaired surrogate must not spoil a following
 surrogate pair

"\ud800\ud800\udc00" is U+FFFD U+10000, as encoding/json has it.
---
 paths/lex.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paths/lex.go b/paths/lex.go
index 37de6d9..330ac60 100644
--- a/paths/lex.go
+++ b/paths/lex.go
@@ -193,8 +193,10 @@ func (l *lexer) lexString(cq int) (string, error) {
 						// consume surrogate and its pair
 						continue
 					}
-					// invalid surrogate pair: already produced ReplacementChar
-				} else if utf16.IsSurrogate(rv) {
+					// invalid surrogate pair: already produced ReplacementChar,
+					// but rv might itself start another pair
+				}
+				if utf16.IsSurrogate(rv) {
 					surr = rv
 					continue
 				}
-- 
2.43.0


From 406e855f0d3c2d7fbb04a905c278121a7fd88a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 13/23] fix: an escaped backslash in a regular expression must
 not escape its delimiter

/a\\\\/ was rejected as unclosed.
---
 paths/lexexpr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paths/lexexpr.go b/paths/lexexpr.go
index e3b9f44..86fcbe7 100644
--- a/paths/lexexpr.go
+++ b/paths/lexexpr.go
@@ -74,6 +74,10 @@ func (l *lexer) lexRegexp(ec int) lexeme {
 		case c == '\\' && r.look() == ec:
 			r.get()
 			c = ec
+		case c == '\\' && r.look() == '\\':
+			// an escaped \ does not escape a following delimiter
+			s.WriteByte(byte(c))
+			r.get()
 		}
 		s.WriteByte(byte(c))
 	}
-- 
2.43.0


From a8a52bf6f48e0e6ee870d13588c648f1241aef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 14/23] fix: negating something that is not a number must yield
 nothing

Strings holding reals, other strings, arrays and objects all negated to 0.
---
 mach/run.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mach/run.go b/mach/run.go
index f558d52..3e2dca1 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -407,11 +407,22 @@ func (p *Program) Run(root JSON) ([]JSON, error) {
 			if !vm.valOK(v) {
 				break
 			}
-			switch v.(type) {
+			switch v := v.(type) {
 			case float64:
-				vm.push(-v.(float64))
-			default:
+				vm.push(-v)
+			case string:
+				switch {
+				case badNum(v, false):
+					vm.push(nothing)
+				case isReal(v):
+					vm.push(-cvf(v))
+				default:
+					vm.push(-cvi(v))
+				}
+			case nil, bool, int, int64:
 				vm.push(-cvi(v))
+			default:
+				vm.push(nothing)
 			}
 		case paths.OpNot:
 			vm.push(!cvb(vm.pop()))
-- 
2.43.0


From abfd2cd65c35aa522c069fa1b74536d95ed2fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 15/23] fix: .length of an object must yield its own member of
 that name, if any

---
 mach/run.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 3e2dca1..b5d3142 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -262,7 +262,9 @@ func (p *Program) Run(root JSON) ([]JSON, error) {
 			if !vm.valOK(key) {
 				break
 			}
-			if key.S() == "length" {
+			obj, _ := val.(map[string]JSON)
+			_, own := obj[key.S()]
+			if key.S() == "length" && !own { // an actual member takes precedence
 				n := -1
 				switch val := val.(type) {
 				case []JSON:
-- 
2.43.0


From 2ec8d714d1b1871c5e24e0d4f58e3d56d3663793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 16/23] fix: avg of an empty array must be null, not NaN

As for min, max and prod; NaN is neither a JSON value nor detectable.
---
 mach/fns.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mach/fns.go b/mach/fns.go
index 03542b0..251561e 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -52,6 +52,9 @@ var functions = map[string]Function{
 		1,
 		func(args []JSON) JSON {
 			if a, ok := args[0].([]JSON); ok {
+				if len(a) == 0 {
+					return nil
+				}
 				var sum float64
 				for _, v := range a {
 					if !isArith(v) {
-- 
2.43.0


From 24c093b75fd46d1902469f1c81ec6c1aabf274ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 17/23] fix: jpath -l must not limit the length of a line

A JSON value of more than 64k bytes stopped it with 'token too long'.
---
 cmd/jpath/jpath.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index 601cd9e..f4ac206 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -7,6 +7,7 @@ import (
 	"flag"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 
@@ -96,6 +97,7 @@ func readValues(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error
 func readLines(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error {
 	input := bufio.NewScanner(fd)
 	input.Split(bufio.ScanLines)
+	input.Buffer(nil, math.MaxInt) // no limit to line length
 	for lno := 1; input.Scan(); lno++ {
 		var root interface{}
 		err := json.Unmarshal(input.Bytes(), &root)
-- 
2.43.0


From 0691798d9419f701247d2769beacaa54c03ef9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 18/23] fix: jpath must fail if its results cannot be written

An error from the final flush (eg, a full device) was ignored and the exit status was 0.
---
 cmd/jpath/jpath.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index f4ac206..3043e7c 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -25,7 +25,6 @@ func main() {
 		os.Exit(2)
 	}
 	stdout = bufio.NewWriter(os.Stdout)
-	defer stdout.Flush()
 	jexp := flag.Arg(0)
 	jpath, err := jsonpath.Compile(jexp)
 	if err != nil {
@@ -58,6 +57,9 @@ func main() {
 			errorf("%s", err.Error())
 		}
 	}
+	if err := stdout.Flush(); err != nil {
+		errorf("writing results: %s", err.Error())
+	}
 }
 
 func quote(s string) string {
-- 
2.43.0


From 4c5f144943c8ca990a9325eed2cbf09c2d261197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 19/23] fix: refuse an expression nested too deeply instead of
 overflowing the stack

A few hundred thousand nested brackets or unary operators (or some millions of
chained operators) in the text given to Compile exhausted the stack, which
kills the whole process, not just the goroutine.
---
 mach/coder.go      | 14 ++++++++++++--
 paths/parseexpr.go |  5 +++++
 paths/parser.go    | 15 ++++++++++++---
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/mach/coder.go b/mach/coder.go
index 327e308..b00498f 100644
--- a/mach/coder.go
+++ b/mach/coder.go
@@ -9,12 +9,17 @@ import (
 
 var (
 	ErrTooManyVals = errors.New("program has too many values")
+	ErrTooDeep     = errors.New("expression has too many levels")
 )
 
+// maxDepth limits the depth of expression trees, since they are coded by recursion.
+const maxDepth = 1000000
+
 // builder is the state when building a program
 type builder struct {
-	vals map[paths.Val]uint32 // map value to its index in prog.vals
-	prog *Program
+	vals  map[paths.Val]uint32 // map value to its index in prog.vals
+	prog  *Program
+	depth int // current depth in an expression tree
 }
 
 // Compile compiles a Path into a Program for a small abstract machine that evaluates paths and expressions.
@@ -117,6 +122,11 @@ func (b *builder) codeExpr(expr paths.Expr) error {
 	if expr.IsLeaf() {
 		return b.codeLeaf(expr)
 	}
+	if b.depth >= maxDepth {
+		return ErrTooDeep
+	}
+	b.depth++
+	defer func() { b.depth-- }()
 	t := expr.(*paths.Inner)
 	for _, k := range t.Kids {
 		err := b.codeExpr(k)
diff --git a/paths/parseexpr.go b/paths/parseexpr.go
index 4e49af8..73eb814 100644
--- a/paths/parseexpr.go
+++ b/paths/parseexpr.go
@@ -103,6 +103,11 @@ func (p *parser) unary(op Op) (Expr, error) {
 
 // primary ::= primary1 ("(" e-list ")" | "[" e "]" | "." identifier)*
 func (p *parser) primary() (Expr, error) {
+	if p.nest >= maxNest {
+		return nil, ErrTooDeep
+	}
+	p.nest++
+	defer func() { p.nest-- }()
 	e, err := p.primary1()
 	if err != nil {
 		return nil, err
diff --git a/paths/parser.go b/paths/parser.go
index 56baec5..4b8e0f4 100644
--- a/paths/parser.go
+++ b/paths/parser.go
@@ -1,17 +1,26 @@
 package paths
 
-import "fmt"
+import (
+	"errors"
+	"fmt"
+)
+
+// maxNest limits the nesting of script expressions, since they are parsed by recursion.
+const maxNest = 100000
+
+var ErrTooDeep = errors.New("expression nested too deeply")
 
 // parser represents the state of the path and/or expression parser
 // (all of which is currently in the lexer), and provides a scope for the
 // parsing methods.
 type parser struct {
-	*lexer // source of tokens
+	*lexer     // source of tokens
+	nest   int // current nesting of expression terms
 }
 
 // newParser initialises and returns a parser.
 func newParser(s string) *parser {
-	return &parser{newLexer(&rd{s: s})}
+	return &parser{lexer: newLexer(&rd{s: s})}
 }
 
 func (p *parser) expect(lex func() lexeme, nt token) error {
-- 
2.43.0


From 653ce76cfaf65e8e48220c4d17b76caad0c31457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 20/23] fix: refuse a path too big for the program encoding

Branch addresses and operand counts have 23 bits, signed; a path that needed
more compiled to a program that panicked when run.
---
 mach/coder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mach/coder.go b/mach/coder.go
index b00498f..a5cf349 100644
--- a/mach/coder.go
+++ b/mach/coder.go
@@ -9,6 +9,7 @@ import (
 
 var (
 	ErrTooManyVals = errors.New("program has too many values")
+	ErrTooBig      = errors.New("program is too big")
 	ErrTooDeep     = errors.New("expression has too many levels")
 )
 
@@ -54,6 +55,10 @@ func Compile(path paths.Path) (*Program, error) {
 			}
 		}
 	}
+	if prog.size() >= indexTop {
+		// branches and operand counts could not be represented
+		return nil, ErrTooBig
+	}
 	return prog, nil
 }
 
-- 
2.43.0


From 5a154ff7d01a1a4145f646b1f4183ec0d6f8059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:34 +0000
Subject: [PATCH 21/23] fix: a string with underscores between its digits is
 not a number

---
 mach/fns.go  |  3 +--
 mach/json.go | 13 +++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mach/fns.go b/mach/fns.go
index 251561e..d21b5a9 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -3,7 +3,6 @@ package mach
 import (
 	"math"
 	"regexp"
-	"strconv"
 	"strings"
 	"unicode/utf8"
 	//	"github.com/forsyth/jsonpath/paths"
@@ -237,7 +236,7 @@ var functions = map[string]Function{
 			case int, int64, float64:
 				return a
 			case string:
-				v, err := strconv.ParseFloat(a, 64)
+				v, err := parseReal(a)
 				if err != nil {
 					return err
 				}
diff --git a/mach/json.go b/mach/json.go
index c384ca5..7ada33d 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -145,13 +145,22 @@ func badNum(s string, fp bool) bool {
 			return false
 		}
 	}
-	_, err := strconv.ParseFloat(s, 64)
+	_, err := parseReal(s)
 	if err != nil {
 		return true
 	}
 	return false
 }
 
+// parseReal returns the floating-point value of the text s.
+// Unlike Go, JavaScript doesn't allow an underscore between the digits of a numeric string.
+func parseReal(s string) (float64, error) {
+	if strings.Contains(s, "_") {
+		return 0, strconv.ErrSyntax
+	}
+	return strconv.ParseFloat(s, 64)
+}
+
 // isReal returns true if v must be converted to a number as floating-point:
 // it's a floating-point value, or a string that isn't the text of an integer.
 func isReal(v JSON) bool {
@@ -393,7 +402,7 @@ func cvf(v JSON) float64 {
 		if v == "" {
 			return 0.0 // wat!
 		}
-		f, err := strconv.ParseFloat(v, 64)
+		f, err := parseReal(v)
 		if err != nil {
 			return math.NaN()
 		}
-- 
2.43.0


From 6cf2ed9c73e1af6c530ace66e97eb87b3fca1324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:42 +0000
Subject: [PATCH 22/23] fix: null, arrays and objects must not select members
 by their Go formatting

---
 mach/run.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mach/run.go b/mach/run.go
index b5d3142..9a568ab 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -801,18 +801,21 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 }
 
 // keyVal converts a key into a suitable string value to index a Go JSON map.
-func mapKey(key JSON) string {
+// It returns false if the key is the wrong type of value to name a member.
+func mapKey(key JSON) (string, bool) {
 	switch key := key.(type) {
 	case string:
-		return key
+		return key, true
 	case float64:
 		// floats here are the result of (expr),
 		// and an integer is required.
-		return fmt.Sprint(int64(float64(key)))
+		return fmt.Sprint(int64(float64(key))), true
 	case paths.NameVal:
-		return key.S()
+		return key.S(), true
+	case nil, []JSON, map[string]JSON, *regexp.Regexp:
+		return "", false
 	default:
-		return fmt.Sprint(key)
+		return fmt.Sprint(key), true
 	}
 }
 
@@ -820,7 +823,10 @@ func valByKey(src JSON, key JSON, negIndex bool) (JSON, bool) {
 	//fmt.Printf("%#v %s\n", src, key)
 	switch src := src.(type) {
 	case map[string]JSON:
-		s := mapKey(key)
+		s, ok := mapKey(key)
+		if !ok {
+			return nil, false
+		}
 		v, ok := src[s]
 		if !ok {
 			//fmt.Printf(" -> nil\n")
-- 
2.43.0


From 0c935f13a5ec8ebe3776068460dc4b11d9fbed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:12 +0000
Subject: [PATCH 23/23] fix: the text of a very small number in an array must
 be as in JavaScript

---
 mach/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index 7ada33d..b63822a 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -342,7 +342,8 @@ func numString(f float64) string {
 	case abs >= 1e-6 && abs < 1e21:
 		return strconv.FormatFloat(f, 'f', -1, 64)
 	default:
-		return fmt.Sprint(f)
+		// JavaScript exponents have no leading zero
+		return strings.Replace(fmt.Sprint(f), "e-0", "e-", 1)
 	}
 }
 
-- 
2.43.0

