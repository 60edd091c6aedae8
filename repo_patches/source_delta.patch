From c752a5280bb978420d2b4992974a4120a8b9cb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 01/43] fix: resolve operation and lookup paths as JSON
 Pointers

A leading '/' created an empty-string key instead of addressing the root,
'~1' was unescaped before splitting, '.' inside pointer tokens was treated
as a separator, and looking up a path without a leading '/' panicked.
---
 internal/tson/tson.go           | 32 +++++++++++++++++++++++++++++---
 internal/tsonpatch/tsonpatch.go |  8 ++------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index d41dc9a..53ef26e 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -100,13 +100,39 @@ func GetValue(t Tson, path string) (v Value, err error) {
 		}
 	}
 
-	rfc6901Decoder := strings.NewReplacer("~1", "/", "~0", "~")
-	path = rfc6901Decoder.Replace(path)
-	parts := strings.Split(path, "/")[1:]
+	parts := SplitPath(path)
+	if len(parts) == 0 { // The empty path refers to the whole document
+		return t, nil
+	}
 
 	return getValue(t, parts)
 }
 
+// Note: http://tools.ietf.org/html/rfc6901#section-4 :
+var rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
+
+// SplitPath splits a path into its unescaped reference tokens.
+// A path starting with '/' is a JSON Pointer (RFC 6901); any other path
+// is split at '.' and '/'. The empty path refers to the whole document.
+func SplitPath(path string) []string {
+	if path == "" {
+		return []string{}
+	}
+
+	if strings.HasPrefix(path, "/") {
+		path = path[1:]
+	} else {
+		path = strings.ReplaceAll(path, ".", "/")
+	}
+
+	// Unescape each token after splitting, since "~1" stands for a literal '/'
+	parts := strings.Split(path, "/")
+	for i, part := range parts {
+		parts[i] = rfc6901Decoder.Replace(part)
+	}
+	return parts
+}
+
 // Equal checks if two TSONs are equal, including timestamps.
 func Equal(t1, t2 Tson) (ret bool, err error) {
 	var (
diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index df2802b..1e28936 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -149,11 +149,8 @@ func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
 }
 
 func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
-	path := rfc6901Decoder.Replace(op.Path)
-
-	// Split the path into parts, ignoring the first empty string
-	path = strings.ReplaceAll(path, ".", "/")
-	parts := strings.Split(path, "/")
+	// Split the path into parts
+	parts := tson.SplitPath(op.Path)
 
 	// Traverse the TSON document
 	if t, err = applyTraverse(doc, parts, op); err != nil {
@@ -434,7 +431,6 @@ func getIndex(part string) (idx int, err error) {
 // Note: http://tools.ietf.org/html/rfc6901#section-4 :
 var (
 	rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
-	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
 )
 
 func makePath(path string, newPart any) string {
-- 
2.43.0


From 1145cf3d72865e91cce2848ccb2adcc0b80ac309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 02/43] fix: do not modify the document a patch is applied to

Applying a patch changed the given document in place, so a snapshot kept
elsewhere changed with it, and an empty patch returned no document.
---
 internal/tsonpatch/tsonpatch.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 1e28936..da2b98d 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -20,7 +20,9 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -140,8 +142,9 @@ func GeneratePatchWithTimestamp(origin, modified tson.Tson) (Patch, error) {
 
 // ApplyPatch applies a JSON patch to a TSON document
 func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
+	t = doc
 	for _, op := range patch {
-		if t, err = ApplyOperation(doc, op); err != nil {
+		if t, err = ApplyOperation(t, op); err != nil {
 			return nil, err
 		}
 	}
@@ -172,6 +175,8 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 
 	switch part := parts[0]; j := doc.(type) {
 	case tson.Object:
+		j = maps.Clone(j) // Do not modify the given document
+
 		if len(parts) == 1 { // Only a single part of path left
 			switch op.Op { // switch by operation type
 			case OpAdd, OpReplace:
@@ -216,6 +221,8 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			if err != nil {
 				return nil, err
 			}
+			value = slices.Clone(value)
+			j[part] = value
 
 			switch op.Op {
 			case OpAdd, OpReplace:
@@ -289,6 +296,8 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			return nil, err
 		}
 
+		j = slices.Clone(j) // Do not modify the given document
+
 		// 배열 인덱스 범위 체크 및 확장
 		if idx >= len(j) {
 			if op.Op == OpAdd || op.Op == OpReplace {
-- 
2.43.0


From a7532a05ba6a714b69150126df49a1b5343ddf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 03/43] fix: apply patch operations inside arrays and report
 bad paths

An operation below an array element ignored the rest of its path and
overwrote or removed the element itself. Paths through a leaf, out-of-range
or negative indexes and unsupported operations panicked or were ignored.
---
 internal/tsonpatch/tsonpatch.go | 76 ++++++++++-----------------------
 1 file changed, 23 insertions(+), 53 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index da2b98d..a9c8152 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -164,13 +164,20 @@ func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
 
 // applyTraverse 함수 수정
 func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, err error) {
-	if len(parts) == 0 { // If the path is empty, return
-		return doc, nil
+	if len(parts) == 0 { // If the path is empty, replace the whole document
+		if op.Op == OpRemove {
+			return nil, fmt.Errorf("applyTraverse(): Cannot remove the whole document")
+		}
+		root, err := applyTraverse(tson.Array{doc}, []string{"0"}, op)
+		if err != nil {
+			return nil, err
+		}
+		return root.(tson.Array)[0], nil
 	}
 
-	switch doc.(type) { // If doc is a leaf node, return
+	switch doc.(type) { // If doc is a leaf node, there is nothing below it
 	case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-		return doc, nil
+		return nil, fmt.Errorf("applyTraverse(): No element %s in a leaf", parts[0])
 	}
 
 	switch part := parts[0]; j := doc.(type) {
@@ -202,7 +209,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			case OpRemove:
 				delete(j, part)
 			case OpMove, OpCopy, OpTest:
-				panic(fmt.Sprintf("applyTraverse(): Operation %s not implemented", op.Op))
+				return nil, fmt.Errorf("applyTraverse(): Operation %s not implemented", op.Op)
 			default:
 				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
 			}
@@ -211,56 +218,11 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 
 		switch value := j[part].(type) { // Recursively traverse the TSON document
 		case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-			panic("applyTraverse(): Leaf[T] should not be here")
-		case tson.Object:
+			return nil, fmt.Errorf("applyTraverse(): Leaf[T] should not be here")
+		case tson.Object, tson.Array:
 			if j[part], err = applyTraverse(value, parts[1:], op); err != nil {
 				return nil, err
 			}
-		case tson.Array:
-			idx, err := getIndex(parts[1])
-			if err != nil {
-				return nil, err
-			}
-			value = slices.Clone(value)
-			j[part] = value
-
-			switch op.Op {
-			case OpAdd, OpReplace:
-				if idx >= len(value) {
-					// 배열 크기가 충분하지 않은 경우 확장
-					newArray := make(tson.Array, idx+1)
-					copy(newArray, value)
-					value = newArray
-					j[part] = value
-				}
-
-				// 타입 변환 로직 개선
-				switch opValue := op.Value.(type) {
-				case string:
-					value[idx] = tson.Leaf[string]{Value: opValue, Timestamp: op.Timestamp}
-				case float64:
-					value[idx] = tson.Leaf[float64]{Value: opValue, Timestamp: op.Timestamp}
-				case int:
-					value[idx] = tson.Leaf[float64]{Value: float64(opValue), Timestamp: op.Timestamp}
-				case bool:
-					value[idx] = tson.Leaf[bool]{Value: opValue, Timestamp: op.Timestamp}
-				case nil:
-					return nil, fmt.Errorf("applyTraverse(): Nil value not supported for array element")
-				default:
-					if elem, ok := value[idx].(tson.Object); ok || elem == nil {
-						// 객체나 nil인 경우 재귀적으로 처리
-						if j[part], err = applyTraverse(value[idx], parts[1:], op); err != nil {
-							return nil, err
-						}
-					} else {
-						return nil, fmt.Errorf("applyTraverse(): Unsupported array element type %T", op.Value)
-					}
-				}
-			case OpRemove:
-				j[part] = append(value[:idx], value[idx+1:]...)
-			default:
-				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
-			}
 		case nil:
 			// 경로가 없는 경우 새로 생성
 			if op.Op == OpAdd || op.Op == OpReplace {
@@ -334,6 +296,14 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			}
 		} else {
 			// 중간 부분이면 재귀 호출
+			if j[idx] == nil && (op.Op == OpAdd || op.Op == OpReplace) {
+				// The element is missing: create it as a missing key is
+				if _, err := getIndex(parts[1]); err == nil {
+					j[idx] = tson.Array{}
+				} else {
+					j[idx] = tson.Object{}
+				}
+			}
 			if j[idx], err = applyTraverse(j[idx], parts[1:], op); err != nil {
 				return nil, err
 			}
@@ -431,7 +401,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 // }
 
 func getIndex(part string) (idx int, err error) {
-	if idx, err = strconv.Atoi(part); err != nil {
+	if idx, err = strconv.Atoi(part); err != nil || idx < 0 {
 		return -1, fmt.Errorf("getIndex(): Invalid index %s", part)
 	}
 	return idx, nil
-- 
2.43.0


From 9903be983e31064d907c6b0c30d5c062a292fb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 04/43] fix: generate patches that reproduce the modified
 document

Arrays of different lengths were diffed as sets, so the patch put elements
at wrong positions, and values of differing types, null values or containers
inside arrays panicked. Paths below an empty key lost that key.
---
 internal/tsonpatch/tsonpatch.go | 150 ++++++++++++--------------------
 1 file changed, 55 insertions(+), 95 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index a9c8152..f674133 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -417,9 +417,6 @@ func makePath(path string, newPart any) string {
 	if path == "" {
 		return "/" + key
 	}
-	if strings.HasSuffix(path, "/") {
-		return path + key
-	}
 	return path + "/" + key
 }
 
@@ -483,7 +480,7 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 			case tson.Object:
 				// TODO: is there a way to calculate the timestamp?
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
-			case tson.Array:
+			case tson.Array, nil:
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
 			default:
 				panic(fmt.Sprintf("diff(): Unknown type %T for origValue", origValue))
@@ -493,8 +490,28 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 	return patch, nil
 }
 
+// replaceValue replaces the value at path with a leaf of another type.
+func replaceValue(modValue tson.Value, path string, patch Patch) (Patch, error) {
+	switch modLeaf := modValue.(type) {
+	case tson.Leaf[string]:
+		return append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp)), nil
+	case tson.Leaf[float64]:
+		return append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp)), nil
+	case tson.Leaf[bool]:
+		return append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp)), nil
+	default:
+		return nil, fmt.Errorf("replaceValue(): Unknown type %T for modValue", modValue)
+	}
+}
+
 func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
+
+	// The type has changed: only a leaf can replace the value
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		return replaceValue(modValue, path, patch)
+	}
+
 	switch origin := origValue.(type) {
 	case tson.Leaf[string]:
 		if !matchesValue(origValue, modValue) {
@@ -517,21 +534,11 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 			return nil, err
 		}
 	case tson.Array:
-		modified, ok := modValue.(tson.Array)
-		if !ok { // tson.Array replaced by non-Array
-			var mod any = modValue
-			switch modLeaf := mod.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			default:
-				return nil, fmt.Errorf("handleValues(): Unknown type %T for modValue", modValue)
+		modified := modValue.(tson.Array)
+		if len(origin) != len(modified) { // Different array lengths
+			if patch, err = compareArray(origin, modified, path, patch); err != nil {
+				return nil, err
 			}
-		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArray(origin, modified, path)...)
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValues(origin[i], modified[i], makePath(path, i), patch)
@@ -568,6 +575,11 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
 
+	// The type has changed: only a leaf can replace the value
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		return replaceValue(modValue, path, patch)
+	}
+
 	// 타임스탬프 변경 감지
 	timestampChanged := !matchTimestamp(origValue, modValue)
 
@@ -604,21 +616,11 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 		}
 
 	case tson.Array:
-		modified, ok := modValue.(tson.Array)
-		if !ok { // tson.Array replaced by non-Array
-			var mod any = modValue
-			switch modLeaf := mod.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			default:
-				return nil, fmt.Errorf("handleValuesWithTimestamp(): Unknown type %T for modValue", modValue)
+		modified := modValue.(tson.Array)
+		if len(origin) != len(modified) { // Different array lengths
+			if patch, err = compareArrayWithTimestamp(origin, modified, path, patch); err != nil {
+				return nil, err
 			}
-		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArrayWithTimestamp(origin, modified, path)...)
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValuesWithTimestamp(origin[i], modified[i], makePath(path, i), patch)
@@ -754,22 +756,21 @@ func matchTimestamp(origin, modified tson.Value) bool {
 	return false
 }
 
-// compareArray generates remove and add operations
-func compareArray(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
+// compareArray generates remove, replace and add operations
+func compareArray(origArr, modArr tson.Array, p string, patch Patch) (_ Patch, err error) {
+	// Remove surplus elements from the end, so that no other element moves
+	for i := len(origArr) - 1; i >= len(modArr); i-- {
 		// TODO: is there a way to calculate the timestamp?
 		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
-
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
 	}
-	patch = reversed
 
-	// Find elements that need to be added.
-	processArray(modArr, origArr, func(i int, value any) {
+	for i, value := range modArr {
+		if i < len(origArr) {
+			if patch, err = handleValues(origArr[i], value, makePath(p, i), patch); err != nil {
+				return nil, err
+			}
+			continue
+		}
 		switch leaf := value.(type) {
 		case tson.Leaf[string]:
 			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
@@ -778,42 +779,26 @@ func compareArray(origArr, modArr tson.Array, p string) (patch Patch) {
 		case tson.Leaf[bool]:
 			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
 		default:
-			panic(fmt.Sprintf("compareArray(): Unknown type %T for value", value))
+			return nil, fmt.Errorf("compareArray(): Unknown type %T for value", value)
 		}
-	})
-	return patch
+	}
+	return patch, nil
 }
 
 // compareArrayWithTimestamp는 두 배열을 비교하여 패치를 생성합니다. 타임스탬프 변경도 감지합니다.
-func compareArrayWithTimestamp(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
+func compareArrayWithTimestamp(origArr, modArr tson.Array, p string, patch Patch) (_ Patch, err error) {
+	// Remove surplus elements from the end, so that no other element moves
+	for i := len(origArr) - 1; i >= len(modArr); i-- {
 		// TODO: is there a way to calculate the timestamp?
 		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
-
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
 	}
-	patch = reversed
 
 	// Find elements that need to be added, or have changed values or timestamps
 	for i, value := range modArr {
 		// 원래 배열과 수정된 배열의 같은 인덱스에서 값 또는 타임스탬프 변경 확인
 		if i < len(origArr) {
-			valuesEqual := matchesValue(origArr[i], value)
-			timestampEqual := matchTimestamp(origArr[i], value)
-
-			if !valuesEqual || !timestampEqual {
-				switch leaf := value.(type) {
-				case tson.Leaf[string]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[float64]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[bool]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				}
+			if patch, err = handleValuesWithTimestamp(origArr[i], value, makePath(p, i), patch); err != nil {
+				return nil, err
 			}
 		} else {
 			// 새로 추가된 요소
@@ -825,35 +810,10 @@ func compareArrayWithTimestamp(origArr, modArr tson.Array, p string) (patch Patc
 			case tson.Leaf[bool]:
 				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
 			default:
-				panic(fmt.Sprintf("compareArrayWithTimestamp(): Unknown type %T for value", value))
+				return nil, fmt.Errorf("compareArrayWithTimestamp(): Unknown type %T for value", value)
 			}
 		}
 	}
 
-	return patch
-}
-
-// processArray processes two arrays calling applyOp whenever a value is absent.
-func processArray(origArr, modArr tson.Array, applyOp func(i int, value any)) {
-	// Note: map[T]struct{} is used to simulate a set.
-	foundIndexes := make(map[int]struct{}, len(origArr))
-	reverseFoundIndexes := make(map[int]struct{}, len(origArr))
-
-	for idx1, value1 := range origArr {
-		for idx2, value2 := range modArr {
-			if _, ok := reverseFoundIndexes[idx2]; ok {
-				// This one is already found.
-				continue
-			}
-			if reflect.DeepEqual(value1, value2) {
-				// Mark this as found
-				foundIndexes[idx1] = struct{}{}
-				reverseFoundIndexes[idx2] = struct{}{}
-				break
-			}
-		}
-		if _, ok := foundIndexes[idx1]; !ok {
-			applyOp(idx1, value1)
-		}
-	}
+	return patch, nil
 }
-- 
2.43.0


From bd0b0929cbb947b30fee1362ac944b3f3c7a2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 05/43] fix: escape the path when writing a patch operation as
 JSON

---
 internal/tsonpatch/tsonpatch.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index f674133..5517270 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -91,13 +91,13 @@ type Operation struct {
 func (p *Operation) String() string {
 	var ( // Using vanila JSON here
 		op        = p.Op
-		path      = p.Path
+		path, _   = json.Marshal(p.Path)
 		value, _  = json.Marshal(p.Value)
 		timestamp = p.Timestamp
 		buf       bytes.Buffer
 	)
 	fmt.Fprintf(&buf,
-		`{ "op": "%s", "path": "%s", "value": %s, "timestamp": %d }`,
+		`{ "op": "%s", "path": %s, "value": %s, "timestamp": %d }`,
 		op, path, value, timestamp)
 	return buf.String()
 }
@@ -105,7 +105,11 @@ func (p *Operation) String() string {
 // Marshal converts the Operation to a JSON byte Array.
 func (p *Operation) Marshal() (b []byte, err error) {
 	var buf bytes.Buffer
-	fmt.Fprintf(&buf, `{ "op": "%s", "path": "%s"`, p.Op, p.Path)
+	path, err := json.Marshal(p.Path)
+	if err != nil {
+		return nil, err
+	}
+	fmt.Fprintf(&buf, `{ "op": "%s", "path": %s`, p.Op, path)
 	if p.Value != nil || p.Op == OpReplace || p.Op == OpAdd || p.Op == OpTest {
 		if v, err := json.Marshal(p.Value); err != nil {
 			return nil, err
-- 
2.43.0


From 016bd28add8d0ec1fa51c62c0879df04a06d1024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 06/43] fix: read and write null TSON values

Parsing null inside an object or array panicked, and writing it failed.
---
 internal/tson/serialization.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 9f7f10d..1d4c4a1 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -96,6 +96,8 @@ func marshalTson(v Value, ctx int) (string, error) {
 			}
 			return fmt.Sprintf("%v <>", val.Value), nil
 		}
+	case nil:
+		return "null", nil
 	default:
 		return "", fmt.Errorf("marshalTson: unknown type")
 	}
@@ -470,6 +472,8 @@ func wrapIfPrimitive(v any, timestamp int64) Value {
 			val.Timestamp = timestamp
 		}
 		return val
+	case nil: // null carries no timestamp
+		return nil
 	default:
 		return v.(Value)
 	}
-- 
2.43.0


From ceeba7c45b285250352110bf86e5f355d488027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 07/43] fix: do not round bare numbers in indented output

---
 internal/tson/serialization.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 1d4c4a1..60de39d 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -192,7 +192,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 	case bool:
 		return fmt.Sprintf("%v", t), nil
 	case float64:
-		return fmt.Sprintf("%.f", t), nil
+		return fmt.Sprintf("%v", t), nil
 	case string:
 		return strconv.Quote(t), nil
 
-- 
2.43.0


From a1062a2a698f517e7a921f67e43bdf4787728715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 08/43] fix: reject trailing data after a TSON value

---
 internal/tson/serialization.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 60de39d..8c0dbe1 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -444,8 +444,15 @@ type Parser struct {
 // and stores the result in the value pointed to by t.
 func Unmarshal(data []byte, t *Tson) (err error) {
 	p := &Parser{input: data, pos: 0}
-	*t, err = p.parseTson()
-	return err
+	if *t, err = p.parseTson(); err != nil {
+		return err
+	}
+	p.skipWhitespace()
+	if p.pos < len(p.input) {
+		*t = nil
+		return fmt.Errorf("unexpected character '%c' after the value at pos %d", p.peek(), p.pos)
+	}
+	return nil
 }
 
 // wrapIfPrimitive wraps a raw primitive with a timestamp.
-- 
2.43.0


From 8750904e0ce520afe72c1a95690f3f5dd7877dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 09/43] fix: keep the timestamp written after a value in
 objects and arrays

A missing timestamp prefix was taken as timestamp 0, which also replaced a
timestamp written after the value.
---
 internal/tson/serialization.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 8c0dbe1..d4e87e1 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -726,7 +726,7 @@ func (p *Parser) parseObject() (Value, error) {
 		}
 		p.skipWhitespace()
 		// optional timestamp after key
-		var ts int64 = 0
+		var ts int64 = DefaultTimestamp
 		if p.peek() == '<' {
 			ts, err = p.parseTimestamp()
 			if err != nil {
@@ -770,7 +770,7 @@ func (p *Parser) parseArray() (Value, error) {
 	}
 	for {
 		p.skipWhitespace()
-		var ts int64 = 0
+		var ts int64 = DefaultTimestamp
 		if p.peek() == '<' {
 			var err error
 			ts, err = p.parseTimestamp()
-- 
2.43.0


From 51bf59ba56604937e263580b88e48dd0d262ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 10/43] fix: parse exponents and all escapes that serialization
 writes

---
 internal/tson/serialization.go | 52 ++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index d4e87e1..7417592 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -14,6 +14,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // ToCompatibleTsonString converts TSON to a string.
@@ -646,6 +648,34 @@ func (p *Parser) parseString() (string, error) {
 				result = append(result, '\r')
 			case 't':
 				result = append(result, '\t')
+			case 'a':
+				result = append(result, '\a')
+			case 'v':
+				result = append(result, '\v')
+			case 'x': // a single byte
+				code, err := p.parseHex(2)
+				if err != nil {
+					return "", err
+				}
+				result = append(result, byte(code))
+			case 'u', 'U':
+				size := 4
+				if esc == 'U' {
+					size = 8
+				}
+				code, err := p.parseHex(size)
+				if err != nil {
+					return "", err
+				}
+				if utf16.IsSurrogate(code) && p.startsWith(`\u`) { // a surrogate pair
+					p.pos += 2
+					low, err := p.parseHex(4)
+					if err != nil {
+						return "", err
+					}
+					code = utf16.DecodeRune(code, low)
+				}
+				result = utf8.AppendRune(result, code)
 			default:
 				return "", fmt.Errorf("invalid escape character: %c", esc)
 			}
@@ -658,6 +688,19 @@ func (p *Parser) parseString() (string, error) {
 	return "", fmt.Errorf("unterminated string")
 }
 
+// parseHex parses the n hexadecimal digits of an escape sequence.
+func (p *Parser) parseHex(n int) (rune, error) {
+	if p.pos+n > len(p.input) {
+		return 0, fmt.Errorf("unterminated escape sequence")
+	}
+	code, err := strconv.ParseUint(string(p.input[p.pos:p.pos+n]), 16, 32)
+	if err != nil {
+		return 0, fmt.Errorf("invalid escape sequence at pos %d", p.pos)
+	}
+	p.pos += n
+	return rune(code), nil
+}
+
 // parseNumber parses a number.
 func (p *Parser) parseNumber() (float64, error) {
 	start := p.pos
@@ -673,6 +716,15 @@ func (p *Parser) parseNumber() (float64, error) {
 			p.pos++
 		}
 	}
+	if p.pos < len(p.input) && (p.peek() == 'e' || p.peek() == 'E') {
+		p.pos++
+		if p.pos < len(p.input) && (p.peek() == '+' || p.peek() == '-') {
+			p.pos++
+		}
+		for p.pos < len(p.input) && p.input[p.pos] >= '0' && p.input[p.pos] <= '9' {
+			p.pos++
+		}
+	}
 	numStr := string(p.input[start:p.pos])
 	return strconv.ParseFloat(numStr, 64)
 }
-- 
2.43.0


From c22aaaf3c1404925d1d004f11e8c6029f9e298e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 11/43] fix: accept null when looking for the latest timestamp

---
 internal/tson/tson.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 53ef26e..fd313ab 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -197,6 +197,8 @@ func GetLatestTimestamp(t Tson) int64 {
 			}
 		}
 		return max
+	case nil: // null carries no timestamp
+		return DefaultTimestamp
 	default:
 		panic(fmt.Sprintf("GetTimestamp: invalid type %T for TSON", t))
 	}
-- 
2.43.0


From 0d05e3cddbec98d894984509448133723db44b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 12/43] fix: read null, bare values and large timestamps of
 compatible TSON

null and bare primitives panicked, and timestamps above 2^53 were rounded.
---
 internal/tson/tson.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index fd313ab..3906a06 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -13,6 +13,7 @@
 package tson
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"reflect"
@@ -242,16 +243,23 @@ func ToCompatibleTsonBytes(t Tson) (j []byte, err error) {
 // FromCompatibleTsonBytes converts a JSON byte array (with leaf nodes as { "value": ..., "timestamp": ... })
 // into a Tson object.
 func FromCompatibleTsonBytes(data []byte, t *Tson) error {
+	var invalid error
 	var convert func(v any) Value
 	convert = func(v any) Value {
 		switch t := v.(type) {
+		case nil:
+			return nil
 		case map[string]any:
 			if isLeaf, leafVal, ts := checkLeaf(t); isLeaf {
 				switch leafVal.(type) {
 				case string:
 					return Leaf[string]{Value: leafVal.(string), Timestamp: ts}
-				case float64:
-					return Leaf[float64]{Value: leafVal.(float64), Timestamp: ts}
+				case json.Number:
+					number, err := leafVal.(json.Number).Float64()
+					if err != nil {
+						invalid = err
+					}
+					return Leaf[float64]{Value: number, Timestamp: ts}
 				case bool:
 					return Leaf[bool]{Value: leafVal.(bool), Timestamp: ts}
 				default:
@@ -270,7 +278,8 @@ func FromCompatibleTsonBytes(data []byte, t *Tson) error {
 			}
 			return arr
 		default:
-			panic("FromCompatibleTsonBytes: Not a compatible TSON data")
+			invalid = fmt.Errorf("FromCompatibleTsonBytes: Not a compatible TSON data")
+			return nil
 		}
 	}
 
@@ -278,7 +287,17 @@ func FromCompatibleTsonBytes(data []byte, t *Tson) error {
 	if err := json.Unmarshal(data, &intermediate); err != nil {
 		return err
 	}
-	*t = convert(intermediate)
+	// Decode numbers as they are written: float64 cannot hold every timestamp
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	if err := decoder.Decode(&intermediate); err != nil {
+		return err
+	}
+	converted := convert(intermediate)
+	if invalid != nil {
+		return invalid
+	}
+	*t = converted
 	return nil
 }
 
@@ -500,6 +519,12 @@ func checkLeaf(m map[string]any) (bool, any, int64) {
 				return true, val, int64(t)
 			case int64:
 				return true, val, t
+			case json.Number:
+				if ts, err := t.Int64(); err == nil {
+					return true, val, ts
+				}
+				ts, err := t.Float64()
+				return err == nil, val, int64(ts)
 			}
 		}
 	}
-- 
2.43.0


From 3b756f74ba131f7dba24c0a4de0b999875351934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 13/43] fix: compare timestamps exactly in equality

Timestamps above 2^53 that differ were rounded to the same number.
---
 internal/tson/tson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 3906a06..4a517f0 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -149,7 +149,7 @@ func Equal(t1, t2 Tson) (ret bool, err error) {
 	if err = json.Unmarshal(b2, &o2); err != nil {
 		return false, err
 	}
-	return reflect.DeepEqual(o1, o2), nil
+	return reflect.DeepEqual(t1, t2), nil
 }
 
 // EqualWithoutTimestamp checks if two TSONs are equal, excluding timestamps.
-- 
2.43.0


From 8890f34cbe9d31ea3b97818ea4567d16f9c13f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 14/43] fix: convert top-level primitives and null between TSON
 and JSON

A document that is a single leaf kept its timestamp in JSON, a JSON primitive
panicked, and converting from JSON modified the caller's data.
---
 internal/tson/tson.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 4a517f0..fbb55e2 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -364,8 +364,13 @@ func ToJson(t Tson, j *any) (err error) {
 		}
 	}
 
-	ToCompatibleTson(t, j)
-	removeTimestamp(*j)
+	if err = ToCompatibleTson(t, j); err != nil {
+		return err
+	}
+	// The document itself may be a leaf: treat it as an element
+	root := []any{*j}
+	removeTimestamp(root)
+	*j = root[0]
 
 	return nil
 }
@@ -405,10 +410,25 @@ func FromJson(o any, t *Tson) (err error) {
 		}
 	}
 
-	addTimestamp(o)
+	// Work on a copy of the given JSON object
+	str, err := json.Marshal(o)
+	if err != nil {
+		return err
+	}
+	var document any
+	if err = json.Unmarshal(str, &document); err != nil {
+		return err
+	}
+
+	// The document itself may be a primitive: treat it as an element
+	root := []any{document}
+	addTimestamp(root)
 
 	// Step 1: Convert TSON(any) to CompatibleTSON(JSON with timestamp)
-	str, err := json.Marshal(o)
+	str, err = json.Marshal(root[0])
+	if err != nil {
+		return err
+	}
 
 	// Step 2: Convert CompatibleTSON to TSON
 	return FromCompatibleTsonBytes(str, t)
@@ -581,6 +601,9 @@ func toSortedInterface(t Tson) (any, error) {
 		}
 		return arr, nil
 
+	case nil:
+		return nil, nil
+
 	default:
 		return nil, fmt.Errorf("unexpected type in toSortedInterface: %T", t)
 	}
-- 
2.43.0


From 75e33a6072bf2d25712c4b43e6785c2b732c0946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 15/43] fix: apply every version when making a snapshot

Each version's patches were applied to the nearest earlier snapshot instead
of to the previous version's state.
---
 internal/logument/logument.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 98dda3b..cb2f146 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -219,19 +219,17 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 		panic(err)
 	}
 
-	var timedSnapshot tsonSnapshot
+	timedSnapshot := latestSnapshot
 
 	if latestVersion != vk {
 		// Apply patches from the latest version to the target version
 		for i := latestVersion + 1; i <= vk; i++ {
 			var err error
-			timedSnapshot, err = tsonpatch.ApplyPatch(latestSnapshot, lgm.Patches[i])
+			timedSnapshot, err = tsonpatch.ApplyPatch(timedSnapshot, lgm.Patches[i])
 			if err != nil {
 				panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 			}
 		}
-	} else {
-		timedSnapshot = latestSnapshot
 	}
 
 	if _, exists := lgm.Snapshots[vk]; !exists {
-- 
2.43.0


From c036c3ce2198e22aa10428cd793492f294f79350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 16/43] fix: keep stored patches apart from the caller's slice

---
 internal/logument/logument.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index cb2f146..6a09189 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -160,7 +161,7 @@ func (lgm *Logument) Store(inputPatches any) {
 	}
 
 	if lgm.PatchPool == nil {
-		lgm.PatchPool = patches
+		lgm.PatchPool = slices.Clone(patches)
 	} else {
 		lgm.PatchPool = append(lgm.PatchPool, patches...)
 	}
-- 
2.43.0


From 87855477bc0764fe22bf757b0d163e522d65f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 17/43] fix: keep the current state in step with the recorded
 patches

Stored patches never reached the current state, a change that cannot be
applied destroyed it, and TestSet compared with a cached snapshot instead.
---
 internal/logument/logument.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 6a09189..d147a70 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -165,6 +165,10 @@ func (lgm *Logument) Store(inputPatches any) {
 	} else {
 		lgm.PatchPool = append(lgm.PatchPool, patches...)
 	}
+
+	if state, err := tsonpatch.ApplyPatch(lgm.CurrentState, patches); err == nil {
+		lgm.CurrentState = state
+	}
 }
 
 func (lgm *Logument) findLatest(targetVersion uint64) (latestVersion uint64, latestSnapshot tsonSnapshot, rr error) {
@@ -527,11 +531,11 @@ func (lgm *Logument) Set(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	var err error
-	lgm.CurrentState, err = tsonpatch.ApplyOperation(lgm.CurrentState, patch)
+	state, err := tsonpatch.ApplyOperation(lgm.CurrentState, patch)
 	if err != nil {
 		panic(fmt.Sprintf("failed to apply patch: %v", err))
 	}
+	lgm.CurrentState = state
 
 	if lgm.PatchPool == nil {
 		lgm.PatchPool = tsonpatch.Patch{patch}
@@ -551,7 +555,7 @@ func (lgm *Logument) TestSet(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	latesetSnapshot := lgm.Snapshots[lgm.Version[len(lgm.Version)-1]]
+	latesetSnapshot := lgm.CurrentState
 	// if _, exists := lgm.Snapshots[vk]; !exists {
 	// 	s := lgm.Snapshot(vk)
 	// 	lgm.Snapshots[vk] = s
@@ -584,6 +588,9 @@ func leafCompareValue(leafValue tson.Value, value any) bool {
 		if floatVal, ok := value.(float64); ok {
 			return leaf.Value == floatVal
 		}
+		if intVal, ok := value.(int); ok {
+			return leaf.Value == float64(intVal)
+		}
 	case tson.Leaf[bool]:
 		if boolVal, ok := value.(bool); ok {
 			return leaf.Value == boolVal
-- 
2.43.0


From 840baf054de6ced928cdbf3be8508cd61ecf588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 18/43] fix: build temporal snapshots from all changes up to
 the timestamp

Only the version after a cached snapshot was applied, in map order, which
also reordered the recorded history, and ties kept the first change.
---
 internal/logument/logument.go | 57 +++++++++++------------------------
 1 file changed, 17 insertions(+), 40 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index d147a70..cecb36c 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -245,53 +245,32 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 }
 
 func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
-	versions := lgm.getSortedVersions("snapshot")
-
-	// Find the latest timestamp before the target timestamp
-	latestVersion := lgm.Version[0]
-	for _, version := range versions {
-		s := lgm.Snapshots[version]
-		lts := tson.GetLatestTimestamp(s)
-		if lts <= tsk {
-			latestVersion = version
-		} else {
-			break
-		}
+	// Include the pending patches
+	if lgm.PatchPool != nil {
+		lgm.Append()
 	}
 
-	// Get the latest snapshot
+	// Get the first snapshot, which does not contain any later change
+	latestVersion := lgm.Version[0]
 	latestSnapshot := lgm.Snapshots[latestVersion]
 
-	if latestVersion >= lgm.Version[len(lgm.Version)-1] {
-		if lgm.PatchPool != nil {
-			lgm.Append()
-		} else {
-			return latestSnapshot
+	// Collect the patches up to the target timestamp
+	var latestPatches tsonpatch.Patch
+	for _, version := range lgm.getSortedVersions("patch") {
+		if version <= latestVersion {
+			continue // Already in the snapshot
 		}
-	}
-
-	// Create a map to store the most recent patch for each path
-	latestPatchMap := make(map[string]tsonpatch.Operation)
-
-	// Iterate through the patches and keep only the most recent one for each path
-	sort.Slice(lgm.Patches[latestVersion+1], func(i, j int) bool {
-		return lgm.Patches[latestVersion+1][i].Timestamp < lgm.Patches[latestVersion+1][j].Timestamp
-	})
-
-	for _, p := range lgm.Patches[latestVersion+1] {
-		if p.Timestamp <= tsk {
-			// Check if we've seen this path before and if this patch is more recent
-			if existing, exists := latestPatchMap[p.Path]; !exists || p.Timestamp > existing.Timestamp {
-				latestPatchMap[p.Path] = p
+		for _, p := range lgm.Patches[version] {
+			if p.Timestamp <= tsk {
+				latestPatches = append(latestPatches, p)
 			}
 		}
 	}
 
-	// Convert the map to a slice
-	var latestPatches tsonpatch.Patch
-	for _, patch := range latestPatchMap {
-		latestPatches = append(latestPatches, patch)
-	}
+	// Order by timestamp; patches with the same timestamp stay in the recorded order
+	sort.SliceStable(latestPatches, func(i, j int) bool {
+		return latestPatches[i].Timestamp < latestPatches[j].Timestamp
+	})
 
 	// Apply patches
 	timedSnapshot, err := tsonpatch.ApplyPatch(latestSnapshot, latestPatches)
@@ -299,8 +278,6 @@ func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
 		panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 	}
 
-	// lgm.Snapshots[latestVersion+1] = timedSnapshot
-
 	return timedSnapshot
 }
 
-- 
2.43.0


From 98b0b24c474bcb9330942fe9a9fb2ed368fd3ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 19/43] fix: make slices usable documents on their own

A slice lacked its first version when that has no patches, the snapshot it
starts from when another one was cached, and the current state.
---
 internal/logument/logument.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index cecb36c..a1f7b2e 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -302,6 +302,11 @@ func (lgm *Logument) Slice(vi, vj uint64) *Logument {
 	}
 
 	var SlicedVersions []uint64
+	for _, version := range lgm.Version {
+		if version >= vi && version <= vj {
+			SlicedVersions = append(SlicedVersions, version)
+		}
+	}
 
 	versionsFromSnapshot := lgm.getSortedVersions("snapshot")
 	SlicedSnapshots := make(map[uint64]tsonSnapshot)
@@ -315,25 +320,19 @@ func (lgm *Logument) Slice(vi, vj uint64) *Logument {
 	SlicedPatches := make(map[uint64]tsonPatches)
 	for _, version := range versionsFromPatch {
 		if version >= vi && version <= vj {
-			// SlicedVersions always includes all versions between the start and end versions
-			// because lgm.Version and lgm.PatchMap are continuous.
-			// However, lgm.Snapshots may not be continuous,
-			// so the following line works correctly only in this loop.
-			SlicedVersions = append(SlicedVersions, version)
 			SlicedPatches[version] = lgm.Patches[version]
 		}
 	}
 
 	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
-		SlicedSnapshots[vi] = lgm.Snapshot(vi)
-	}
+	SlicedSnapshots[vi] = lgm.Snapshot(vi)
 
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: lgm.Snapshot(vj),
+		Snapshots:    SlicedSnapshots,
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
 	}
 
 	return slicedLgm
-- 
2.43.0


From da1cc079c5a54f4e768a8f55e6c33b648be0a382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 20/43] fix: make temporal slices usable documents on their own

A temporal slice repeated versions, panicked on an empty window and could
start from a snapshot unrelated to the state before the window.
---
 internal/logument/logument.go | 48 ++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index a1f7b2e..1d0c551 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"math"
 	"slices"
 	"sort"
 	"strconv"
@@ -350,45 +351,46 @@ func (lgm *Logument) TemporalSlice(tsi, tsj int64) *Logument {
 			"\nEnd time: " + strconv.FormatInt(tsj, 10))
 	}
 
-	var SlicedVersions []uint64
-
-	versionsFromSnapshot := lgm.getSortedVersions("snapshot")
-	SlicedSnapshots := make(map[uint64]tsonSnapshot)
-	for _, version := range versionsFromSnapshot {
-		snapshot := lgm.Snapshots[version]
-		latestTimestamp := tson.GetLatestTimestamp(snapshot)
-		if latestTimestamp >= tsi && latestTimestamp <= tsj {
-			SlicedSnapshots[version] = snapshot
-		}
+	// Start from the state just before the start time
+	initialVersion := lgm.Version[0]
+	initialSnapshot := lgm.Snapshots[initialVersion]
+	currentState := lgm.TemporalSnapshot(tsj)
+	if tsi > math.MinInt64 {
+		initialSnapshot = lgm.TemporalSnapshot(tsi - 1)
 	}
 
 	versionsFromPatch := lgm.getSortedVersions("patch")
 	SlicedPatches := make(map[uint64]tsonPatches)
+	firstVersion := lgm.Version[len(lgm.Version)-1]
+	lastVersion := firstVersion
 	for _, version := range versionsFromPatch {
+		if version <= initialVersion {
+			continue // Already in the first snapshot
+		}
 		patches := lgm.Patches[version]
 		for _, patch := range patches {
 			if patch.Timestamp >= tsi && patch.Timestamp <= tsj {
-				// SlicedVersions always includes all versions between the start and end times
-				// because lgm.Version and lgm.PatchMap are continuous.
-				// However, lgm.Snapshots may not be continuous,
-				// so the following line works correctly only in this loop.
-				SlicedVersions = append(SlicedVersions, version)
+				if len(SlicedPatches) == 0 {
+					firstVersion = version - 1
+				}
+				lastVersion = version
 				SlicedPatches[version] = append(SlicedPatches[version], patch)
 			}
 		}
 	}
 
-	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
-		startVersion := SlicedVersions[0]
-		SlicedSnapshots[startVersion] = lgm.TemporalSnapshot(tsi)
+	// The versions are continuous, starting with the one before the first change
+	var SlicedVersions []uint64
+	for version := firstVersion; version <= lastVersion; version++ {
+		SlicedVersions = append(SlicedVersions, version)
 	}
 
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: currentState,
+		Snapshots:    map[uint64]tsonSnapshot{firstVersion: initialSnapshot},
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
 	}
 
 	return slicedLgm
-- 
2.43.0


From ad5133b0c21a43accab1cce1011a68dfe44d9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 21/43] fix: return the tracked changes without rewriting the
 history

Track stored its reduced patches in the document and returned the full ones.
---
 internal/logument/logument.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 1d0c551..e3100b1 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -450,7 +450,7 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 				latestValues[patch.Path] = patch.Value
 			}
 		}
-		lgm.Patches[path] = compactPatches
+		packedPatches[path] = compactPatches
 	}
 
 	return packedPatches
-- 
2.43.0


From 0c6ef5470d5718839e978c1c3cc4c98ec3be1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 22/43] fix: keep changes that set a value again after its
 removal

Dropping unchanged values compared with values that had since been removed
with their parent or moved in an array, and with paths as they are spelled.
---
 internal/logument/logument.go | 85 +++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 33 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index e3100b1..906b073 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -3,6 +3,7 @@ package logument
 import (
 	"fmt"
 	"math"
+	"reflect"
 	"slices"
 	"sort"
 	"strconv"
@@ -424,7 +425,7 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 		}
 	}
 
-	latestValues := make(map[string]any)
+	latestValues := make(map[string]latestValue)
 
 	paths := make([]uint64, 0, len(packedPatches))
 	for path := range packedPatches {
@@ -437,17 +438,8 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 		compactPatches := make(tsonPatches, 0, len(patches))
 		for _, patch := range patches {
 			// Compare to previous value if it exists at the same path
-			if prev, exists := latestValues[patch.Path]; exists {
-				// If value has changed, keep the patch and update the status bool { return paths[i] < paths[j] })
-				if prev != patch.Value {
-					compactPatches = append(compactPatches, patch)
-					latestValues[patch.Path] = patch.Value
-				}
-				// Skip if value is the same
-			} else {
-				// Always keep the patch when it appears for the first time
+			if changesValue(latestValues, patch) {
 				compactPatches = append(compactPatches, patch)
-				latestValues[patch.Path] = patch.Value
 			}
 		}
 		packedPatches[path] = compactPatches
@@ -468,7 +460,7 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 	}
 
 	trackedPatches := make(map[uint64]tsonPatches)
-	latestValues := make(map[string]any)
+	latestValues := make(map[string]latestValue)
 
 	versions := lgm.getSortedVersions("patch")
 	for _, version := range versions {
@@ -477,17 +469,8 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 		for _, p := range ps {
 			if p.Timestamp >= tsi && p.Timestamp <= tsj {
 				// Compare to previous value if it exists at the same path
-				if prev, exists := latestValues[p.Path]; exists {
-					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
-						compactPatches = append(compactPatches, p)
-						latestValues[p.Path] = p.Value
-					}
-					// Skip if value is the same
-				} else {
-					// Always keep the patch when it appears for the first time
+				if changesValue(latestValues, p) {
 					compactPatches = append(compactPatches, p)
-					latestValues[p.Path] = p.Value
 				}
 			}
 		}
@@ -577,6 +560,50 @@ func leafCompareValue(leafValue tson.Value, value any) bool {
 	return false
 }
 
+// latestValue is the value last recorded at a path.
+type latestValue struct {
+	parts []string
+	value any
+}
+
+// changesValue reports whether the patch may change the value last recorded at its path,
+// and records its value. It always does when it appears for the first time.
+func changesValue(latestValues map[string]latestValue, patch tsonpatch.Operation) bool {
+	parts := tson.SplitPath(patch.Path)
+
+	if patch.Op == tsonpatch.OpRemove {
+		// Forget the values which are removed as well. If this may be
+		// an array element, the following elements have moved.
+		removed := parts
+		if len(parts) > 0 {
+			if _, err := strconv.Atoi(parts[len(parts)-1]); err == nil {
+				removed = parts[:len(parts)-1]
+			}
+		}
+		for key, latest := range latestValues {
+			if hasPrefix(latest.parts, removed) {
+				delete(latestValues, key)
+			}
+		}
+		return true
+	}
+
+	value := patch.Value
+	if number, ok := value.(int); ok {
+		value = float64(number)
+	}
+
+	key := strings.Join(parts, "\x00")
+	prev, exists := latestValues[key]
+	latestValues[key] = latestValue{parts, value}
+	return !exists || !reflect.DeepEqual(prev.value, value)
+}
+
+// hasPrefix reports whether the path parts begin with the given parts.
+func hasPrefix(parts, prefix []string) bool {
+	return len(parts) >= len(prefix) && slices.Equal(parts[:len(prefix)], prefix)
+}
+
 func (lgm *Logument) Compact(targetPath string) {
 	// Compact the Logument document
 	// Remove the patches that have changed only the value without changing the TIMESTAMP ts
@@ -584,27 +611,19 @@ func (lgm *Logument) Compact(targetPath string) {
 		panic("Versions are not continuous.")
 	}
 
-	latestValues := make(map[string]any)
+	latestValues := make(map[string]latestValue)
 
 	versions := lgm.getSortedVersions("patch")
 	for _, version := range versions {
 		ps := lgm.Patches[version]
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
+			changed := changesValue(latestValues, p)
 			pt := rfc6901Decoder.Replace(p.Path)
 			if strings.HasPrefix(pt, targetPath) {
 				// Compare to previous value if it exists at the same path
-				if prev, exists := latestValues[p.Path]; exists {
-					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
-						compactPatches = append(compactPatches, p)
-						latestValues[p.Path] = p.Value
-					}
-					// Skip if value is the same
-				} else {
-					// Always keep the patch when it appears for the first time
+				if changed {
 					compactPatches = append(compactPatches, p)
-					latestValues[p.Path] = p.Value
 				}
 			} else {
 				// Keep patches that do not match the targetPath
-- 
2.43.0


From 7993c4e52e1e3c137eaeaa3c375cf372d8e181e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 23/43] fix: match target paths element by element

'/loc' also selected '/location', and an escaped '/' in a key was taken as
a separator.
---
 internal/logument/logument.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 906b073..be9deac 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -14,12 +14,6 @@ import (
 	"github.com/davecgh/go-spew/spew"
 )
 
-// Note: http://tools.ietf.org/html/rfc6901#section-4 :
-var (
-	// rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
-	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
-)
-
 type tsonSnapshot = tson.Tson
 type tsonPatches = tsonpatch.Patch // []jsonpatch.Operation
 
@@ -599,6 +593,11 @@ func changesValue(latestValues map[string]latestValue, patch tsonpatch.Operation
 	return !exists || !reflect.DeepEqual(prev.value, value)
 }
 
+// matchesPath reports whether the path is the target path or below it.
+func matchesPath(path, targetPath string) bool {
+	return hasPrefix(tson.SplitPath(path), tson.SplitPath(strings.TrimSuffix(targetPath, "/")))
+}
+
 // hasPrefix reports whether the path parts begin with the given parts.
 func hasPrefix(parts, prefix []string) bool {
 	return len(parts) >= len(prefix) && slices.Equal(parts[:len(prefix)], prefix)
@@ -619,8 +618,7 @@ func (lgm *Logument) Compact(targetPath string) {
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
 			changed := changesValue(latestValues, p)
-			pt := rfc6901Decoder.Replace(p.Path)
-			if strings.HasPrefix(pt, targetPath) {
+			if matchesPath(p.Path, targetPath) {
 				// Compare to previous value if it exists at the same path
 				if changed {
 					compactPatches = append(compactPatches, p)
@@ -647,8 +645,7 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 	historyPatches := make(map[string]tsonPatches)
 	for _, patches := range lgm.Patches {
 		for _, patch := range patches {
-			path := rfc6901Decoder.Replace(patch.Path)
-			if strings.HasPrefix(path, targetPath) {
+			if matchesPath(patch.Path, targetPath) {
 				historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
 			}
 		}
-- 
2.43.0


From 6a0588acd21a2f4c10a190bd568f6e04217d9426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 24/43] fix: report the history in order and without rewriting
 it

Querying the history compacted the document itself, visited versions in map
order, and panicked for a path missing in the first snapshot or on a slice.
---
 internal/logument/logument.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index be9deac..0e129ba 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"maps"
 	"math"
 	"reflect"
 	"slices"
@@ -640,11 +641,16 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 		panic("Versions are not continuous.")
 	}
 
-	lgm.Compact(targetPath)
+	// Compact a copy, since a query must not change the document
+	compacted := &Logument{Version: lgm.Version, Patches: maps.Clone(lgm.Patches)}
+	compacted.Compact(targetPath)
 
 	historyPatches := make(map[string]tsonPatches)
-	for _, patches := range lgm.Patches {
-		for _, patch := range patches {
+	for _, version := range compacted.getSortedVersions("patch") {
+		if version <= lgm.Version[0] {
+			continue // Already in the first snapshot
+		}
+		for _, patch := range compacted.Patches[version] {
 			if matchesPath(patch.Path, targetPath) {
 				historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
 			}
@@ -653,9 +659,9 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 
 	// Add the initial value to the history
 	for key := range historyPatches {
-		val, err := tson.GetValue(lgm.Snapshots[0], key)
+		val, err := tson.GetValue(lgm.Snapshots[lgm.Version[0]], key)
 		if err != nil {
-			panic("Failed to get the value from the snapshot. Error: " + err.Error())
+			continue // Did not exist initially
 		}
 		if val != nil {
 			historyPatches[key] = append([]tsonpatch.Operation{{
-- 
2.43.0


From 37d6d73fe752062c1774ce628f377e73c9f9d1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 25/43] fix: generate each dataset file from the previous one

Every patch was generated from the first file, so replaying them in order
did not give the files they were saved with.
---
 internal/vssgen/args.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index 427a634..0f1583c 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -106,7 +106,8 @@ func Generate(metadata map[string]any, dataFolder string) {
 
 		// Generate the rest of the JSON files
 		for j := 2; j <= files; j++ {
-			data, patch := data.GenerateNext(changeRate, maintainRate, i, j)
+			var patch *VssJson
+			data, patch = data.GenerateNext(changeRate, maintainRate, i, j)
 			data.Save(filepath.Join(carDir, fmt.Sprintf("%d_%d.tson", i, j)))
 			patch.Save(filepath.Join(patchDir, fmt.Sprintf("%d_%d.json", i, j)))
 			bar.Add(1)
-- 
2.43.0


From b8060dc1b643302702f9e7cf5dcb1fcbe0e8b4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 26/43] fix: pass the maintain rate to dataset generation

Generating a dataset panicked, as neither the arguments nor the web demo
provided the rate.
---
 internal/vssgen/args.go | 4 ++++
 web_demo.go             | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index 0f1583c..826cd41 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -19,6 +19,7 @@ func ParseArgs(defaultDataset string) (option map[string]any) {
 		cars       = flag.Int("cars", -1, "[required] Number of cars to generate")
 		files      = flag.Int("files", -1, "[required] Number of JSON files per car")
 		changeRate = flag.Float64("change_rate", 0.2, "Change rate for each car")
+		maintain   = flag.Float64("maintain_rate", 0.0, "Rate of values kept with a new timestamp for each car")
 		size       = flag.Float64("size", 1.0, "Dataset size ratio 0.0-1.0")
 	)
 
@@ -33,6 +34,7 @@ func ParseArgs(defaultDataset string) (option map[string]any) {
 	fmt.Println("--cars:", *cars)
 	fmt.Println("--files:", *files)
 	fmt.Println("--change_rate:", *changeRate)
+	fmt.Println("--maintain_rate:", *maintain)
 	fmt.Println("--size:", *size)
 
 	// Return the parsed arguments in JSON format
@@ -42,6 +44,8 @@ func ParseArgs(defaultDataset string) (option map[string]any) {
 		"files":       *files,
 		"change_rate": *changeRate,
 		"size":        *size,
+
+		"maintain_rate": *maintain,
 	}
 }
 
diff --git a/web_demo.go b/web_demo.go
index 0745eb6..1e59350 100644
--- a/web_demo.go
+++ b/web_demo.go
@@ -51,6 +51,8 @@ func generateVss(userDefined bool) {
 			"files":       defaultFileCount,
 			"change_rate": 0.2,
 			"size":        0.1,
+
+			"maintain_rate": maintainRate,
 		}
 	}
 	outputDir := "./dataset"
-- 
2.43.0


From b155a6d0a61bad48e527f0e98e75ddebc676d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 27/43] fix: save generated patches exactly and as valid JSON

Nanosecond timestamps were rounded, and values were written in Go syntax.
---
 internal/tson/serialization.go |  2 ++
 internal/vssgen/vss.go         | 10 +++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 7417592..37f6563 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -195,6 +195,8 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 		return fmt.Sprintf("%v", t), nil
 	case float64:
 		return fmt.Sprintf("%v", t), nil
+	case json.Number:
+		return t.String(), nil
 	case string:
 		return strconv.Quote(t), nil
 
diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 6225caf..d53e26d 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -370,7 +370,9 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 
 	// Step 3. Unmarshal the []byte to a JSON object
 	var patch any
-	json.Unmarshal(bytes, &patch)
+	decoder := json.NewDecoder(strings.NewReader(string(bytes)))
+	decoder.UseNumber() // float64 cannot hold a timestamp in nanoseconds
+	decoder.Decode(&patch)
 
 	// Step 4. Return the new dataset and the patch
 	return &VssJson{initialized: true, data: result}, &VssJson{initialized: true, data: patch}
@@ -393,9 +395,11 @@ func (vss *VssJson) Save(file string) {
 			var buf bytes.Buffer
 			d := item.(map[string]any)
 
+			path, _ := json.Marshal(d["path"])
+			value, _ := json.Marshal(d[tsonValue])
 			fmt.Fprintf(&buf,
-				`{ "op": "%s", "path": "%s", "value": %#v, "timestamp": %d }`,
-				d["op"], d["path"], d[tsonValue], int64(d[tsonTimestamp].(float64)))
+				`{ "op": "%s", "path": %s, "value": %s, "timestamp": %v }`,
+				d["op"], path, value, d[tsonTimestamp])
 			lines = append(lines, "    "+buf.String())
 		}
 
-- 
2.43.0


From 52980481d510647cf7176f3fc6e02c6fd411715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 28/43] fix: serve the initial document when no patch is
 requested

---
 web_demo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web_demo.go b/web_demo.go
index 1e59350..430403d 100644
--- a/web_demo.go
+++ b/web_demo.go
@@ -106,7 +106,7 @@ func patchHandler(w http.ResponseWriter, r *http.Request) {
 	lgm.Append()
 
 	// Take the snapshot
-	snapshot := lgm.Snapshot(1)
+	snapshot := lgm.Snapshot(lgm.Version[len(lgm.Version)-1])
 	result, _ := tson.MarshalIndent(snapshot, "", "  ")
 
 	// Send the result
-- 
2.43.0


From 595c4ba68fa1c4a5a6139d915419970be176bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 29/43] fix: keep the value of a top-level TJSON item

---
 exp/tjson.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index f0fd5e8..1893286 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -75,16 +75,14 @@ func (doc *TJSONDocument) AddItem(path string, startTime, endTime int64, value i
 			currentItem.Children[key] = childItem
 		}
 		currentItem = childItem
+	}
 
-		// 마지막 부분일 경우 값도 설정
-		if i == len(parts)-1 {
-			version := &TJSONVersion{
-				Timestamp: timestamp,
-				Data:      value,
-			}
-			currentItem.Versions = append(currentItem.Versions, version)
-		}
+	// 마지막 부분에 값 설정
+	version := &TJSONVersion{
+		Timestamp: timestamp,
+		Data:      value,
 	}
+	currentItem.Versions = append(currentItem.Versions, version)
 
 	return nil
 }
-- 
2.43.0


From 5bd9cf195663ccb71b424bd7e2720279197a547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 30/43] fix: report only values in effect in TJSON snapshots

Outside every recorded range a snapshot showed the last value, even one that
was set later or had been removed, since the range of a value still in effect
ended at the wall-clock time. Equal timestamps could be reordered.
---
 exp/tjson.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index 1893286..8173bf6 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -2,11 +2,12 @@ package exp
 
 import (
 	"fmt"
+	"math"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
-	"time"
 
 	"github.com/davecgh/go-spew/spew"
 )
@@ -123,9 +124,6 @@ func getSnapshotForItem(item *TJSONItem, timestamp int64) interface{} {
 			versionFound = true
 			break
 		}
-
-		versionData = version.Data
-		versionFound = true
 	}
 
 	// 버전 데이터가 맵인 경우
@@ -221,7 +219,7 @@ func (doc *TJSONDocument) TemporalTrack(path string, startTime, endTime int64) (
 	}
 
 	// 타임스탬프 기준으로 결과 정렬
-	sort.Slice(results, func(i, j int) bool {
+	sort.SliceStable(results, func(i, j int) bool {
 		iStart, _ := parseTimeRange(results[i]["timestamp"].(string))
 		jStart, _ := parseTimeRange(results[j]["timestamp"].(string))
 		return iStart < jStart
@@ -275,8 +273,9 @@ func parseTimeRange(timeRange string) (int64, int64) {
 func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 	doc := NewTJSONDocument()
 
-	// Sort patches by timestamp
-	sort.Slice(patches, func(i, j int) bool {
+	// Sort a copy of the patches by timestamp, in the recorded order for the same timestamp
+	patches = slices.Clone(patches)
+	sort.SliceStable(patches, func(i, j int) bool {
 		return patches[i].Timestamp < patches[j].Timestamp
 	})
 
@@ -328,9 +327,8 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 	}
 
 	// Close time ranges for values that still exist at the end
-	currentTime := time.Now().Unix()
 	for path, value := range lastValues {
-		err := doc.AddItem(path, lastTimes[path], currentTime, value)
+		err := doc.AddItem(path, lastTimes[path], math.MaxInt64, value)
 		if err != nil {
 			fmt.Printf("Warning: Failed to add final item for %s: %v\n", path, err)
 		}
-- 
2.43.0


From e5876670bc99388489d63e4959b50a337d08b9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 31/43] fix: generate timestamped patches of deep documents in
 polynomial time

---
 internal/tsonpatch/tsonpatch.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 5517270..f867f0a 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -735,7 +735,7 @@ func matchTimestamp(origin, modified tson.Value) bool {
 			}
 		}
 		for key := range modObj {
-			if !matchTimestamp(org[key], modObj[key]) {
+			if _, ok := org[key]; !ok { // The others are compared above
 				return false
 			}
 		}
@@ -750,11 +750,6 @@ func matchTimestamp(origin, modified tson.Value) bool {
 				return false
 			}
 		}
-		for key := range modArray {
-			if !matchTimestamp(org[key], modArray[key]) {
-				return false
-			}
-		}
 		return true
 	}
 	return false
-- 
2.43.0


From 4467467be81128c81e0d8086bd7b16b617da74c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 32/43] fix: leave every signal out of a dataset of size zero

---
 internal/vssgen/vss.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index d53e26d..207fb01 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -153,7 +153,7 @@ func (vss VssJson) Generate(datasetSize float64, id int) *VssJson {
 
 	for parent, metadata := range leafs {
 		// !! only add the node by datasetSize
-		if rand.Float64() > datasetSize {
+		if rand.Float64() >= datasetSize {
 			continue
 		}
 		new := result
-- 
2.43.0


From c68b9f89a82ca19320f2f778adef072f1821ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 33/43] fix: keep changed values within their signal's catalog
 entry

---
 internal/vssgen/vss.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 207fb01..4c89f0d 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -35,6 +35,7 @@ const (
 type VssJson struct {
 	initialized bool
 	data        any
+	signals     map[string]map[string]any // Metadata of the signals in a generated dataset
 }
 
 // NewVssJson creates a new VssJson
@@ -259,7 +260,7 @@ func (vss VssJson) Generate(datasetSize float64, id int) *VssJson {
 			"Time":   timestamp,
 		}
 	}
-	return &VssJson{initialized: true, data: result}
+	return &VssJson{initialized: true, data: result, signals: leafs}
 }
 
 // Generate a new dataset based on the current dataset
@@ -307,8 +308,12 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 				// 값이 실제로 변경되는 패치 생성
 				switch value.(map[string]any)[tsonValue].(type) {
 				case string:
+					str := genRandomString(15)
+					if allowed, ok := vss.signals[path]["allowed"].([]any); ok {
+						str = allowed[rand.Intn(len(allowed))].(string)
+					}
 					new[node] = map[string]any{
-						tsonValue:     genRandomString(15),
+						tsonValue:     str,
 						tsonTimestamp: timestamp,
 					}
 				case bool:
@@ -318,8 +323,13 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 						tsonTimestamp: timestamp,
 					}
 				case int:
+					num := rand.Intn(201) - 100
+					dtype, _ := vss.signals[path]["datatype"].(string)
+					if strings.HasPrefix(dtype, "uint") || vss.signals[path]["unit"] == "percent" {
+						num = rand.Intn(101)
+					}
 					new[node] = map[string]any{
-						tsonValue:     rand.Intn(201) - 100,
+						tsonValue:     num,
 						tsonTimestamp: timestamp,
 					}
 				case float64:
@@ -375,7 +385,7 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 	decoder.Decode(&patch)
 
 	// Step 4. Return the new dataset and the patch
-	return &VssJson{initialized: true, data: result}, &VssJson{initialized: true, data: patch}
+	return &VssJson{initialized: true, data: result, signals: vss.signals}, &VssJson{initialized: true, data: patch}
 }
 
 // Save JSON data to file
-- 
2.43.0


From 69125b897ce47b6969abcd8dd91f0821a3f6abff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 34/43] fix: leave out TJSON versions that were never in effect

A value replaced or removed at the timestamp of its own change got an empty
time range, which tracks and event searches reported, and snapshots of time
zero took for the value in effect.
---
 exp/tjson.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index 8173bf6..b842596 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -298,8 +298,8 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 			// Check if value changed or this is the first occurrence
 			lastValue, exists := lastValues[path]
 			if !exists || !reflect.DeepEqual(lastValue, patch.Value) {
-				// If we have a previous value, close its time range
-				if exists {
+				// If we have a previous value which was in effect, close its time range
+				if exists && lastTimes[path] < patch.Timestamp {
 					prevTime := lastTimes[path]
 					// Add the previous item with its time range
 					err := doc.AddItem(path, prevTime, patch.Timestamp-1, lastValue)
@@ -315,10 +315,11 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 		} else if patch.Op == "remove" {
 			// Handle deletion by closing the time range
 			if lastValue, exists := lastValues[path]; exists {
-				prevTime := lastTimes[path]
-				err := doc.AddItem(path, prevTime, patch.Timestamp-1, lastValue)
-				if err != nil {
-					fmt.Printf("Warning: Failed to add item for %s (remove): %v\n", path, err)
+				if prevTime := lastTimes[path]; prevTime < patch.Timestamp {
+					err := doc.AddItem(path, prevTime, patch.Timestamp-1, lastValue)
+					if err != nil {
+						fmt.Printf("Warning: Failed to add item for %s (remove): %v\n", path, err)
+					}
 				}
 				delete(lastValues, path)
 				delete(lastTimes, path)
-- 
2.43.0


From 4827cfc6eed2875ba17753a24b5d2fdd7b2e1512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 35/43] fix: keep the order of changes with equal timestamps in
 the experiment

The unstable sort could put an initial value after a recorded change of
timestamp zero, or swap recorded changes, so the answers were stale.
---
 exp/utils_temporal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 5c19c99..5737960 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -73,8 +73,8 @@ func NewTemporalQueryExperiment(inputDir, baseOutDir, scenario string, tsonPatch
 	allPatches = append(allPatches, initialPatches...)
 	allPatches = append(allPatches, tsonPatches...)
 
-	// Sort by timestamp
-	sort.Slice(allPatches, func(i, j int) bool {
+	// Sort by timestamp, keeping the initial values before the changes of the same time
+	sort.SliceStable(allPatches, func(i, j int) bool {
 		return allPatches[i].Timestamp < allPatches[j].Timestamp
 	})
 
-- 
2.43.0


From f6a9109d9564a2fe51d25a7f4cf69cc75ebc4a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 36/43] fix: record the experiment's patches before querying
 them

They stayed pending, so tracks and event searches found nothing unless a
snapshot had been taken before.
---
 exp/utils_temporal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 5737960..05b501e 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -384,8 +384,9 @@ func createLogumentFromPatches(path string, patches []TsonPatch) *logument.Logum
 		})
 	}
 
-	// Create the Logument
+	// Create the Logument and record the patches
 	lgm := logument.NewLogument(initialTson, tsonPatches)
+	lgm.Append()
 	return lgm
 }
 
-- 
2.43.0


From daf06ea088ab88f902abfadb98661dd7e2b00e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 37/43] fix: add each initial value once to the comparison
 document

Every value was also recorded in maps of its parent, once per field and under
an empty key at the root, so removed values stayed and the root showed twice.
---
 exp/utils_temporal.go | 27 ---------------------------
 1 file changed, 27 deletions(-)

diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 05b501e..970740e 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -541,33 +541,6 @@ func generateInitialPatches(path string, data interface{}, patches *[]TsonPatch)
 				newPath = path + "." + key
 			}
 
-			// Create add patch for the nested object itself (if it has primitive values)
-			hasPrimitives := false
-			for _, fieldValue := range v {
-				if isPrimitive(fieldValue) {
-					hasPrimitives = true
-					break
-				}
-			}
-
-			if hasPrimitives {
-				primitiveValues := make(map[string]interface{})
-				for fieldKey, fieldValue := range v {
-					if isPrimitive(fieldValue) {
-						primitiveValues[fieldKey] = fieldValue
-					}
-				}
-
-				if len(primitiveValues) > 0 {
-					*patches = append(*patches, TsonPatch{
-						Op:        "add",
-						Path:      path,
-						Value:     primitiveValues,
-						Timestamp: int64(0),
-					})
-				}
-			}
-
 			// Recursively process nested structures
 			generateInitialPatches(newPath, value, patches)
 		}
-- 
2.43.0


From af53f8f3e6c9beb58cf9eda5a33fc473d5190535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 38/43] fix: keep the simulated JSON document in step with its
 patches

Differences too small to count as a change were written to the document but
not to the patches, so the patches did not lead to the final document.
---
 exp/exp_scenario.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exp/exp_scenario.go b/exp/exp_scenario.go
index 3700703..45d13bc 100644
--- a/exp/exp_scenario.go
+++ b/exp/exp_scenario.go
@@ -488,7 +488,7 @@ func runRealisticExperiment(scenario string, timingWriter *csv.Writer) (Experime
 					}
 
 					// Update JSON document
-					updateJsonDoc(jsonDoc, path, newValue, newTimestamp)
+					updateJsonDoc(jsonDoc, path, sensor.Value, newTimestamp)
 
 					// Measure JSON processing time
 					jsonProcessingTime := time.Since(jsonStartTime).Nanoseconds()
-- 
2.43.0


From c4a2912372a9606f13d2360993eb1385b6d1be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 39/43] fix: convert generated datasets to maps

---
 internal/vssgen/extension.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/internal/vssgen/extension.go b/internal/vssgen/extension.go
index 72c6543..5bcd58f 100644
--- a/internal/vssgen/extension.go
+++ b/internal/vssgen/extension.go
@@ -3,8 +3,6 @@ package vssgen
 import (
 	"encoding/json"
 	"fmt"
-	"os"
-	"path/filepath"
 	"strconv"
 	"strings"
 )
@@ -16,20 +14,10 @@ func (vss *VssJson) GetData() interface{} {
 
 // ToMapStringInterface 메서드는 VSS 데이터를 map[string]interface{} 형식으로 변환합니다
 func (vss *VssJson) ToMapStringInterface() (map[string]interface{}, error) {
-	// 임시 파일에 저장하고 다시 읽어오기
-	tempDir, err := os.MkdirTemp("", "vssgen")
+	// Save writes TSON, which is not JSON, so the data is encoded directly
+	jsonBytes, err := json.Marshal(vss.data)
 	if err != nil {
-		return nil, fmt.Errorf("임시 디렉토리 생성 실패: %v", err)
-	}
-	defer os.RemoveAll(tempDir)
-
-	tempFile := filepath.Join(tempDir, "temp_data.json")
-	vss.Save(tempFile)
-
-	// 파일에서 데이터 읽기
-	jsonBytes, err := os.ReadFile(tempFile)
-	if err != nil {
-		return nil, fmt.Errorf("임시 파일 읽기 실패: %v", err)
+		return nil, fmt.Errorf("JSON 인코딩 실패: %v", err)
 	}
 
 	var result map[string]interface{}
-- 
2.43.0


From ffb7a8ef5b4061e3300999a2860ce58fb68630b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:22 +0000
Subject: [PATCH 40/43] fix: refuse timestamps in JSON which int64 cannot hold

FromCompatibleTsonBytes read a timestamp such as 1e19 as a wrapped, negative one.
---
 internal/tson/tson.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index fbb55e2..bb5c66e 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -544,7 +544,8 @@ func checkLeaf(m map[string]any) (bool, any, int64) {
 					return true, val, ts
 				}
 				ts, err := t.Float64()
-				return err == nil, val, int64(ts)
+				// A timestamp which int64 cannot hold is no timestamp
+				return err == nil && ts >= -1<<63 && ts < 1<<63, val, int64(ts)
 			}
 		}
 	}
-- 
2.43.0


From ddc17c457093397ad6f61c2ef37a1d9e8231f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 41/43] fix: refuse documents nested so deep that parsing
 exhausts the stack

---
 internal/tson/serialization.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 37f6563..56c3f14 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -438,10 +438,14 @@ func formatPrimitive(v any) (string, error) {
 
 // <<<<<<<<< Unmarshalling
 
+// MaxDepth is the deepest nesting of a document (the same as in encoding/json).
+const MaxDepth = 10000
+
 // Parser struct maintains the parsing state.
 type Parser struct {
 	input []byte
 	pos   int
+	depth int // Number of open objects and arrays
 }
 
 // Unmarshal parses the TSON bytes with '<>' timestamp
@@ -548,9 +552,9 @@ func (p *Parser) parseVal() (Value, error) {
 
 	switch p.peek() {
 	case '{':
-		return p.parseObject()
+		return p.nested(p.parseObject)
 	case '[':
-		return p.parseArray()
+		return p.nested(p.parseArray)
 	case '"', '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 		prim, err := p.parsePrimitive()
 		if err != nil {
@@ -760,6 +764,16 @@ func (p *Parser) parseTimestamp() (int64, error) {
 	return ts, nil
 }
 
+// nested parses an object or array, unless the nesting could exhaust the stack.
+func (p *Parser) nested(parse func() (Value, error)) (Value, error) {
+	if p.depth == MaxDepth {
+		return nil, fmt.Errorf("exceeded max depth at pos %d", p.pos)
+	}
+	p.depth++
+	defer func() { p.depth-- }()
+	return parse()
+}
+
 // parseObject parses an object: { <members>? }.
 func (p *Parser) parseObject() (Value, error) {
 	if err := p.expect('{'); err != nil {
-- 
2.43.0


From a6b397d21b17309853d04e0a1210f9d6fea99310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 42/43] fix: refuse paths of changes so long that applying them
 exhausts the stack

---
 internal/tsonpatch/tsonpatch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index f867f0a..7c89736 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -158,6 +158,9 @@ func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
 func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
 	// Split the path into parts
 	parts := tson.SplitPath(op.Path)
+	if len(parts) > tson.MaxDepth { // No document is that deep
+		return nil, fmt.Errorf("ApplyOperation(): The path has %d elements, at most %d are possible", len(parts), tson.MaxDepth)
+	}
 
 	// Traverse the TSON document
 	if t, err = applyTraverse(doc, parts, op); err != nil {
-- 
2.43.0


From bb77e3744917e7168b8e5cb28fcfb5079c636797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 43/43] fix: refuse array indices for which no memory suffices

---
 internal/tsonpatch/tsonpatch.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 7c89736..796e2ce 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -270,6 +270,9 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 		// 배열 인덱스 범위 체크 및 확장
 		if idx >= len(j) {
 			if op.Op == OpAdd || op.Op == OpReplace {
+				if idx >= maxArrayLength {
+					return nil, fmt.Errorf("applyTraverse(): Index %d is too large for an array", idx)
+				}
 				// 배열 확장
 				newArray := make(tson.Array, idx+1)
 				copy(newArray, j)
@@ -407,6 +410,9 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 // 	}
 // }
 
+// maxArrayLength is the length up to which a change extends an array.
+const maxArrayLength = 1 << 24
+
 func getIndex(part string) (idx int, err error) {
 	if idx, err = strconv.Atoi(part); err != nil || idx < 0 {
 		return -1, fmt.Errorf("getIndex(): Invalid index %s", part)
-- 
2.43.0

