From 44d14522d242c2d066bfaade940c06bbc142ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 01/36] fix: allow the whole of Unicode in regexp character
 classes

---
 regexp_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index e005c67..a9765a4 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -439,7 +439,7 @@ func isCCchar(r rune) bool {
 	if r >= 0x5e && r <= 0xd7ff {
 		return true
 	}
-	if r >= 0xe000 && r <= 0x10fff {
+	if r >= 0xe000 && r <= 0x10ffff {
 		return true
 	}
 	if r == '\\' {
-- 
2.43.0


From 047770c274e0d96a501db7c50f3179718c773df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 02/36] fix: read an escape that follows a \u escape from its
 backslash

---
 flatten_json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatten_json.go b/flatten_json.go
index 16f14e5..d3cec78 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -771,6 +771,10 @@ func (fj *flattenJSON) readTextWithEscapes(from int) ([]byte, int, error) {
 		if err != nil {
 			return nil, 0, err
 		}
+		if fj.event[from] == '\\' {
+			// readHexUTF16 stopped at the start of a different kind of escape; the caller has yet to process it
+			from--
+		}
 	default:
 		return nil, 0, fj.error("malformed \\-escape in text")
 	}
-- 
2.43.0


From c5d1d69eb48de16d390e80b7b5bc3643697ae78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 03/36] fix: read numbers in events as RFC 8259 defines them

---
 flatten_json.go | 56 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/flatten_json.go b/flatten_json.go
index d3cec78..7b16428 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -61,9 +61,13 @@ const (
 	fjInArrayState
 	fjAfterValueState
 	fjNumberStartState
+	fjNumberAfterMinusState
+	fjNumberAfterZeroState
 	fjNumberIntegralPartState
+	fjNumberAfterPointState
 	fjNumberFracState
 	fjNumberAfterEState
+	fjNumberAfterExpSignState
 	fjNumberExpState
 	fjTrailerState
 	fjStartEscapeState
@@ -458,16 +462,41 @@ func (fj *flattenJSON) readNumber() ([]byte, error) {
 		case fjNumberStartState:
 			switch ch {
 			case '-':
+				state = fjNumberAfterMinusState
+			case '0':
+				state = fjNumberAfterZeroState
+			case '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				state = fjNumberIntegralPartState
-			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+			}
+		case fjNumberAfterMinusState:
+			switch ch {
+			case '0':
+				state = fjNumberAfterZeroState
+			case '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				state = fjNumberIntegralPartState
+			default:
+				fj.eventIndex = i
+				return nil, fj.error(fmt.Sprintf("illegal char '%c' after '-' in number", ch))
+			}
+		case fjNumberAfterZeroState:
+			switch ch {
+			case '.':
+				state = fjNumberAfterPointState
+			case 'e', 'E':
+				state = fjNumberAfterEState
+			case ',', ']', '}', ' ', '\t', '\n', '\r':
+				fj.eventIndex = i - 1
+				return fj.event[numStart:i], nil
+			default:
+				fj.eventIndex = i
+				return nil, fj.error(fmt.Sprintf("illegal char '%c' in number", ch))
 			}
 		case fjNumberIntegralPartState:
 			switch ch {
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				// no-op
 			case '.':
-				state = fjNumberFracState
+				state = fjNumberAfterPointState
 			case 'e', 'E':
 				state = fjNumberAfterEState
 			case ',', ']', '}', ' ', '\t', '\n', '\r':
@@ -477,6 +506,14 @@ func (fj *flattenJSON) readNumber() ([]byte, error) {
 				fj.eventIndex = i
 				return nil, fj.error(fmt.Sprintf("illegal char '%c' in number", ch))
 			}
+		case fjNumberAfterPointState:
+			switch ch {
+			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+				state = fjNumberFracState
+			default:
+				fj.eventIndex = i
+				return nil, fj.error(fmt.Sprintf("illegal char '%c' after '.' in number", ch))
+			}
 		case fjNumberFracState:
 			switch ch {
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
@@ -493,13 +530,22 @@ func (fj *flattenJSON) readNumber() ([]byte, error) {
 			}
 		case fjNumberAfterEState:
 			switch ch {
-			case '-', '1', '2', '3', '4', '5', '6', '7', '8', '9':
-				// no-op
+			case '-', '+':
+				state = fjNumberAfterExpSignState
+			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+				state = fjNumberExpState
 			default:
 				fj.eventIndex = i
 				return nil, fj.error(fmt.Sprintf("illegal char '%c' after 'e' in number", ch))
 			}
-			state = fjNumberExpState
+		case fjNumberAfterExpSignState:
+			switch ch {
+			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+				state = fjNumberExpState
+			default:
+				fj.eventIndex = i
+				return nil, fj.error(fmt.Sprintf("illegal char '%c' in exponent", ch))
+			}
 
 		case fjNumberExpState:
 			switch ch {
-- 
2.43.0


From f27fad303855c31e1e99c87634e6f6be187e324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 04/36] fix: don't match object fields in an array against the
 paths of its parent

---
 flatten_json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatten_json.go b/flatten_json.go
index 7b16428..eb31778 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -45,6 +45,9 @@ var (
 	nullBytes  = []byte("null")
 )
 
+// noSegments is the (immutable) tree for the contents of arrays into which no pattern's path leads
+var noSegments = newSegmentsIndexNode(false)
+
 // errEarlyStop is used to signal the case when we've detected that we've read all the fields that appear in any pattern
 // and so that we don't need to read any more
 var errEarlyStop = errors.New("earlyStop")
@@ -271,7 +274,8 @@ func (fj *flattenJSON) readObject(pathNode SegmentsTreeTracker) error {
 						//  { "geo": { "coords": [{"coordinates": [1,2,3]}] } }
 						// "coords" is a node.
 						// "coordinates" is a field.
-						arrayPathNode = pathNode
+						// If it's not a node, no pattern can match anything inside its elements.
+						arrayPathNode = noSegments
 					}
 
 					err = fj.readArray(pathNode.PathForSegment(memberName), arrayPathNode)
-- 
2.43.0


From 372519acffce893fb5e160a4082c676b873f17ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:46 +0000
Subject: [PATCH 05/36] fix: don't emit fields for values of members that no
 pattern uses as a field

---
 flatten_json.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flatten_json.go b/flatten_json.go
index eb31778..67d820e 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -321,8 +321,11 @@ func (fj *flattenJSON) readObject(pathNode SegmentsTreeTracker) error {
 			}
 			if val != nil {
 				if memberIsUsed {
-					fj.storeObjectMemberField(pathNode.PathForSegment(memberName), arrayTrail, val, isNumber)
-					fieldsCount--
+					// there's no path if patterns use the member only as a node on the way to their fields
+					if path := pathNode.PathForSegment(memberName); path != nil {
+						fj.storeObjectMemberField(path, arrayTrail, val, isNumber)
+						fieldsCount--
+					}
 				}
 			}
 			state = fjAfterValueState
@@ -426,7 +429,9 @@ func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker)
 			if val != nil {
 				if fj.skipping == 0 {
 					fj.stepOneArrayElement()
-					fj.storeArrayElementField(pathName, val, isNumber)
+					if pathName != nil {
+						fj.storeArrayElementField(pathName, val, isNumber)
+					}
 				}
 			}
 			state = fjAfterValueState
-- 
2.43.0


From d86b268a390990a176741b778967b73f914b9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:09 +0000
Subject: [PATCH 06/36] fix: reject an empty special pattern rather than
 panicking

---
 pattern.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pattern.go b/pattern.go
index cfbf314..fd10750 100644
--- a/pattern.go
+++ b/pattern.go
@@ -192,8 +192,12 @@ func readSpecialPattern(pb *patternBuild, valsIn []typedVal) (pathVals []typedVa
 		return
 	}
 
-	// tokenizer will throw an error if it's not a string
-	tt := t.(string)
+	// tokenizer will throw an error if it's neither a string nor '}'
+	tt, ok := t.(string)
+	if !ok {
+		err = errors.New("empty special pattern")
+		return
+	}
 	switch tt {
 	case "anything-but":
 		containsExclusive = tt
-- 
2.43.0


From 6fdc54d2ad4097368fface05f0e05d04eec7d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 07/36] fix: reject nested structures in an anything-but list

---
 anything_but.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anything_but.go b/anything_but.go
index ab57fed..e64f267 100644
--- a/anything_but.go
+++ b/anything_but.go
@@ -35,6 +35,7 @@ func readAnythingButSpecial(pb *patternBuild, valsIn []typedVal) (pathVals []typ
 				done = true
 			} else {
 				err = fmt.Errorf("spurious %c in anything-but list", tt)
+				return
 			}
 		case string:
 			fieldCount++
-- 
2.43.0


From 6e81c691461951aef298026ae47e6f38a805ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 08/36] fix: keep all anything-but values when one is a prefix
 of another

---
 anything_but.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anything_but.go b/anything_but.go
index e64f267..cfde596 100644
--- a/anything_but.go
+++ b/anything_but.go
@@ -123,6 +123,11 @@ func makeOneMultiAnythingButStep(vals [][]byte, index int, success *faState) sma
 	// if you hit the valueTerminator, success for everything else
 	for utf8Byte := range valsEndingHere {
 		failState := &faState{table: newSmallTable()} // note no transitions
+		if _, ok := valsWithBytesRemaining[utf8Byte]; ok {
+			// there's already a step, shared with vals that go on past this one
+			u[utf8Byte].table.addByteStep(valueTerminator, failState)
+			continue
+		}
 		lastTable := makeSmallTable(success, []byte{valueTerminator}, []*faState{failState})
 		u[utf8Byte] = &faState{table: lastTable}
 	}
-- 
2.43.0


From 9a44d52cd0cf0aae000a8a5cb02551fed60959f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 09/36] fix: handle an escape that follows a '*' in wildcard
 patterns

---
 wildcard.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wildcard.go b/wildcard.go
index b25015d..b9dd2bd 100644
--- a/wildcard.go
+++ b/wildcard.go
@@ -56,6 +56,9 @@ func readWildcardSpecial(pb *patternBuild, valsIn []typedVal) ([]typedVal, error
 			}
 		}
 	}
+	if state == wcAfterBS {
+		return nil, errors.New("'\\' at end of string not allowed")
+	}
 	pathVals = append(pathVals, typedVal{vType: wildcardType, val: `"` + wcInput + `"`})
 
 	t, err = pb.jd.Token()
@@ -95,6 +98,9 @@ func makeWildCardFA(val []byte, pp printer) (start *faState, nextField *fieldMat
 			spinner.isSpinner = true
 
 			valIndex++
+			if val[valIndex] == '\\' {
+				valIndex++
+			}
 			spinEscape := &faState{table: newSmallTable()}
 			spinEscape.table.epsilons = []*faState{spinner}
 			spinner.table = makeByteDotFA(spinner, pp)
-- 
2.43.0


From 717a803c91d7be6d1987de99215e1d55640d7f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 10/36] fix: reject a pattern that is not valid UTF-8

---
 pattern.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pattern.go b/pattern.go
index fd10750..c52d3d3 100644
--- a/pattern.go
+++ b/pattern.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"unicode/utf8"
 )
 
 type valType int
@@ -56,6 +57,11 @@ func patternFromJSON(jsonBytes []byte) (fields []*patternField, err error) {
 	// what the caller actually wrote in the patternField. json.Decoder is kind of slow due to excessive
 	// memory allocation, but I haven't got around to prematurely optimizing the patternFromJSON code path
 	var pb patternBuild
+	// the decoder would silently replace invalid UTF-8
+	if !utf8.Valid(jsonBytes) {
+		err = errors.New("pattern is not valid UTF-8")
+		return
+	}
 	pb.jd = json.NewDecoder(bytes.NewReader(jsonBytes))
 	pb.jd.UseNumber()
 
-- 
2.43.0


From 5b8615864409de1da4331c1183f4ceaecbaeb443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 11/36] fix: never match a pattern that has a field with no
 values

---
 core_matcher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core_matcher.go b/core_matcher.go
index 4e0951d..bc06644 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -97,9 +97,10 @@ func (m *coreMatcher) addPatternWithPrinter(x X, patternJSON string, printer pri
 	// combo.
 	states := []*fieldMatcher{currentFields.state}
 	for _, field := range patternFields {
-		// if the field has no values, this is a no-op
+		// if the field has no values, nothing can match it, nor thus the pattern
 		if len(field.vals) == 0 {
-			continue
+			states = nil
+			break
 		}
 
 		var nextStates []*fieldMatcher
-- 
2.43.0


From 45be8ea4215de113aa165e33801584990df4d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 12/36] fix: don't append to slices owned by automaton states
 that are in use

---
 nfa.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nfa.go b/nfa.go
index c7bcaa0..f711a33 100644
--- a/nfa.go
+++ b/nfa.go
@@ -2,6 +2,7 @@ package quamina
 
 import (
 	"fmt"
+	"slices"
 	"unsafe"
 )
 
@@ -458,7 +459,7 @@ func mergeFAStates(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp p
 		return combined
 	}
 
-	combined.fieldTransitions = append(state1.fieldTransitions, state2.fieldTransitions...)
+	combined.fieldTransitions = slices.Concat(state1.fieldTransitions, state2.fieldTransitions)
 
 	pp.labelTable(&combined.table, fmt.Sprintf("%d∎%d",
 		pp.tableSerial(&state1.table), pp.tableSerial(&state2.table)))
@@ -508,7 +509,7 @@ func mergeFAStates(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp p
 func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]*faState, pp printer) *faState {
 	mKey := makeFaStepKey(spinner, nonSpinner)
 	combined := &faState{table: newSmallTable()}
-	combined.fieldTransitions = append(spinner.fieldTransitions, nonSpinner.fieldTransitions...)
+	combined.fieldTransitions = slices.Concat(spinner.fieldTransitions, nonSpinner.fieldTransitions)
 
 	pp.labelTable(&combined.table, fmt.Sprintf("%d∎%d",
 		pp.tableSerial(&spinner.table), pp.tableSerial(&nonSpinner.table)))
@@ -540,7 +541,7 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 			mergedTable := smallTable{
 				steps:    nonSpinnernext.table.steps,
 				ceilings: nonSpinnernext.table.ceilings,
-				epsilons: append(nonSpinnernext.table.epsilons, spinner),
+				epsilons: slices.Concat(nonSpinnernext.table.epsilons, []*faState{spinner}),
 			}
 			mergedState = &faState{table: mergedTable, fieldTransitions: spinner.fieldTransitions}
 
@@ -575,7 +576,7 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 
 func symmetricSpinnerMerge(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp printer) *faState {
 	combined := &faState{table: newSmallTable()}
-	combined.fieldTransitions = append(state1.fieldTransitions, state2.fieldTransitions...)
+	combined.fieldTransitions = slices.Concat(state1.fieldTransitions, state2.fieldTransitions)
 
 	pp.labelTable(&combined.table, fmt.Sprintf("%d∎%d",
 		pp.tableSerial(&state1.table), pp.tableSerial(&state2.table)))
@@ -605,7 +606,7 @@ func symmetricSpinnerMerge(state1, state2 *faState, keyMemo map[faStepKey]*faSta
 			table := smallTable{
 				ceilings: next2.table.ceilings,
 				steps:    next2.table.steps,
-				epsilons: append(state2.table.epsilons, combined),
+				epsilons: slices.Concat(state2.table.epsilons, []*faState{combined}),
 			}
 			mergedState = &faState{
 				table:            table,
@@ -616,7 +617,7 @@ func symmetricSpinnerMerge(state1, state2 *faState, keyMemo map[faStepKey]*faSta
 			table := smallTable{
 				ceilings: next1.table.ceilings,
 				steps:    next1.table.steps,
-				epsilons: append(state1.table.epsilons, combined),
+				epsilons: slices.Concat(state1.table.epsilons, []*faState{combined}),
 			}
 			mergedState = &faState{
 				table:            table,
-- 
2.43.0


From 0f0241370bcc08e073b6f45b6dd62ef38c04d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 13/36] fix: keep the field transitions of a state merged with
 a spinner

---
 nfa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nfa.go b/nfa.go
index f711a33..4710de9 100644
--- a/nfa.go
+++ b/nfa.go
@@ -543,7 +543,7 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 				ceilings: nonSpinnernext.table.ceilings,
 				epsilons: slices.Concat(nonSpinnernext.table.epsilons, []*faState{spinner}),
 			}
-			mergedState = &faState{table: mergedTable, fieldTransitions: spinner.fieldTransitions}
+			mergedState = &faState{table: mergedTable, fieldTransitions: nonSpinnernext.fieldTransitions}
 
 		default:
 			// if spinner's branch isn't a loopback, we need to merge its target with the nonspinner
-- 
2.43.0


From a01be5fce0385eb77fc300216f890e4fbb612fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:35 +0000
Subject: [PATCH 14/36] fix: don't let recursion overwrite the transitions
 being iterated over

---
 core_matcher.go | 2 +-
 nfa.go          | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/core_matcher.go b/core_matcher.go
index bc06644..3250ea6 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -232,7 +232,7 @@ func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSe
 	// try to transition through the machine
 	tm := bufs.getTransmap()
 	tm.push()
-	nextStates := state.transitionOn(&fields[index], bufs)
+	nextStates := tm.keep(state.transitionOn(&fields[index], bufs))
 
 	// for each state in the possibly-empty list of transitions from this state on fields[index]
 	for _, nextState := range nextStates {
diff --git a/nfa.go b/nfa.go
index 4710de9..00b7d91 100644
--- a/nfa.go
+++ b/nfa.go
@@ -80,6 +80,12 @@ func (tm *transmap) push() {
 
 // pop decrements depth. The buffer at the previous depth remains valid
 // until the next push() at that depth or resetDepth().
+// keep copies the states into the current level, where they stay put until the corresponding pop
+func (tm *transmap) keep(states []*fieldMatcher) []*fieldMatcher {
+	tm.levels[tm.depth] = append(tm.levels[tm.depth][:0], states...)
+	return tm.levels[tm.depth]
+}
+
 func (tm *transmap) pop() {
 	tm.depth--
 }
-- 
2.43.0


From 0699a9c6eb7555e8666829f32f9181e442fd4e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 15/36] fix: return matches in a slice that the next call
 doesn't overwrite

---
 core_matcher.go | 10 ++--------
 nfa.go          |  2 --
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/core_matcher.go b/core_matcher.go
index 3250ea6..5cf8324 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -152,13 +152,7 @@ func (m *coreMatcher) matchesForJSONEvent(event []byte) ([]X, error) {
 func (m *coreMatcher) matchesForJSONWithFlattener(event []byte, f Flattener) ([]X, error) {
 	fields, _ := f.Flatten(event, m.getSegmentsTreeTracker())
 	bufs := nfaBuffersPool.Get().(*nfaBuffers)
-	defer func() {
-		// Detach the result slice from bufs before returning to the pool: the
-		// returned []X aliases bufs.resultBuf's backing array, and a subsequent
-		// pool user must not be able to write through it.
-		bufs.resultBuf = make([]X, 0, 16)
-		nfaBuffersPool.Put(bufs)
-	}()
+	defer nfaBuffersPool.Put(bufs)
 	return m.matchesForFields(fields, bufs)
 }
 
@@ -206,7 +200,7 @@ func (m *coreMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X, e
 	for i := 0; i < len(fields); i++ {
 		tryToMatch(fields, i, cmFields.state, matches, bufs)
 	}
-	return matches.matchesInto(bufs.resultBuf[:0]), nil
+	return matches.matchesInto(make([]X, 0, len(matches.set))), nil
 }
 
 // tryToMatch tries to match the field at fields[index] to the provided state. If it does match and generate
diff --git a/nfa.go b/nfa.go
index 00b7d91..4954f75 100644
--- a/nfa.go
+++ b/nfa.go
@@ -103,7 +103,6 @@ type nfaBuffers struct {
 	buf1, buf2     []*faState
 	matches        *matchSet
 	transitionsBuf []*fieldMatcher
-	resultBuf      []X
 	transmap       *transmap
 	fieldSet       map[*fieldMatcher]bool
 	qNumBuf        [MaxBytesInEncoding]byte
@@ -112,7 +111,6 @@ type nfaBuffers struct {
 func newNfaBuffers() *nfaBuffers {
 	return &nfaBuffers{
 		transitionsBuf: make([]*fieldMatcher, 0, 16),
-		resultBuf:      make([]X, 0, 16),
 	}
 }
 
-- 
2.43.0


From 58d702d428a93d549cf78edb8365b35094dedc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:19 +0000
Subject: [PATCH 16/36] fix: guard the rune range cache shared by all instances
 with a lock

---
 rune_range.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/rune_range.go b/rune_range.go
index 4e9f949..a0b08d1 100644
--- a/rune_range.go
+++ b/rune_range.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"slices"
+	"sync"
 )
 
 // It turns out that makeRuneRangeNFA is an expensive call that burns memory.  So for the big
@@ -17,6 +18,9 @@ import (
 var PlaceholderState *faState = &faState{table: newSmallTable()}
 var cachedFaShells = make(map[string]smallTable)
 
+// cachedFaShellsLock protects cachedFaShells, which is shared by all Quamina instances
+var cachedFaShellsLock sync.Mutex
+
 func faFromShell(shell *smallTable, oldNext *faState, newNext *faState) smallTable {
 	return copyShellNode(&faState{table: *shell}, oldNext, newNext, make(map[*faState]*faState)).table
 }
@@ -89,6 +93,8 @@ func newRuneRangeIterator(rr RuneRange) (*runeRangeIterator, error) {
 	if len(rr) == 0 {
 		return nil, errors.New("empty range")
 	}
+	// the ranges may be from a table shared by all Quamina instances
+	rr = slices.Clone(rr)
 	slices.SortFunc(rr, func(a, b RunePair) int { return cmp.Compare(a.Lo, b.Lo) })
 	return &runeRangeIterator{pairs: rr, whichPair: 0, inPair: rr[0].Lo}, nil
 }
@@ -98,11 +104,7 @@ func newRuneRangeIterator(rr RuneRange) (*runeRangeIterator, error) {
 
 func makeAndCacheRuneRangeFA(rr RuneRange, next *faState, name string, pp printer) smallTable {
 	if name != "" {
-		fa, ok := cachedFaShells[name]
-		if !ok {
-			fa = makeAndCacheRuneRangeFA(rr, PlaceholderState, "", pp)
-			cachedFaShells[name] = fa
-		}
+		fa := cachedFaShell(rr, name, pp)
 		return faFromShell(&fa, PlaceholderState, next)
 	}
 
@@ -124,6 +126,18 @@ func makeAndCacheRuneRangeFA(rr RuneRange, next *faState, name string, pp printe
 	return nfaFromSkinnyRuneTree(root, pp)
 }
 
+// cachedFaShell finds or builds the shell for the named rune range
+func cachedFaShell(rr RuneRange, name string, pp printer) smallTable {
+	cachedFaShellsLock.Lock()
+	defer cachedFaShellsLock.Unlock()
+	fa, ok := cachedFaShells[name]
+	if !ok {
+		fa = makeAndCacheRuneRangeFA(rr, PlaceholderState, "", pp)
+		cachedFaShells[name] = fa
+	}
+	return fa
+}
+
 func makeRuneRangeNFA(rr RuneRange, next *faState, pp printer) smallTable {
 	return makeAndCacheRuneRangeFA(rr, next, "", pp)
 }
-- 
2.43.0


From 296faaa1e21b8dc676640cc9e6a072b775a1fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 17/36] fix: complement regexp character classes correctly

---
 regexp_reader.go | 5 ++++-
 rune_range.go    | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index a9765a4..0304ab5 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -373,7 +373,7 @@ func readCharClassExpr(parse *regexpParse) (RuneRange, error) {
 	}
 	trailingHyphen, _ := parse.bypassOptional('-') // already probed
 	if trailingHyphen {
-		rr = append(rr, RunePair{Lo: '-', Hi: '-'})
+		rr = simplifyRuneRange(append(rr, RunePair{Lo: '-', Hi: '-'}))
 	}
 	if err = parse.require(']'); err != nil {
 		return nil, err
@@ -381,6 +381,9 @@ func readCharClassExpr(parse *regexpParse) (RuneRange, error) {
 	if isNegated {
 		parse.features.recordFeature(rxfNegatedClass)
 		rr = InvertRuneRange(rr)
+		if len(rr) == 0 {
+			return nil, fmt.Errorf("character class matches nothing at %d", parse.lastOffset())
+		}
 	}
 	return rr, nil
 }
diff --git a/rune_range.go b/rune_range.go
index a0b08d1..128d154 100644
--- a/rune_range.go
+++ b/rune_range.go
@@ -150,9 +150,9 @@ func InvertRuneRange(rr RuneRange) RuneRange {
 		if pair.Lo > point {
 			inverted = append(inverted, RunePair{point, pair.Lo - 1})
 		}
-		point = pair.Hi + 1
+		point = max(point, pair.Hi+1)
 	}
-	if point < runeMax {
+	if point <= runeMax {
 		inverted = append(inverted, RunePair{point, runeMax})
 	}
 	return inverted
-- 
2.43.0


From 87cfab8273f6f3c2c74d744afff2dec560c466b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 18/36] fix: don't mistake regexp counts of 100 and 200 for
 unlimited ones

---
 regexp_reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index 0304ab5..b91805d 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -5,6 +5,7 @@ import (
 	"cmp"
 	"errors"
 	"fmt"
+	"math"
 	"slices"
 	"strconv"
 	"unicode/utf8"
@@ -58,8 +59,9 @@ var implementedRegexpFeatures = map[regexpFeature]bool{
 }
 
 // distinguished values to mark idioms like * and {}
-const regexpQuantifierMax = 100 // TODO: make this into an option
-const regexpMinimumOnly = 200
+// they must be larger than any count that can reasonably appear in a range quantifier
+const regexpQuantifierMax = math.MaxInt32
+const regexpMinimumOnly = math.MaxInt32 - 1
 
 const Escape rune = '~'
 
-- 
2.43.0


From e7ac9d0179dab2e3729cea23af3d4d8c62bc9325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:49 +0000
Subject: [PATCH 19/36] fix: match any count from the minimum up for a regexp
 {n,} quantifier

---
 regexp_nfa.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/regexp_nfa.go b/regexp_nfa.go
index bc3d6c3..bbb189a 100644
--- a/regexp_nfa.go
+++ b/regexp_nfa.go
@@ -133,23 +133,17 @@ func faFromQuantifiedAtom(branch regexpBranch, index int, finalStep *faState, pp
 		}
 
 		shellTable := atom.makeFA(PlaceholderState, pp)
-		nextMinMaxStep := nextState
 
-		var lastState *faState
-		for counter := atom.quantMin; counter > 0; counter-- {
-			stepTable := faFromShell(&shellTable, PlaceholderState, nextMinMaxStep)
+		// a{3,} means the same as aaa+, so the last step of the chain is built as for +
+		plusLoopback := &faState{table: newSmallTable()}
+		state = &faState{table: faFromShell(&shellTable, PlaceholderState, plusLoopback)}
+		plusLoopback.table.epsilons = []*faState{nextState, state}
+
+		for counter := atom.quantMin - 1; counter > 0; counter-- {
+			stepTable := faFromShell(&shellTable, PlaceholderState, state)
 			pp.labelTable(&stepTable, fmt.Sprintf("minmax at %d", counter))
 			state = &faState{table: stepTable}
-
-			// there's a chain of the minimum-count steps, but the last one has to
-			// loop back to the first one, so we have to remember the last one
-			if counter == atom.quantMin {
-				lastState = state
-			}
-
-			nextMinMaxStep = state
 		}
-		lastState.table.epsilons = append(lastState.table.epsilons, state)
 
 	default:
 		state = &faState{table: atom.makeFA(nextState, pp)}
-- 
2.43.0


From 86b6c9ca76f98ddb43927cfe2fe76153317baef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 20/36] fix: build regexp alternatives that can't be merged as
 separate branches

---
 regexp_nfa.go    | 49 ++++++++++++++++++++++++++++++++++--------------
 regexp_reader.go |  4 ++++
 2 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/regexp_nfa.go b/regexp_nfa.go
index bbb189a..120daf5 100644
--- a/regexp_nfa.go
+++ b/regexp_nfa.go
@@ -35,26 +35,47 @@ func makeNFAFromBranches(root regexpRoot, nextStep *faState, addQuoteTransition
 	if len(root) == 0 {
 		return makeSmallTable(nil, []byte{'"'}, []*faState{nextStep})
 	}
-	var fa smallTable
-	first := true
+	if len(root) == 1 && len(root[0]) > 0 {
+		return faFromBranch(root[0], nextStep, addQuoteTransition, pp)
+	}
+
+	// Branches that match a single character can be merged, because nothing but nextStep follows them. In general
+	// that won't work, since a branch can be a prefix of another, can loop, or can end at a placeholder, so there's an
+	// epsilon to each of the others. An empty branch goes straight to the next step.
+	fa := newSmallTable()
+	var merged *faState
 	for _, branch := range root {
-		var nextBranch smallTable
-		if len(branch) == 0 {
-			nextBranch = makeSmallTable(nil, []byte{'"'}, []*faState{nextStep})
-			pp.labelTable(&nextBranch, "next on len 0")
-		} else {
-			nextBranch = faFromBranch(branch, nextStep, addQuoteTransition, pp)
-		}
-		if !first {
-			fa = mergeFAs(&fa, &nextBranch, pp)
-		} else {
-			fa = nextBranch
-			first = false
+		switch {
+		case len(branch) == 0:
+			fa.epsilons = append(fa.epsilons, nextStep)
+		case isSingleCharacter(branch):
+			state := faFromQuantifiedAtom(branch, 0, nextStep, pp)
+			if merged != nil {
+				state = mergeStartStates(merged, state, pp)
+			}
+			merged = state
+		default:
+			fa.epsilons = append(fa.epsilons, faFromQuantifiedAtom(branch, 0, nextStep, pp))
 		}
 	}
+	switch {
+	case merged != nil && len(fa.epsilons) == 0:
+		fa = merged.table
+	case merged != nil:
+		fa.epsilons = append(fa.epsilons, merged)
+	}
+	pp.labelTable(&fa, "alternatives")
+	if addQuoteTransition {
+		fa = makeSmallTable(nil, []byte{'"'}, []*faState{{table: fa}})
+		pp.labelTable(&fa, "<Field>")
+	}
 	return fa
 }
 
+func isSingleCharacter(branch regexpBranch) bool {
+	return len(branch) == 1 && branch[0].quantMin == 1 && branch[0].quantMax == 1 && branch[0].getSubtree() == nil
+}
+
 func faFromBranch(branch regexpBranch, nextStep *faState, addQuoteTransition bool, pp printer) smallTable {
 	state := faFromQuantifiedAtom(branch, 0, nextStep, pp)
 	table := state.table
diff --git a/regexp_reader.go b/regexp_reader.go
index b91805d..9ca79db 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -192,6 +192,10 @@ func readBranches(parse *regexpParse) error {
 		b, _ = parse.nextRune() // we already know we're not at EOF
 		if b == '|' {
 			parse.features.recordFeature(rxfOrBar)
+			if parse.isEmpty() {
+				// the last alternative is the empty one
+				parse.tree = append(parse.tree, regexpBranch{})
+			}
 			continue
 		} else if b == ')' {
 			parse.backup1(b)
-- 
2.43.0


From 5aa5f1c8fd80fe0152cfec118ea3d19cb44461a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 21/36] fix: don't let patterns be lost when a pruner rebuild
 and other calls run in parallel

---
 pruner.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pruner.go b/pruner.go
index dd2d2bb..f7cf6ba 100644
--- a/pruner.go
+++ b/pruner.go
@@ -197,27 +197,32 @@ func (m *prunerMatcher) maybeRebuild(added bool) error {
 // method and then maybe rebuilds the index (if the addPattern
 // succeeded).
 func (m *prunerMatcher) addPattern(x X, pat string, buildMode MatcherBuildMode) error {
-	var err error
+	// a rebuild must see either neither or both of the matcher and the live set with the new pattern
+	m.lock.Lock()
+	defer m.lock.Unlock()
 
-	// Do we m.live.Add first or do we m.prunerMatcher.addPattern first?
-	if err = m.Matcher.addPattern(x, pat, buildMode); err == nil {
-		m.lock.Lock()
+	err := m.Matcher.addPattern(x, pat, buildMode)
+	if err == nil {
 		m.stats.Added++
 		m.stats.Live++
-		_ = m.maybeRebuild(true)
-		m.lock.Unlock()
 		err = m.live.Add(x, pat, buildMode)
 		// ToDo: Contemplate what do to about an error here
-		// (or if we got an error from addPattern after we did
-		// live.Add.
+		_ = m.maybeRebuild(true)
 	}
 
 	return err
 }
 
+// matcher returns the current underlying matcher, which a rebuild replaces
+func (m *prunerMatcher) matcher() *coreMatcher {
+	m.lock.RLock()
+	defer m.lock.RUnlock()
+	return m.Matcher
+}
+
 // MatchesForJSONEvent calls MatchesForFields with a new Flattener.
 func (m *prunerMatcher) MatchesForJSONEvent(event []byte) ([]X, error) {
-	fs, err := newJSONFlattener().Flatten(event, m.Matcher.fields().segmentsTree)
+	fs, err := newJSONFlattener().Flatten(event, m.matcher().fields().segmentsTree)
 	if err != nil {
 		return nil, err
 	}
@@ -225,14 +230,14 @@ func (m *prunerMatcher) MatchesForJSONEvent(event []byte) ([]X, error) {
 }
 
 func (m *prunerMatcher) getStats() *matcherStats {
-	return m.Matcher.getStats()
+	return m.matcher().getStats()
 }
 
 // MatchesForFields calls the underlying
 // quamina.coreMatcher.matchesForFields and then maybe rebuilds the
 // index.
 func (m *prunerMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X, error) {
-	xs, err := m.Matcher.matchesForFields(fields, bufs)
+	xs, err := m.matcher().matchesForFields(fields, bufs)
 	if err != nil {
 		return nil, err
 	}
@@ -343,5 +348,5 @@ func (m *prunerMatcher) getPrunerStats() prunerStats {
 }
 
 func (m *prunerMatcher) getSegmentsTreeTracker() SegmentsTreeTracker {
-	return m.Matcher.getSegmentsTreeTracker()
+	return m.matcher().getSegmentsTreeTracker()
 }
-- 
2.43.0


From 5b73385098af63e9954a804dfa8d46d2e8581ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 22/36] fix: count emitted matches since the last rebuild, as
 for filtered ones

---
 pruner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pruner.go b/pruner.go
index f7cf6ba..24b554a 100644
--- a/pruner.go
+++ b/pruner.go
@@ -330,6 +330,7 @@ func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 		m.stats.Live = count
 		m.stats.Added = 0
 		m.stats.Deleted = 0
+		m.stats.Emitted = 0
 		m.stats.Filtered = 0
 		m.stats.LastRebuilt = then
 		m.stats.RebuildDuration = time.Since(then)
-- 
2.43.0


From 81571cac98040983088019e79d55bb8df0609012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 23/36] fix: don't leave the pruner without a matcher when a
 rebuild fails

---
 pruner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pruner.go b/pruner.go
index 24b554a..a938e65 100644
--- a/pruner.go
+++ b/pruner.go
@@ -334,6 +334,9 @@ func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 		m.stats.Filtered = 0
 		m.stats.LastRebuilt = then
 		m.stats.RebuildDuration = time.Since(then)
+	} else if fearlessly {
+		// the old matcher is gone, and what could be rebuilt is better than nothing
+		m.Matcher = m1
 	}
 
 	return err
-- 
2.43.0


From f541a304c79075064b2f57ecc52114afb1055a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 24/36] fix: don't revive deleted patterns when their X is
 added again

---
 pruner.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pruner.go b/pruner.go
index a938e65..08d5d6b 100644
--- a/pruner.go
+++ b/pruner.go
@@ -64,6 +64,10 @@ type prunerMatcher struct {
 	// live is the live set of patterns.
 	live LivePatternsState
 
+	// purgeable has the Xs whose patterns have been deleted from live but
+	// are still in Matcher, because it hasn't been rebuilt since.
+	purgeable map[X]bool
+
 	stats prunerStats
 
 	// rebuildTrigger, if not nil, determines when a mutation
@@ -72,7 +76,7 @@ type prunerMatcher struct {
 	// If nil, no automatic rebuild is ever triggered.
 	rebuildTrigger rebuildTrigger
 
-	// lock protects the pointer the underlying Matcher as well as stats.
+	// lock protects the pointer the underlying Matcher as well as purgeable and stats.
 	//
 	// The Matcher pointer is updated after a successful rebuild.
 	// Stats are updated by Add, Delete, and rebuild.
@@ -173,6 +177,7 @@ func newPrunerMatcher(s LivePatternsState) *prunerMatcher {
 	return &prunerMatcher{
 		Matcher:        newCoreMatcher(),
 		live:           s,
+		purgeable:      make(map[X]bool),
 		rebuildTrigger: &trigger,
 	}
 }
@@ -201,6 +206,13 @@ func (m *prunerMatcher) addPattern(x X, pat string, buildMode MatcherBuildMode)
 	m.lock.Lock()
 	defer m.lock.Unlock()
 
+	// the deleted patterns of x would come back to life if x did
+	if m.purgeable[x] {
+		if err := m.rebuildWhileLocked(false); err != nil {
+			return err
+		}
+	}
+
 	err := m.Matcher.addPattern(x, pat, buildMode)
 	if err == nil {
 		m.stats.Added++
@@ -272,14 +284,16 @@ func (m *prunerMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X,
 // DeletePattern removes the pattern from the index and maybe rebuilds
 // the index.
 func (m *prunerMatcher) deletePatterns(x X) error {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	n, err := m.live.Delete(x)
 	if err == nil {
 		if 0 < n {
-			m.lock.Lock()
+			m.purgeable[x] = true
 			m.stats.Deleted += n
 			m.stats.Live -= n
 			_ = m.maybeRebuild(false)
-			m.lock.Unlock()
 		}
 	}
 
@@ -326,6 +340,7 @@ func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 
 	if err == nil {
 		m.Matcher = m1
+		clear(m.purgeable)
 		m.stats.RebuildPurged = m.stats.Deleted
 		m.stats.Live = count
 		m.stats.Added = 0
-- 
2.43.0


From 7dbc8503b38402d4c8c72a18608fd51e7e364dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 25/36] fix: copy the build mode too

---
 quamina.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quamina.go b/quamina.go
index 74a8a0e..26462cb 100644
--- a/quamina.go
+++ b/quamina.go
@@ -116,7 +116,7 @@ func New(opts ...Option) (*Quamina, error) {
 // goroutines.  Copy'ed instances share the same underlying data structures, so a pattern added to any instance
 // with AddPattern will be visible in all of them.
 func (q *Quamina) Copy() *Quamina {
-	return &Quamina{matcher: q.matcher, flattener: q.flattener.Copy(), bufs: newNfaBuffers()}
+	return &Quamina{matcher: q.matcher, flattener: q.flattener.Copy(), bufs: newNfaBuffers(), buildMode: q.buildMode}
 }
 
 // X is used in the AddPattern and MatchesForEvent APIs to identify the patterns that are added to
-- 
2.43.0


From f1651c7b53cf445f1014dfab147620b948bab715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 26/36] fix: treat -0 and 0 as the same number

---
 numbits.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numbits.go b/numbits.go
index e69a364..ce34edd 100644
--- a/numbits.go
+++ b/numbits.go
@@ -20,6 +20,9 @@ type numbits uint64
 
 // numbitsFromFloat64 converts a float64 value to its numbits representation.
 func numbitsFromFloat64(f float64) numbits {
+	if f == 0 {
+		f = 0 // negative zero is the same number
+	}
 	u := math.Float64bits(f)
 	//nolint:gosec // disable G115
 	// transform without branching:
-- 
2.43.0


From 8f483733065d1c74b662f4b32997ad13f99257a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 27/36] fix: count what follows exists and single-value matches
 in the matcher stats

---
 memory_cost.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/memory_cost.go b/memory_cost.go
index 566a795..0b755d6 100644
--- a/memory_cost.go
+++ b/memory_cost.go
@@ -17,11 +17,18 @@ func (m *coreMatcher) getStats() *matcherStats {
 }
 
 func cmFieldMatcherStats(fm *fieldMatcher, stats *matcherStats, pp printer) {
-	fmTrans := fm.fields().transitions
-	for _, vm := range fmTrans {
+	fields := fm.fields()
+	for _, next := range fields.existsTrue {
+		cmFieldMatcherStats(next, stats, pp)
+	}
+	for _, next := range fields.existsFalse {
+		cmFieldMatcherStats(next, stats, pp)
+	}
+	for _, vm := range fields.transitions {
 		singleton := vm.fields().singletonMatch
 		if singleton != nil {
 			stats.bytes += int64(cap(singleton))
+			cmFieldMatcherStats(vm.fields().singletonTransition, stats, pp)
 		}
 		start := vm.fields().start
 		if start == nil {
-- 
2.43.0


From 81b03f9d1a718d226f1fd377e1ab2578048d0299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 28/36] fix: keep states that have field transitions in epsilon
 closures and splices

---
 epsi_closure.go | 4 ++--
 nfa.go          | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/epsi_closure.go b/epsi_closure.go
index 0b7f184..f798f43 100644
--- a/epsi_closure.go
+++ b/epsi_closure.go
@@ -208,7 +208,7 @@ func closureForState(state *faState, bufs *closureBuffers) {
 	// below. Only non-epsilon-only states are collected, so when self is
 	// epsilon-only a closureList of length 1 holds some *other* state, not self
 	// — the self-only checks must not fire on it.
-	selfWasCollected := !state.table.isEpsilonOnly()
+	selfWasCollected := !state.isEpsilonOnly()
 
 	// Generation-based visited tracking: bufs.states records which gen last
 	// visited each state, so we never clear the map between traversals.
@@ -284,7 +284,7 @@ func traverseEpsilons(start *faState, epsilons []*faState, bufs *closureBuffers)
 			continue
 		}
 		bufs.states[eps] = bufs.closureSetGen
-		if !eps.table.isEpsilonOnly() {
+		if !eps.isEpsilonOnly() {
 			bufs.closureList = append(bufs.closureList, eps)
 		}
 		traverseEpsilons(start, eps.table.epsilons, bufs)
diff --git a/nfa.go b/nfa.go
index 4954f75..fc9b61c 100644
--- a/nfa.go
+++ b/nfa.go
@@ -24,6 +24,12 @@ type faState struct {
 	isSpinner      bool
 }
 
+// isEpsilonOnly reports whether all there is to the state is its epsilons. A state which has field transitions
+// matters for itself even if its table has no steps.
+func (s *faState) isEpsilonOnly() bool {
+	return s.table.isEpsilonOnly() && len(s.fieldTransitions) == 0
+}
+
 /*
 Here's the problem. When you have the shellstyle *, which really means ".*", there are options on how
 to implement, and they have effect on what you can do while merging, with the results highlighted by
@@ -386,7 +392,7 @@ func simplifyCollect(s *faState, visited map[*faState]bool, targets []*faState)
 	}
 	visited[s] = true
 
-	if s.table.isEpsilonOnly() {
+	if s.isEpsilonOnly() {
 		for _, eps := range s.table.epsilons {
 			targets = simplifyCollect(eps, visited, targets)
 		}
-- 
2.43.0


From c4973d836d94790f67403bcae1b1cf0cfc798ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 29/36] fix: keep all transitions when states are merged with a
 spinner

---
 nfa.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nfa.go b/nfa.go
index fc9b61c..1f5baa8 100644
--- a/nfa.go
+++ b/nfa.go
@@ -538,8 +538,8 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 
 		switch {
 		case spinnerNext == nil:
-			// illegal UTF-8
-			mergedState = nil
+			// illegal UTF-8, or the value terminator
+			mergedState = nonSpinnernext
 
 		case nonSpinnernext == nil:
 			mergedState = spinnerNext
@@ -605,8 +605,10 @@ func symmetricSpinnerMerge(state1, state2 *faState, keyMemo map[faStepKey]*faSta
 
 		switch {
 		case next1 == nil:
-			// illegal UTF-8
-			mergedState = nil
+			// illegal UTF-8, or the value terminator
+			mergedState = next2
+		case next2 == nil:
+			mergedState = next1
 		case next1 == state1 && next2 == state2:
 			// both otherwise empty spin steps
 			mergedState = combined
@@ -616,7 +618,7 @@ func symmetricSpinnerMerge(state1, state2 *faState, keyMemo map[faStepKey]*faSta
 			table := smallTable{
 				ceilings: next2.table.ceilings,
 				steps:    next2.table.steps,
-				epsilons: slices.Concat(state2.table.epsilons, []*faState{combined}),
+				epsilons: slices.Concat(next2.table.epsilons, []*faState{combined}),
 			}
 			mergedState = &faState{
 				table:            table,
@@ -627,7 +629,7 @@ func symmetricSpinnerMerge(state1, state2 *faState, keyMemo map[faStepKey]*faSta
 			table := smallTable{
 				ceilings: next1.table.ceilings,
 				steps:    next1.table.steps,
-				epsilons: slices.Concat(state1.table.epsilons, []*faState{combined}),
+				epsilons: slices.Concat(next1.table.epsilons, []*faState{combined}),
 			}
 			mergedState = &faState{
 				table:            table,
-- 
2.43.0


From f6f2e4fef1d78a7efeda63e01d6918ccb93591bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:31 +0000
Subject: [PATCH 30/36] fix: the last two code points belong to the Unicode
 categories C and Cn

---
 character_properties.go          | 8 ++++----
 code_gen/build_unicode_tables.go | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/character_properties.go b/character_properties.go
index ffd22be..31ec13d 100644
--- a/character_properties.go
+++ b/character_properties.go
@@ -258,7 +258,7 @@ var characterProperties = map[string]RuneRange{
 		{0x2fa1e, 0x2ffff}, {0x3134b, 0x3134f}, {0x3347a, 0xe0000},
 		{0xe0001, 0xe0001}, {0xe0002, 0xe001f}, {0xe0020, 0xe007f},
 		{0xe0080, 0xe00ff}, {0xe01f0, 0xeffff}, {0xf0000, 0xffffd},
-		{0xffffe, 0xfffff}, {0x100000, 0x10fffd},
+		{0xffffe, 0xfffff}, {0x100000, 0x10fffd}, {0x10fffe, 0x10ffff},
 	},
 	"Cc": {
 		{0x0000, 0x001f}, {0x007f, 0x009f},
@@ -517,7 +517,7 @@ var characterProperties = map[string]RuneRange{
 		{0x2b81e, 0x2b81f}, {0x2ceae, 0x2ceaf}, {0x2ebe1, 0x2ebef},
 		{0x2ee5e, 0x2f7ff}, {0x2fa1e, 0x2ffff}, {0x3134b, 0x3134f},
 		{0x3347a, 0xe0000}, {0xe0002, 0xe001f}, {0xe0080, 0xe00ff},
-		{0xe01f0, 0xeffff}, {0xffffe, 0xfffff},
+		{0xe01f0, 0xeffff}, {0xffffe, 0xfffff}, {0x10fffe, 0x10ffff},
 	},
 	"Co": {
 		{0xe000, 0xf8ff}, {0xf0000, 0xffffd}, {0x100000, 0x10fffd},
@@ -3105,7 +3105,7 @@ var negatedProperties = map[string]RuneRange{
 		{0x1fb00, 0x1fb92}, {0x1fb94, 0x1fbfa}, {0x20000, 0x2a6df},
 		{0x2a700, 0x2b81d}, {0x2b820, 0x2cead}, {0x2ceb0, 0x2ebe0},
 		{0x2ebf0, 0x2ee5d}, {0x2f800, 0x2fa1d}, {0x30000, 0x3134a},
-		{0x31350, 0x33479}, {0xe0100, 0xe01ef}, {0x10fffe, 0x10ffff},
+		{0x31350, 0x33479}, {0xe0100, 0xe01ef},
 	},
 	"Cc": {
 		{0x0020, 0x007e}, {0x00a0, 0x10ffff},
@@ -3365,7 +3365,7 @@ var negatedProperties = map[string]RuneRange{
 		{0x2a700, 0x2b81d}, {0x2b820, 0x2cead}, {0x2ceb0, 0x2ebe0},
 		{0x2ebf0, 0x2ee5d}, {0x2f800, 0x2fa1d}, {0x30000, 0x3134a},
 		{0x31350, 0x33479}, {0xe0001, 0xe0001}, {0xe0020, 0xe007f},
-		{0xe0100, 0xe01ef}, {0xf0000, 0xffffd}, {0x100000, 0x10ffff},
+		{0xe0100, 0xe01ef}, {0xf0000, 0xffffd}, {0x100000, 0x10fffd},
 	},
 	"Co": {
 		{0x0000, 0xdfff}, {0xf900, 0xeffff}, {0xffffe, 0xfffff},
diff --git a/code_gen/build_unicode_tables.go b/code_gen/build_unicode_tables.go
index 215ff19..282f057 100644
--- a/code_gen/build_unicode_tables.go
+++ b/code_gen/build_unicode_tables.go
@@ -87,7 +87,7 @@ func buildCharPropsTable() {
 	}
 
 	// let's waste some memory by just making an array for every codepoint
-	var props [runeMax]string
+	var props [runeMax + 1]string
 
 	// Cn means unassigned, which we assume everything is until it isn't
 	for i := range props {
@@ -146,6 +146,7 @@ func buildCharPropsTable() {
 			currentProp = props[i]
 		}
 	}
+	recordPair(currentStartsAt, runeMax, currentProp, doubles)
 
 	// now record the single-letter properties
 	singles := make(map[string]quamina.RuneRange)
-- 
2.43.0


From 1a122ef292cee2ef6bce82cddf7a86a46e60e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:41 +0000
Subject: [PATCH 31/36] fix: equals-ignore-case matches every character with
 the same case folding, not just one

---
 case_folding.go                  | 98 ++++++++++++++++----------------
 code_gen/build_unicode_tables.go | 19 +++++--
 monocase.go                      | 39 ++++++-------
 3 files changed, 78 insertions(+), 78 deletions(-)

diff --git a/case_folding.go b/case_folding.go
index fd6c351..c9304c5 100644
--- a/case_folding.go
+++ b/case_folding.go
@@ -3,7 +3,7 @@ package quamina
 // Code generated by code_gen/build_unicode_tables - DO NOT EDIT.
 // built from the "C" records in CaseFolding.txt in the Unicode character database
 var caseFoldingPairs = map[rune]rune{
-	0x03AB: 0x03CB, 0x0441: 0x0421, 0x054E: 0x057E, 0x1F23: 0x1F2B, 0x2C98: 0x2C99, 0xA726: 0xA727,
+	0x03AB: 0x03CB, 0x0441: 0x1C83, 0x054E: 0x057E, 0x1F23: 0x1F2B, 0x2C98: 0x2C99, 0xA726: 0xA727,
 	0x10CE5: 0x10CA5, 0x038A: 0x03AF, 0x044E: 0x042E, 0x04BB: 0x04BA, 0x1E05: 0x1E04, 0xA728: 0xA729,
 	0x10CD0: 0x10C90, 0x04E4: 0x04E5, 0x1EBB: 0x1EBA, 0x1F19: 0x1F11, 0x1F61: 0x1F69, 0x1040D: 0x10435,
 	0x10CAF: 0x10CEF, 0x118B3: 0x118D3, 0x1EE9: 0x1EE8, 0x1F0D: 0x1F05, 0xAB84: 0x13B4, 0xFF59: 0xFF39,
@@ -21,7 +21,7 @@ var caseFoldingPairs = map[rune]rune{
 	0x13D5: 0xABA5, 0x1E900: 0x1E922, 0x0118: 0x0119, 0x039C: 0x03BC, 0x1E44: 0x1E45, 0x10C9F: 0x10CDF,
 	0x16E51: 0x16E71, 0x1F5F: 0x1F57, 0x2C6F: 0x0250, 0xA735: 0xA734, 0xA74A: 0xA74B, 0x03EA: 0x03EB,
 	0x04B6: 0x04B7, 0x2C32: 0x2C02, 0xA65A: 0xA65B, 0xA690: 0xA691, 0x10427: 0x1044F, 0x10CA0: 0x10CE0,
-	0x118D6: 0x118B6, 0x0194: 0x0263, 0x03F0: 0x03BA, 0x048E: 0x048F, 0x04C3: 0x04C4, 0x10AF: 0x2D0F,
+	0x118D6: 0x118B6, 0x0194: 0x0263, 0x03F0: 0x039A, 0x048E: 0x048F, 0x04C3: 0x04C4, 0x10AF: 0x2D0F,
 	0x1EDE: 0x1EDF, 0x1F64: 0x1F6C, 0x24C7: 0x24E1, 0x0474: 0x0475, 0x10B8: 0x2D18, 0x24C2: 0x24DC,
 	0xA7BB: 0xA7BA, 0x13B4: 0xAB84, 0xFF4B: 0xFF2B, 0x0195: 0x01F6, 0x0520: 0x0521, 0x1E66: 0x1E67,
 	0x1F45: 0x1F4D, 0x24DC: 0x24C2, 0x2CB3: 0x2CB2, 0x10C9C: 0x10CDC, 0xA656: 0xA657, 0xA737: 0xA736,
@@ -29,12 +29,12 @@ var caseFoldingPairs = map[rune]rune{
 	0x10CD9: 0x10C99, 0x10CDF: 0x10C9F, 0x1E93E: 0x1E91C, 0x013D: 0x013E, 0x0246: 0x0247, 0x039F: 0x03BF,
 	0x2D14: 0x10B4, 0x026A: 0xA7AE, 0x105A4: 0x1057D, 0x16EC3: 0x16EA8, 0x10EA: 0x1CAA, 0x2C3A: 0x2C0A,
 	0xA692: 0xA693, 0xAB74: 0x13A4, 0x0116: 0x0117, 0x014A: 0x014B, 0x01B9: 0x01B8, 0x01D2: 0x01D1,
-	0x01F6: 0x0195, 0x047B: 0x047A, 0x0575: 0x0545, 0x1C88: 0xA64B, 0x04ED: 0x04EC, 0x1F5B: 0x1F53,
+	0x01F6: 0x0195, 0x047B: 0x047A, 0x0575: 0x0545, 0x1C88: 0xA64A, 0x04ED: 0x04EC, 0x1F5B: 0x1F53,
 	0x2C4E: 0x2C1E, 0x16EC5: 0x16EAA, 0x00E7: 0x00C7, 0x2CA6: 0x2CA7, 0x00F4: 0x00D4, 0x01D7: 0x01D8,
-	0x01DA: 0x01D9, 0x0289: 0x0244, 0x042B: 0x044B, 0x1C84: 0x0442, 0x2CA2: 0x2CA3, 0xA69A: 0xA69B,
+	0x01DA: 0x01D9, 0x0289: 0x0244, 0x042B: 0x044B, 0x1C84: 0x1C85, 0x2CA2: 0x2CA3, 0xA69A: 0xA69B,
 	0x0128: 0x0129, 0x04C4: 0x04C3, 0x1F33: 0x1F3B, 0xABAB: 0x13DB, 0x16EA8: 0x16EC3, 0x1E4B: 0x1E4A,
 	0x1EDA: 0x1EDB, 0x1EE7: 0x1EE6, 0x1F4A: 0x1F42, 0x216A: 0x217A, 0xA781: 0xA780, 0x0197: 0x0268,
-	0x0574: 0x0544, 0x1F1B: 0x1F13, 0x1F2F: 0x1F27, 0x212A: 0x006B, 0xA74B: 0xA74A, 0xA760: 0xA761,
+	0x0574: 0x0544, 0x1F1B: 0x1F13, 0x1F2F: 0x1F27, 0x212A: 0x004B, 0xA74B: 0xA74A, 0xA760: 0xA761,
 	0x13C9: 0xAB99, 0x011E: 0x011F, 0x03F9: 0x03F2, 0x1EA9: 0x1EA8, 0x2C05: 0x2C35, 0x0287: 0xA7B1,
 	0x10C87: 0x10CC7, 0x16E71: 0x16E51, 0x1E91B: 0x1E93D, 0x01A2: 0x01A3, 0x045C: 0x040C, 0x0419: 0x0439,
 	0x050E: 0x050F, 0x0529: 0x0528, 0x1CA9: 0x10E9, 0x1E19: 0x1E18, 0x1EBD: 0x1EBC, 0x1EE6: 0x1EE7,
@@ -47,10 +47,10 @@ var caseFoldingPairs = map[rune]rune{
 	0x046B: 0x046A, 0x0507: 0x0506, 0x1E3B: 0x1E3A, 0x16EA6: 0x16EC1, 0x2C10: 0x2C40, 0x16EC1: 0x16EA6,
 	0x0227: 0x0226, 0x046F: 0x046E, 0x1C9E: 0x10DE, 0x216F: 0x217F, 0x2CC5: 0x2CC4, 0x0266: 0xA7AA,
 	0x16E42: 0x16E62, 0x0224: 0x0225, 0x1F04: 0x1F0C, 0xFF2A: 0xFF4A, 0x10D5A: 0x10D7A, 0x118DC: 0x118BC,
-	0x0457: 0x0407, 0x0442: 0x0422, 0x10FF: 0x1CBF, 0x2CD5: 0x2CD4, 0x1041D: 0x10445, 0x01FF: 0x01FE,
+	0x0457: 0x0407, 0x0442: 0x1C84, 0x10FF: 0x1CBF, 0x2CD5: 0x2CD4, 0x1041D: 0x10445, 0x01FF: 0x01FE,
 	0x1E34: 0x1E35, 0xA644: 0xA645, 0xAB8D: 0x13BD, 0xFF42: 0xFF22, 0xFF50: 0xFF30, 0x16E65: 0x16E45,
 	0x0140: 0x013F, 0x051F: 0x051E, 0x10EB: 0x1CAB, 0x0261: 0xA7AC, 0x0063: 0x0043, 0x01FA: 0x01FB,
-	0x043E: 0x041E, 0x0585: 0x0555, 0x10E3: 0x1CA3, 0x1CB2: 0x10F2, 0x2CB9: 0x2CB8, 0xFF58: 0xFF38,
+	0x043E: 0x1C82, 0x0585: 0x0555, 0x10E3: 0x1CA3, 0x1CB2: 0x10F2, 0x2CB9: 0x2CB8, 0xFF58: 0xFF38,
 	0x0456: 0x0406, 0x0503: 0x0502, 0x1F27: 0x1F2F, 0x2C1D: 0x2C4D, 0x2CC6: 0x2CC7, 0x10CF2: 0x10CB2,
 	0x16E78: 0x16E58, 0x0204: 0x0205, 0x0228: 0x0229, 0x03ED: 0x03EC, 0x047A: 0x047B, 0x052A: 0x052B,
 	0xAB81: 0x13B1, 0x105A5: 0x1057E, 0x24E6: 0x24CC, 0xA66D: 0xA66C, 0xA7B3: 0xAB53, 0xAB9D: 0x13CD,
@@ -64,9 +64,9 @@ var caseFoldingPairs = map[rune]rune{
 	0x104F6: 0x104CE, 0x045F: 0x040F, 0x04B4: 0x04B5, 0x052D: 0x052C, 0x0543: 0x0573, 0x1F20: 0x1F28,
 	0x16E57: 0x16E77, 0x0454: 0x0404, 0x0514: 0x0515, 0x1E83: 0x1E82, 0xA7C9: 0xA7CA, 0x13B2: 0xAB82,
 	0x10420: 0x10448, 0x104E1: 0x104B9, 0x1E17: 0x1E16, 0x2CBF: 0x2CBE, 0x10431: 0x10409, 0x00DA: 0x00FA,
-	0x01B4: 0x01B3, 0x10E9: 0x1CA9, 0x1F7B: 0x1FEB, 0xAB7D: 0x13AD, 0x03F8: 0x03F7, 0x0463: 0x0462,
+	0x01B4: 0x01B3, 0x10E9: 0x1CA9, 0x1F7B: 0x1FEB, 0xAB7D: 0x13AD, 0x03F8: 0x03F7, 0x0463: 0x1C87,
 	0x04D7: 0x04D6, 0x1C97: 0x10D7, 0x104C0: 0x104E8, 0x020A: 0x020B, 0x0479: 0x0478, 0x1E01: 0x1E00,
-	0x01B0: 0x01AF, 0x01C4: 0x01C6, 0x04D0: 0x04D1, 0x2C17: 0x2C47, 0x1059D: 0x10576, 0x16E58: 0x16E78,
+	0x01B0: 0x01AF, 0x01C4: 0x01C5, 0x04D0: 0x04D1, 0x2C17: 0x2C47, 0x1059D: 0x10576, 0x16E58: 0x16E78,
 	0x0074: 0x0054, 0x03C8: 0x03A8, 0x04B7: 0x04B6, 0x1F55: 0x1F5D, 0x2CB4: 0x2CB5, 0xA697: 0xA696,
 	0x104CA: 0x104F2, 0x10C8D: 0x10CCD, 0x0064: 0x0044, 0x1F0F: 0x1F07, 0x1E24: 0x1E25, 0x1F4B: 0x1F43,
 	0x104BC: 0x104E4, 0x10CEE: 0x10CAE, 0x0213: 0x0212, 0x04AB: 0x04AA, 0x24D9: 0x24BF, 0x10CD4: 0x10C94,
@@ -74,7 +74,7 @@ var caseFoldingPairs = map[rune]rune{
 	0x017C: 0x017B, 0x0515: 0x0514, 0x24CE: 0x24E8, 0xA72E: 0xA72F, 0xFF31: 0xFF51, 0x0207: 0x0206,
 	0x0210: 0x0211, 0x1C93: 0x10D3, 0x13A6: 0xAB76, 0x0403: 0x0453, 0x0465: 0x0464, 0xA733: 0xA732,
 	0xA752: 0xA753, 0xAB7B: 0x13AB, 0x03AA: 0x03CA, 0x042A: 0x044A, 0x1E38: 0x1E39, 0x10C97: 0x10CD7,
-	0x118A4: 0x118C4, 0x01C7: 0x01C9, 0x2173: 0x2163, 0xA7D8: 0xA7D9, 0x16EBB: 0x16EA0, 0x0053: 0x0073,
+	0x118A4: 0x118C4, 0x01C7: 0x01C8, 0x2173: 0x2163, 0xA7D8: 0xA7D9, 0x16EBB: 0x16EA0, 0x0053: 0x0073,
 	0x0506: 0x0507, 0x2161: 0x2171, 0x2C64: 0x027D, 0xA683: 0xA682, 0xA72A: 0xA72B, 0x10448: 0x10420,
 	0x0405: 0x0455, 0x2D21: 0x10C1, 0x2C86: 0x2C87, 0x2C87: 0x2C86, 0xFF33: 0xFF53, 0x10D83: 0x10D63,
 	0x0165: 0x0164, 0x0185: 0x0184, 0x04B2: 0x04B3, 0x1E0E: 0x1E0F, 0x1E0F: 0x1E0E, 0x1F21: 0x1F29,
@@ -99,7 +99,7 @@ var caseFoldingPairs = map[rune]rune{
 	0xA748: 0xA749, 0x10C8C: 0x10CCC, 0x16E74: 0x16E54, 0x006F: 0x004F, 0x1EFB: 0x1EFA, 0xA684: 0xA685,
 	0x10D73: 0x10D53, 0x022D: 0x022C, 0x0247: 0x0246, 0x0429: 0x0449, 0x1FE0: 0x1FE8, 0x2C5E: 0x2C2E,
 	0x2CC7: 0x2CC6, 0xA732: 0xA733, 0x10400: 0x10428, 0x047D: 0x047C, 0x1E2A: 0x1E2B, 0x10D7D: 0x10D5D,
-	0x016E: 0x016F, 0x03F4: 0x03B8, 0x13FA: 0x13F2, 0x2C38: 0x2C08, 0x1042A: 0x10402, 0x1042F: 0x10407,
+	0x016E: 0x016F, 0x03F4: 0x0398, 0x13FA: 0x13F2, 0x2C38: 0x2C08, 0x1042A: 0x10402, 0x1042F: 0x10407,
 	0x104D8: 0x104B0, 0x2CC4: 0x2CC5, 0x13BA: 0xAB8A, 0x118AD: 0x118CD, 0x1E4C: 0x1E4D, 0x217A: 0x216A,
 	0xA767: 0xA766, 0x1043B: 0x10413, 0x104ED: 0x104C5, 0x0288: 0x01AE, 0x03C7: 0x03A7, 0x10C1: 0x2D21,
 	0x1E25: 0x1E24, 0x1E40: 0x1E41, 0x1FD1: 0x1FD9, 0xA75F: 0xA75E, 0x10449: 0x10421, 0x10F2: 0x1CB2,
@@ -107,11 +107,11 @@ var caseFoldingPairs = map[rune]rune{
 	0x1E49: 0x1E48, 0x1F18: 0x1F10, 0x1057D: 0x105A4, 0x16ECD: 0x16EB2, 0x10424: 0x1044C, 0x00CC: 0x00EC,
 	0x0184: 0x0185, 0x0416: 0x0436, 0x118BE: 0x118DE, 0x16E79: 0x16E59, 0x0108: 0x0109, 0x04CF: 0x04C0,
 	0x2C7E: 0x023F, 0xA76E: 0xA76F, 0xFF22: 0xFF42, 0x104BA: 0x104E2, 0x016F: 0x016E, 0x024B: 0x024A,
-	0x0476: 0x0477, 0x0561: 0x0531, 0x10404: 0x1042C, 0x118CD: 0x118AD, 0x16EB1: 0x16ECC, 0x03C0: 0x03A0,
+	0x0476: 0x0477, 0x0561: 0x0531, 0x10404: 0x1042C, 0x118CD: 0x118AD, 0x16EB1: 0x16ECC, 0x03C0: 0x03D6,
 	0x04DA: 0x04DB, 0x10D5: 0x1C95, 0x10FD: 0x1CBD, 0xA65D: 0xA65C, 0xABB2: 0x13E2, 0x10425: 0x1044D,
 	0x10CDD: 0x10C9D, 0x00EE: 0x00CE, 0x041E: 0x043E, 0x2C28: 0x2C58, 0x2C5C: 0x2C2C, 0x118A9: 0x118C9,
 	0x16E59: 0x16E79, 0x16ED3: 0x16EB8, 0x04BA: 0x04BB, 0x2C57: 0x2C27, 0xABAC: 0x13DC, 0x0043: 0x0063,
-	0xA7F5: 0xA7F6, 0x0103: 0x0102, 0x0107: 0x0106, 0x03C3: 0x03A3, 0x0434: 0x0414, 0x0449: 0x0429,
+	0xA7F5: 0xA7F6, 0x0103: 0x0102, 0x0107: 0x0106, 0x03C3: 0x03A3, 0x0434: 0x1C81, 0x0449: 0x0429,
 	0x0508: 0x0509, 0x2CCF: 0x2CCE, 0xA698: 0xA699, 0x0391: 0x03B1, 0x03A9: 0x03C9, 0x0504: 0x0505,
 	0xA76B: 0xA76A, 0x105AD: 0x10586, 0x1E905: 0x1E927, 0x1E92B: 0x1E909, 0x0049: 0x0069, 0x0177: 0x0176,
 	0x01CE: 0x01CD, 0x03BD: 0x039D, 0xA74E: 0xA74F, 0x10CDA: 0x10C9A, 0x10D64: 0x10D84, 0x043B: 0x041B,
@@ -146,10 +146,10 @@ var caseFoldingPairs = map[rune]rune{
 	0x0113: 0x0112, 0x0198: 0x0199, 0x01D3: 0x01D4, 0x0535: 0x0565, 0x1C8A: 0x1C89, 0x1F29: 0x1F21,
 	0x2168: 0x2178, 0x2C88: 0x2C89, 0x1EFC: 0x1EFD, 0x2CD7: 0x2CD6, 0xA759: 0xA758, 0xA7A1: 0xA7A0,
 	0xFF48: 0xFF28, 0x104CE: 0x104F6, 0x1058E: 0x105B5, 0x1E917: 0x1E939, 0x03C2: 0x03C3, 0x1E82: 0x1E83,
-	0xAB94: 0x13C4, 0x104F4: 0x104CC, 0x10CE6: 0x10CA6, 0x118C1: 0x118A1, 0x004A: 0x006A, 0x03D6: 0x03C0,
+	0xAB94: 0x13C4, 0x104F4: 0x104CC, 0x10CE6: 0x10CA6, 0x118C1: 0x118A1, 0x004A: 0x006A, 0x03D6: 0x03A0,
 	0x104B3: 0x104DB, 0x104C2: 0x104EA, 0x0242: 0x0241, 0xA724: 0xA725, 0x0373: 0x0372, 0x0400: 0x0450,
-	0x2CE3: 0x2CE2, 0xA65E: 0xA65F, 0xAB75: 0x13A5, 0xABB4: 0x13E4, 0x03D1: 0x03B8, 0x10A7: 0x2D07,
-	0x10AB: 0x2D0B, 0x023F: 0x2C7E, 0x10C85: 0x10CC5, 0x1C87: 0x0463, 0x24D0: 0x24B6, 0x2C3D: 0x2C0D,
+	0x2CE3: 0x2CE2, 0xA65E: 0xA65F, 0xAB75: 0x13A5, 0xABB4: 0x13E4, 0x03D1: 0x03F4, 0x10A7: 0x2D07,
+	0x10AB: 0x2D0B, 0x023F: 0x2C7E, 0x10C85: 0x10CC5, 0x1C87: 0x0462, 0x24D0: 0x24B6, 0x2C3D: 0x2C0D,
 	0x13BC: 0xAB8C, 0x13E5: 0xABB5, 0x10C88: 0x10CC8, 0x16EA5: 0x16EC0, 0x16EC8: 0x16EAD, 0x010F: 0x010E,
 	0x0199: 0x0198, 0x04B3: 0x04B2, 0x1E80: 0x1E81, 0x24E1: 0x24C7, 0x2C2B: 0x2C5B, 0xA647: 0xA646,
 	0xA7BD: 0xA7BC, 0x00F9: 0x00D9, 0x056C: 0x053C, 0x10DD: 0x1C9D, 0x2C94: 0x2C95, 0x10D81: 0x10D61,
@@ -161,7 +161,7 @@ var caseFoldingPairs = map[rune]rune{
 	0x1044F: 0x10427, 0x1058F: 0x105B6, 0x10D63: 0x10D83, 0x1E91F: 0x1E941, 0x00D6: 0x00F6, 0x0151: 0x0150,
 	0x03E6: 0x03E7, 0x0478: 0x0479, 0x1C90: 0x10D0, 0x1EE3: 0x1EE2, 0x2CDA: 0x2CDB, 0x00D5: 0x00F5,
 	0x0164: 0x0165, 0x1E87: 0x1E86, 0x2C55: 0x2C25, 0xA73B: 0xA73A, 0x051D: 0x051C, 0x2D07: 0x10A7,
-	0x2CD3: 0x2CD2, 0x2CED: 0x2CEE, 0xFF54: 0xFF34, 0x105A6: 0x1057F, 0x03B8: 0x0398, 0x039D: 0x03BD,
+	0x2CD3: 0x2CD2, 0x2CED: 0x2CEE, 0xFF54: 0xFF34, 0x105A6: 0x1057F, 0x03B8: 0x03D1, 0x039D: 0x03BD,
 	0x0447: 0x0427, 0x2C68: 0x2C67, 0xA669: 0xA668, 0xA790: 0xA791, 0x1042B: 0x10403, 0x10C91: 0x10CD1,
 	0x024A: 0x024B, 0x03C5: 0x03A5, 0x1044A: 0x10422, 0x104B4: 0x104DC, 0x00D4: 0x00F4, 0x03A0: 0x03C0,
 	0x0451: 0x0401, 0x10B6: 0x2D16, 0x1CAB: 0x10EB, 0xA7C6: 0x1D8E, 0x13EA: 0xABBA, 0x10597: 0x10570,
@@ -182,8 +182,8 @@ var caseFoldingPairs = map[rune]rune{
 	0x214E: 0x2132, 0xA77D: 0x1D79, 0x10445: 0x1041D, 0x10CC0: 0x10C80, 0x10CDC: 0x10C9C, 0x01D1: 0x01D2,
 	0x04C5: 0x04C6, 0x24E8: 0x24CE, 0x0450: 0x0400, 0x0458: 0x0408, 0x0468: 0x0469, 0x1EAD: 0x1EAC,
 	0x2C93: 0x2C92, 0x16E4C: 0x16E6C, 0x16E50: 0x16E70, 0x046D: 0x046C, 0x1E7E: 0x1E7F, 0xAB7C: 0x13AC,
-	0x104E6: 0x104BE, 0x00E9: 0x00C9, 0x03F1: 0x03C1, 0x04B8: 0x04B9, 0x1E53: 0x1E52, 0x13E2: 0xABB2,
-	0xA68E: 0xA68F, 0x105AC: 0x10585, 0x10CCD: 0x10C8D, 0x10C90: 0x10CD0, 0x00E5: 0x00C5, 0x04D9: 0x04D8,
+	0x104E6: 0x104BE, 0x00E9: 0x00C9, 0x03F1: 0x03A1, 0x04B8: 0x04B9, 0x1E53: 0x1E52, 0x13E2: 0xABB2,
+	0xA68E: 0xA68F, 0x105AC: 0x10585, 0x10CCD: 0x10C8D, 0x10C90: 0x10CD0, 0x00E5: 0x212B, 0x04D9: 0x04D8,
 	0x1E23: 0x1E22, 0x2CA5: 0x2CA4, 0x13AC: 0xAB7C, 0x10432: 0x1040A, 0x105A9: 0x10582, 0x1E912: 0x1E934,
 	0x03DE: 0x03DF, 0x040D: 0x045D, 0x1FEC: 0x1FE5, 0x2CBC: 0x2CBD, 0xA7A8: 0xA7A9, 0x13B7: 0xAB87,
 	0x1044E: 0x10426, 0x104C4: 0x104EC, 0x0431: 0x0411, 0x04C6: 0x04C5, 0x2C5B: 0x2C2B, 0x2C60: 0x2C61,
@@ -200,20 +200,20 @@ var caseFoldingPairs = map[rune]rune{
 	0x019E: 0x0220, 0x10AD: 0x2D0D, 0x24D4: 0x24BA, 0xA75A: 0xA75B, 0xA762: 0xA763, 0xAB78: 0x13A8,
 	0x10407: 0x1042F, 0x042C: 0x044C, 0x04F9: 0x04F8, 0x24D8: 0x24BE, 0x2C1B: 0x2C4B, 0x2CC2: 0x2CC3,
 	0x10C95: 0x10CD5, 0x2C65: 0x023A, 0x2CD2: 0x2CD3, 0x16E52: 0x16E72, 0x0217: 0x0216, 0x0249: 0x0248,
-	0x03B2: 0x0392, 0x0526: 0x0527, 0x1FEB: 0x1F7B, 0x1C99: 0x10D9, 0x1EBC: 0x1EBD, 0x2C9B: 0x2C9A,
+	0x03B2: 0x03D0, 0x0526: 0x0527, 0x1FEB: 0x1F7B, 0x1C99: 0x10D9, 0x1EBC: 0x1EBD, 0x2C9B: 0x2C9A,
 	0x2CA4: 0x2CA5, 0x16E48: 0x16E68, 0x00E6: 0x00C6, 0x0124: 0x0125, 0x012B: 0x012A, 0x2D24: 0x10C4,
 	0xA73D: 0xA73C, 0xA7B6: 0xA7B7, 0x023A: 0x2C65, 0x049C: 0x049D, 0x10B4: 0x2D14, 0x13DF: 0xABAF,
 	0xABB7: 0x13E7, 0x10588: 0x105AF, 0x10CD7: 0x10C97, 0x03E4: 0x03E5, 0x2CAD: 0x2CAC, 0xA73C: 0xA73D,
 	0x104D1: 0x104F9, 0x105BC: 0x10595, 0x2C6B: 0x2C6C, 0x13CB: 0xAB9B, 0x0163: 0x0162, 0x01E4: 0x01E5,
 	0x1F4C: 0x1F44, 0x16E5B: 0x16E7B, 0x0160: 0x0161, 0x01AC: 0x01AD, 0xAB98: 0x13C8, 0x1044C: 0x10424,
-	0x16E4E: 0x16E6E, 0x1E932: 0x1E910, 0x03C6: 0x03A6, 0x0427: 0x0447, 0x0491: 0x0490, 0x2C44: 0x2C14,
+	0x16E4E: 0x16E6E, 0x1E932: 0x1E910, 0x03C6: 0x03D5, 0x0427: 0x0447, 0x0491: 0x0490, 0x2C44: 0x2C14,
 	0x2C8A: 0x2C8B, 0x1F22: 0x1F2A, 0x24CC: 0x24E6, 0x118BB: 0x118DB, 0x16E62: 0x16E42, 0x2D12: 0x10B2,
 	0x1F0A: 0x1F02, 0x2C8B: 0x2C8A, 0xA791: 0xA790, 0xABA0: 0x13D0, 0x10C96: 0x10CD6, 0x16E72: 0x16E52,
 	0x16E5C: 0x16E7C, 0x04B0: 0x04B1, 0x0546: 0x0576, 0x1F66: 0x1F6E, 0xA794: 0xA7C4, 0x0182: 0x0183,
 	0x10BC: 0x2D1C, 0x13F4: 0x13FC, 0xA65C: 0xA65D, 0x039A: 0x03BA, 0x056E: 0x053E, 0x2CA8: 0x2CA9,
 	0x105A1: 0x1057A, 0x03FB: 0x03FA, 0x1F7C: 0x1FFA, 0x16E7C: 0x16E5C, 0x0135: 0x0134, 0x0401: 0x0451,
 	0x044D: 0x042D, 0x2C80: 0x2C81, 0x13CA: 0xAB9A, 0x16EB8: 0x16ED3, 0x1E920: 0x1E942, 0x0134: 0x0135,
-	0x03D5: 0x03C6, 0x0480: 0x0481, 0x057E: 0x054E, 0x24C6: 0x24E0, 0x2CA0: 0x2CA1, 0x10429: 0x10401,
+	0x03D5: 0x03A6, 0x0480: 0x0481, 0x057E: 0x054E, 0x24C6: 0x24E0, 0x2CA0: 0x2CA1, 0x10429: 0x10401,
 	0x0394: 0x03B4, 0x0553: 0x0583, 0x2D19: 0x10B9, 0x24BC: 0x24D6, 0x10D50: 0x10D70, 0x00FF: 0x0178,
 	0x03E7: 0x03E6, 0x0501: 0x0500, 0xABBA: 0x13EA, 0x104EF: 0x104C7, 0x10580: 0x105A7, 0x10D70: 0x10D50,
 	0x00CD: 0x00ED, 0x00FB: 0x00DB, 0x01B8: 0x01B9, 0x10A2: 0x2D02, 0x1E11: 0x1E10, 0x0282: 0xA7C5,
@@ -225,11 +225,11 @@ var caseFoldingPairs = map[rune]rune{
 	0x0109: 0x0108, 0x017D: 0x017E, 0x038E: 0x03CD, 0x04AC: 0x04AD, 0x2CAA: 0x2CAB, 0x1059E: 0x10577,
 	0x118CA: 0x118AA, 0x0581: 0x0551, 0x1E2C: 0x1E2D, 0x1F2D: 0x1F25, 0xA68D: 0xA68C, 0x118CB: 0x118AB,
 	0x16E6E: 0x16E4E, 0x01B1: 0x028A, 0x0576: 0x0546, 0x057A: 0x054A, 0x10BA: 0x2D1A, 0x10F0: 0x1CB0,
-	0x1F1D: 0x1F15, 0x16EB6: 0x16ED1, 0x0078: 0x0058, 0x0280: 0x01A6, 0x1E61: 0x1E60, 0x1F5D: 0x1F55,
+	0x1F1D: 0x1F15, 0x16EB6: 0x16ED1, 0x0078: 0x0058, 0x0280: 0x01A6, 0x1E61: 0x1E9B, 0x1F5D: 0x1F55,
 	0x2C90: 0x2C91, 0x2CA3: 0x2CA2, 0x2CD9: 0x2CD8, 0xA64D: 0xA64C, 0x00DE: 0x00FE, 0x014D: 0x014C,
 	0x020C: 0x020D, 0x04DD: 0x04DC, 0x2D13: 0x10B3, 0x13D3: 0xABA3, 0x13E4: 0xABB4, 0x10C9E: 0x10CDE,
 	0x1CB5: 0x10F5, 0x104CB: 0x104F3, 0x1E913: 0x1E935, 0x011F: 0x011E, 0x0469: 0x0468, 0x0577: 0x0547,
-	0x1C85: 0x0442, 0x1E941: 0x1E91F, 0x04CE: 0x04CD, 0x2C6E: 0x0271, 0xA68C: 0xA68D, 0xABB3: 0x13E3,
+	0x1C85: 0x0422, 0x1E941: 0x1E91F, 0x04CE: 0x04CD, 0x2C6E: 0x0271, 0xA68C: 0xA68D, 0xABB3: 0x13E3,
 	0x104DD: 0x104B5, 0x10D62: 0x10D82, 0x10AC: 0x2D0C, 0x10CD: 0x2D2D, 0x1E37: 0x1E36, 0xA681: 0xA680,
 	0xABA3: 0x13D3, 0x10CA7: 0x10CE7, 0x10D84: 0x10D64, 0x01A5: 0x01A4, 0x048B: 0x048A, 0x1ED7: 0x1ED6,
 	0x2C35: 0x2C05, 0xFF2E: 0xFF4E, 0x10C98: 0x10CD8, 0x10C9D: 0x10CDD, 0x1E922: 0x1E900, 0x0127: 0x0126,
@@ -244,7 +244,7 @@ var caseFoldingPairs = map[rune]rune{
 	0x2171: 0x2161, 0xA64F: 0xA64E, 0x1E6F: 0x1E6E, 0x1E91E: 0x1E940, 0x00CA: 0x00EA, 0x10A1: 0x2D01,
 	0x1CB9: 0x10F9, 0x1E1D: 0x1E1C, 0x1E4E: 0x1E4F, 0x1F69: 0x1F61, 0x1FDB: 0x1F77, 0x2C21: 0x2C51,
 	0x013B: 0x013C, 0x0253: 0x0181, 0x0283: 0x01A9, 0x10FA: 0x1CBA, 0x1EA3: 0x1EA2, 0x1EA4: 0x1EA5,
-	0x1FE1: 0x1FE9, 0xA79E: 0xA79F, 0x00CE: 0x00EE, 0x022A: 0x022B, 0x03D0: 0x03B2, 0x1F77: 0x1FDB,
+	0x1FE1: 0x1FE9, 0xA79E: 0xA79F, 0x00CE: 0x00EE, 0x022A: 0x022B, 0x03D0: 0x0392, 0x1F77: 0x1FDB,
 	0x24CB: 0x24E5, 0xFF2C: 0xFF4C, 0x10CB2: 0x10CF2, 0x118B0: 0x118D0, 0x01AF: 0x01B0, 0x01D9: 0x01DA,
 	0x01FC: 0x01FD, 0x10590: 0x105B7, 0x105B8: 0x10591, 0x1E933: 0x1E911, 0x03AE: 0x0389, 0x04E7: 0x04E6,
 	0x1CAE: 0x10EE, 0x1E7B: 0x1E7A, 0x1F3A: 0x1F32, 0x1FEA: 0x1F7A, 0x118AE: 0x118CE, 0x118D2: 0x118B2,
@@ -258,7 +258,7 @@ var caseFoldingPairs = map[rune]rune{
 	0x10C2: 0x2D22, 0x1E76: 0x1E77, 0x24BF: 0x24D9, 0x2C31: 0x2C01, 0x044C: 0x042C, 0x10A3: 0x2D03,
 	0x1CB1: 0x10F1, 0x0069: 0x0049, 0x00F2: 0x00D2, 0x00FE: 0x00DE, 0x018E: 0x01DD, 0x0424: 0x0444,
 	0x2D1C: 0x10BC, 0x1FD9: 0x1FD1, 0x2C91: 0x2C90, 0x1ED8: 0x1ED9, 0xA665: 0xA664, 0xA756: 0xA757,
-	0x1D8E: 0xA7C6, 0xAB70: 0x13A0, 0x10573: 0x1059A, 0x1E934: 0x1E912, 0x006B: 0x004B, 0x023E: 0x2C66,
+	0x1D8E: 0xA7C6, 0xAB70: 0x13A0, 0x10573: 0x1059A, 0x1E934: 0x1E912, 0x006B: 0x212A, 0x023E: 0x2C66,
 	0x04AA: 0x04AB, 0x0571: 0x0541, 0x1EB7: 0x1EB6, 0x1F06: 0x1F0E, 0x2CEC: 0x2CEB, 0x03D8: 0x03D9,
 	0xA7C8: 0xA7C7, 0x0137: 0x0136, 0x018C: 0x018B, 0xA744: 0xA745, 0x10419: 0x10441, 0x0058: 0x0078,
 	0x1E54: 0x1E55, 0xA79F: 0xA79E, 0xAB95: 0x13C5, 0x10430: 0x10408, 0x1040A: 0x10432, 0x03A6: 0x03C6,
@@ -266,7 +266,7 @@ var caseFoldingPairs = map[rune]rune{
 	0x2C9A: 0x2C9B, 0x022C: 0x022D, 0x04C8: 0x04C7, 0x2D0A: 0x10AA, 0x1F48: 0x1F40, 0x2C20: 0x2C50,
 	0xA650: 0xA651, 0x029D: 0xA7B2, 0x13A7: 0xAB77, 0x0399: 0x03B9, 0xA743: 0xA742, 0x13C4: 0xAB94,
 	0x10443: 0x1041B, 0x0183: 0x0182, 0x0229: 0x0228, 0x0388: 0x03AD, 0xA741: 0xA740, 0xAB91: 0x13C1,
-	0x118D4: 0x118B4, 0x0129: 0x0128, 0x0174: 0x0175, 0x04BE: 0x04BF, 0x00E1: 0x00C1, 0x03C1: 0x03A1,
+	0x118D4: 0x118B4, 0x0129: 0x0128, 0x0174: 0x0175, 0x04BE: 0x04BF, 0x00E1: 0x00C1, 0x03C1: 0x03F1,
 	0x03F7: 0x03F8, 0x057B: 0x054B, 0x13E1: 0xABB1, 0x0222: 0x0223, 0x0517: 0x0516, 0x13F0: 0x13F8,
 	0x10F4: 0x1CB4, 0x1EF1: 0x1EF0, 0x1FC9: 0x1F73, 0x24E5: 0x24CB, 0xA746: 0xA747, 0x0215: 0x0214,
 	0x1EF8: 0x1EF9, 0x10CC2: 0x10C82, 0x10A0: 0x2D00, 0x1CA1: 0x10E1, 0x1FBB: 0x1F71, 0x216C: 0x217C,
@@ -281,11 +281,11 @@ var caseFoldingPairs = map[rune]rune{
 	0x029E: 0xA7B0, 0xA7B5: 0xA7B4, 0x2CBB: 0x2CBA, 0xABA8: 0x13D8, 0x118A1: 0x118C1, 0x118AC: 0x118CC,
 	0x00CF: 0x00EF, 0x013C: 0x013B, 0x03EB: 0x03EA, 0x16EA1: 0x16EBC, 0x04BC: 0x04BD, 0x1E02: 0x1E03,
 	0x1EEC: 0x1EED, 0x105B9: 0x10592, 0x04A0: 0x04A1, 0x1EC9: 0x1EC8, 0x2183: 0x2184, 0xA7D3: 0xA7D2,
-	0x10411: 0x10439, 0x1059B: 0x10574, 0x10C8A: 0x10CCA, 0x01F1: 0x01F3, 0xA7B8: 0xA7B9, 0x13E8: 0xABB8,
+	0x10411: 0x10439, 0x1059B: 0x10574, 0x10C8A: 0x10CCA, 0x01F1: 0x01F2, 0xA7B8: 0xA7B9, 0x13E8: 0xABB8,
 	0x105A3: 0x1057C, 0x105B3: 0x1058C, 0x118D0: 0x118B0, 0x01AE: 0x0288, 0x045E: 0x040E, 0x13F5: 0x13FD,
 	0x2C16: 0x2C46, 0xAB8A: 0x13BA, 0xFF21: 0xFF41, 0x1040B: 0x10433, 0x1043C: 0x10414, 0x1EED: 0x1EEC,
 	0xABAA: 0x13DA, 0x10440: 0x10418, 0x16E55: 0x16E75, 0x0173: 0x0172, 0x040F: 0x045F, 0x0426: 0x0446,
-	0x1C82: 0x043E, 0x1EC1: 0x1EC0, 0x1EF9: 0x1EF8, 0x13BE: 0xAB8E, 0x16EC6: 0x16EAB, 0x03E9: 0x03E8,
+	0x1C82: 0x041E, 0x1EC1: 0x1EC0, 0x1EF9: 0x1EF8, 0x13BE: 0xAB8E, 0x16EC6: 0x16EAB, 0x03E9: 0x03E8,
 	0x040C: 0x045C, 0x04F2: 0x04F3, 0x1C9D: 0x10DD, 0x1EFD: 0x1EFC, 0x2C3F: 0x2C0F, 0xA787: 0xA786,
 	0xA7AB: 0x025C, 0x010A: 0x010B, 0x0115: 0x0114, 0x0566: 0x0536, 0x2C29: 0x2C59, 0x13D4: 0xABA4,
 	0x1041B: 0x10443, 0x104C9: 0x104F1, 0x10C9A: 0x10CDA, 0x0146: 0x0145, 0x0212: 0x0213, 0x1EEF: 0x1EEE,
@@ -296,7 +296,7 @@ var caseFoldingPairs = map[rune]rune{
 	0x0567: 0x0537, 0x2D15: 0x10B5, 0x2CAF: 0x2CAE, 0x118DB: 0x118BB, 0x00FA: 0x00DA, 0x0169: 0x0168,
 	0x0172: 0x0173, 0x01E3: 0x01E2, 0x014E: 0x014F, 0x0578: 0x0548, 0x2D2D: 0x10CD, 0x1E7D: 0x1E7C,
 	0x1ED2: 0x1ED3, 0x1F31: 0x1F39, 0x2C69: 0x2C6A, 0x2CE2: 0x2CE3, 0x00C9: 0x00E9, 0x025B: 0x0190,
-	0x03A3: 0x03C3, 0x13FB: 0x13F3, 0x1E0D: 0x1E0C, 0x2164: 0x2174, 0x2C49: 0x2C19, 0xA797: 0xA796,
+	0x03A3: 0x03C2, 0x13FB: 0x13F3, 0x1E0D: 0x1E0C, 0x2164: 0x2174, 0x2C49: 0x2C19, 0xA797: 0xA796,
 	0x00ED: 0x00CD, 0x0377: 0x0376, 0x03E3: 0x03E2, 0x0471: 0x0470, 0x0563: 0x0533, 0x1E1C: 0x1E1D,
 	0x1ED5: 0x1ED4, 0x2132: 0x214E, 0x1F44: 0x1F4C, 0x2175: 0x2165, 0x24E2: 0x24C8, 0x007A: 0x005A,
 	0x0531: 0x0561, 0x1F6E: 0x1F66, 0xA7C5: 0x0282, 0xABA5: 0x13D5, 0x105AE: 0x10587, 0x10CE8: 0x10CA8,
@@ -312,9 +312,9 @@ var caseFoldingPairs = map[rune]rune{
 	0x10434: 0x1040C, 0x16EB4: 0x16ECF, 0x1EF6: 0x1EF7, 0x1F2E: 0x1F26, 0x0076: 0x0056, 0x021F: 0x021E,
 	0x0505: 0x0504, 0x2CDD: 0x2CDC, 0xA651: 0xA650, 0xA652: 0xA653, 0x021E: 0x021F, 0x04D2: 0x04D3,
 	0x0522: 0x0523, 0x10DC: 0x1C9C, 0x1E5A: 0x1E5B, 0xA738: 0xA739, 0xABB1: 0x13E1, 0x10D78: 0x10D58,
-	0x0243: 0x0180, 0x1F4D: 0x1F45, 0x212B: 0x00E5, 0x1E927: 0x1E905, 0x1FBE: 0x03B9, 0x0537: 0x0567,
+	0x0243: 0x0180, 0x1F4D: 0x1F45, 0x212B: 0x00C5, 0x1E927: 0x1E905, 0x1FBE: 0x0345, 0x0537: 0x0567,
 	0x0101: 0x0100, 0x0440: 0x0420, 0x04F1: 0x04F0, 0x0550: 0x0580, 0x10CD1: 0x10C91, 0x10CB0: 0x10CF0,
-	0x1E70: 0x1E71, 0x2C53: 0x2C23, 0x1057E: 0x105A5, 0x1E929: 0x1E907, 0x1E90C: 0x1E92E, 0x0432: 0x0412,
+	0x1E70: 0x1E71, 0x2C53: 0x2C23, 0x1057E: 0x105A5, 0x1E929: 0x1E907, 0x1E90C: 0x1E92E, 0x0432: 0x1C80,
 	0x1C94: 0x10D4, 0x13A1: 0xAB71, 0x10D5D: 0x10D7D, 0x01B5: 0x01B6, 0x10DB: 0x1C9B, 0x1E50: 0x1E51,
 	0x13B6: 0xAB86, 0x104B0: 0x104D8, 0x104F0: 0x104C8, 0x10599: 0x10572, 0x10C81: 0x10CC1, 0x2D1D: 0x10BD,
 	0x10E0: 0x1CA0, 0x2CD0: 0x2CD1, 0xA72F: 0xA72E, 0x1042D: 0x10405, 0x10CD8: 0x10C98, 0x10D55: 0x10D75,
@@ -330,15 +330,15 @@ var caseFoldingPairs = map[rune]rune{
 	0x16E6C: 0x16E4C, 0x0059: 0x0079, 0x016D: 0x016C, 0x01C6: 0x01C4, 0x03CA: 0x03AA, 0x1F6C: 0x1F64,
 	0x1F67: 0x1F6F, 0x1F70: 0x1FBA, 0xA780: 0xA781, 0x024F: 0x024E, 0x0584: 0x0554, 0x2D0E: 0x10AE,
 	0x2162: 0x2172, 0x2C47: 0x2C17, 0x2CAC: 0x2CAD, 0x10CE4: 0x10CA4, 0x10D57: 0x10D77, 0x04A3: 0x04A2,
-	0x1E06: 0x1E07, 0x118AB: 0x118CB, 0x16E56: 0x16E76, 0x1E935: 0x1E913, 0x0345: 0x03B9, 0x1C9A: 0x10DA,
+	0x1E06: 0x1E07, 0x118AB: 0x118CB, 0x16E56: 0x16E76, 0x1E935: 0x1E913, 0x0345: 0x0399, 0x1C9A: 0x10DA,
 	0x1CA0: 0x10E0, 0x2179: 0x2169, 0x24C3: 0x24DD, 0xA7A5: 0xA7A4, 0x0126: 0x0127, 0x0421: 0x0441,
 	0x0481: 0x0480, 0x1E04: 0x1E05, 0x1ED9: 0x1ED8, 0x1F0C: 0x1F04, 0x1F15: 0x1F1D, 0x2C62: 0x026B,
 	0x0072: 0x0052, 0x01A1: 0x01A0, 0x04E6: 0x04E7, 0x1FE5: 0x1FEC, 0x2160: 0x2170, 0x2C36: 0x2C06,
-	0x2C56: 0x2C26, 0x2C95: 0x2C94, 0x0065: 0x0045, 0x01CC: 0x01CA, 0x1C80: 0x0432, 0x1E79: 0x1E78,
+	0x2C56: 0x2C26, 0x2C95: 0x2C94, 0x0065: 0x0045, 0x01CC: 0x01CA, 0x1C80: 0x0412, 0x1E79: 0x1E78,
 	0x24D7: 0x24BD, 0xA7A9: 0xA7A8, 0xAB99: 0x13C9, 0x16EC2: 0x16EA7, 0x00F3: 0x00D3, 0x2CB0: 0x2CB1,
 	0xA73F: 0xA73E, 0xFF47: 0xFF27, 0x104B6: 0x104DE, 0x104EB: 0x104C3, 0x1E926: 0x1E904, 0x1E936: 0x1E914,
 	0x01DD: 0x018E, 0x0460: 0x0461, 0x1E71: 0x1E70, 0x2174: 0x2164, 0xA75D: 0xA75C, 0xA78D: 0x0265,
-	0x104CC: 0x104F4, 0x10D52: 0x10D72, 0x03C9: 0x03A9, 0x0544: 0x0574, 0xA7AE: 0x026A, 0x0139: 0x013A,
+	0x104CC: 0x104F4, 0x10D52: 0x10D72, 0x03C9: 0x2126, 0x0544: 0x0574, 0xA7AE: 0x026A, 0x0139: 0x013A,
 	0x015A: 0x015B, 0x0193: 0x0260, 0x0490: 0x0491, 0x1EEE: 0x1EEF, 0x1F09: 0x1F01, 0x13B3: 0xAB83,
 	0x13D8: 0xABA8, 0x104EA: 0x104C2, 0x0443: 0x0423, 0x04F5: 0x04F4, 0x0580: 0x0550, 0x03A4: 0x03C4,
 	0x0494: 0x0495, 0x1E90: 0x1E91, 0x1EE2: 0x1EE3, 0x1F51: 0x1F59, 0xABA2: 0x13D2, 0x10CC1: 0x10C81,
@@ -349,14 +349,14 @@ var caseFoldingPairs = map[rune]rune{
 	0x2C25: 0x2C55, 0x0240: 0x2C7F, 0xA799: 0xA798, 0x13B9: 0xAB89, 0x1E48: 0x1E49, 0x2C58: 0x2C28,
 	0x13A3: 0xAB73, 0xFF2B: 0xFF4B, 0x16EC7: 0x16EAC, 0x1E915: 0x1E937, 0x00EF: 0x00CF, 0x013F: 0x0140,
 	0x0142: 0x0141, 0x0539: 0x0569, 0xA64B: 0x1C88, 0xA72C: 0xA72D, 0xA766: 0xA767, 0x10421: 0x10449,
-	0x0079: 0x0059, 0x03DB: 0x03DA, 0x044A: 0x042A, 0x0509: 0x0508, 0xA74F: 0xA74E, 0xABA4: 0x13D4,
+	0x0079: 0x0059, 0x03DB: 0x03DA, 0x044A: 0x1C86, 0x0509: 0x0508, 0xA74F: 0xA74E, 0xABA4: 0x13D4,
 	0x1057F: 0x105A6, 0x10592: 0x105B9, 0x01E5: 0x01E4, 0x049B: 0x049A, 0x04D5: 0x04D4, 0x1C89: 0x1C8A,
 	0x1C95: 0x10D5, 0x1EC5: 0x1EC4, 0x0271: 0x2C6E, 0xA694: 0xA695, 0x1E75: 0x1E74, 0x1F7D: 0x1FFB,
-	0x13CF: 0xAB9F, 0x104E2: 0x104BA, 0x104C1: 0x104E9, 0x1059A: 0x10573, 0x1E92E: 0x1E90C, 0x0073: 0x0053,
+	0x13CF: 0xAB9F, 0x104E2: 0x104BA, 0x104C1: 0x104E9, 0x1059A: 0x10573, 0x1E92E: 0x1E90C, 0x0073: 0x017F,
 	0x00FD: 0x00DD, 0x24D1: 0x24B7, 0xA72D: 0xA72C, 0x13E0: 0xABB0, 0x10C80: 0x10CC0, 0x118A2: 0x118C2,
 	0x16E4B: 0x16E6B, 0x00D9: 0x00F9, 0x03B3: 0x0393, 0x1C98: 0x10D8, 0x10DA: 0x1C9A, 0xA763: 0xA762,
 	0xA7C2: 0xA7C3, 0x13CE: 0xAB9E, 0x104D0: 0x104F8, 0x10412: 0x1043A, 0x16EA4: 0x16EBF, 0x1E909: 0x1E92B,
-	0x03BA: 0x039A, 0x0410: 0x0430, 0x043F: 0x041F, 0x1E8A: 0x1E8B, 0x1F2B: 0x1F23, 0x1F74: 0x1FCA,
+	0x03BA: 0x03F0, 0x0410: 0x0430, 0x043F: 0x041F, 0x1E8A: 0x1E8B, 0x1F2B: 0x1F23, 0x1F74: 0x1FCA,
 	0x2177: 0x2167, 0x104E0: 0x104B8, 0x0143: 0x0144, 0x04B5: 0x04B4, 0x10D3: 0x1C93, 0xA7DA: 0xA7DB,
 	0x16EB7: 0x16ED2, 0x0133: 0x0132, 0x10413: 0x1043B, 0x00F1: 0x00D1, 0x03D9: 0x03D8, 0x1E6B: 0x1E6A,
 	0xA77A: 0xA779, 0xA79C: 0xA79D, 0x017B: 0x017C, 0x020F: 0x020E, 0x0396: 0x03B6, 0xAB8B: 0x13BB,
@@ -374,7 +374,7 @@ var caseFoldingPairs = map[rune]rune{
 	0x1E08: 0x1E09, 0x1E8F: 0x1E8E, 0x1EE4: 0x1EE5, 0x104F5: 0x104CD, 0x1058C: 0x105B3, 0x01F9: 0x01F8,
 	0x04EC: 0x04ED, 0x1EF5: 0x1EF4, 0xA689: 0xA688, 0xFF4C: 0xFF2C, 0x10CAB: 0x10CEB, 0x01F4: 0x01F5,
 	0x2C1E: 0x2C4E, 0x13D1: 0xABA1, 0x0119: 0x0118, 0x04EE: 0x04EF, 0x2C73: 0x2C72, 0xA782: 0xA783,
-	0x0152: 0x0153, 0xA654: 0xA655, 0x1E92A: 0x1E908, 0x017F: 0x0073, 0x053A: 0x056A, 0xA664: 0xA665,
+	0x0152: 0x0153, 0xA654: 0xA655, 0x1E92A: 0x1E908, 0x017F: 0x0053, 0x053A: 0x056A, 0xA664: 0xA665,
 	0x0100: 0x0101, 0x0452: 0x0402, 0x1E2F: 0x1E2E, 0xA7D1: 0xA7D0, 0x0061: 0x0041, 0x0042: 0x0062,
 	0x04F6: 0x04F7, 0x10D2: 0x1C92, 0x1EC3: 0x1EC2, 0xA66A: 0xA66B, 0x16E69: 0x16E49, 0x0417: 0x0437,
 	0x04A1: 0x04A0, 0x04FD: 0x04FC, 0x056D: 0x053D, 0x2CCC: 0x2CCD, 0xA77E: 0xA77F, 0x1043E: 0x10416,
@@ -391,7 +391,7 @@ var caseFoldingPairs = map[rune]rune{
 	0x0157: 0x0156, 0x01CF: 0x01D0, 0x0166: 0x0167, 0x050D: 0x050C, 0x1CB3: 0x10F3, 0x1E7A: 0x1E7B,
 	0x1F3C: 0x1F34, 0x2C46: 0x2C16, 0xA793: 0xA792, 0xAB9E: 0x13CE, 0x0145: 0x0146, 0x0569: 0x0539,
 	0x104C3: 0x104EB, 0x015F: 0x015E, 0x04B9: 0x04B8, 0x050A: 0x050B, 0x1E5B: 0x1E5A, 0x1FF9: 0x1F79,
-	0x24DA: 0x24C0, 0x2C54: 0x2C24, 0x13D0: 0xABA0, 0x03F5: 0x03B5, 0x0565: 0x0535, 0x13BF: 0xAB8F,
+	0x24DA: 0x24C0, 0x2C54: 0x2C24, 0x13D0: 0xABA0, 0x03F5: 0x0395, 0x0565: 0x0535, 0x13BF: 0xAB8F,
 	0xABAE: 0x13DE, 0x104E9: 0x104C1, 0x10575: 0x1059C, 0x10C99: 0x10CD9, 0x10D5E: 0x10D7E, 0x01B2: 0x028B,
 	0x0208: 0x0209, 0x118BC: 0x118DC, 0x16E61: 0x16E41, 0x028B: 0x01B2, 0x1F12: 0x1F1A, 0x10CAA: 0x10CEA,
 	0x1E902: 0x1E924, 0x1E907: 0x1E929, 0x01BF: 0x01F7, 0x043A: 0x041A, 0x1E12: 0x1E13, 0x1F71: 0x1FBB,
@@ -424,7 +424,7 @@ var caseFoldingPairs = map[rune]rune{
 	0x04E5: 0x04E4, 0x1FD0: 0x1FD8, 0x0521: 0x0520, 0x0556: 0x0586, 0x2D11: 0x10B1, 0x1CA3: 0x10E3,
 	0x1F72: 0x1FC8, 0x16E4D: 0x16E6D, 0x16EA2: 0x16EBD, 0x01A3: 0x01A2, 0x03CF: 0x03D7, 0x1E1E: 0x1E1F,
 	0x1ECD: 0x1ECC, 0x16E68: 0x16E48, 0x0179: 0x017A, 0x057C: 0x054C, 0x2D04: 0x10A4, 0x10A5: 0x2D05,
-	0x015E: 0x015F, 0x03B5: 0x0395, 0x1E68: 0x1E69, 0x13E6: 0xABB6, 0x10591: 0x105B8, 0x0459: 0x0409,
+	0x015E: 0x015F, 0x03B5: 0x03F5, 0x1E68: 0x1E69, 0x13E6: 0xABB6, 0x10591: 0x105B8, 0x0459: 0x0409,
 	0x13FC: 0x13F4, 0x1F75: 0x1FCB, 0x2CC3: 0x2CC2, 0xA7F6: 0xA7F5, 0x13AD: 0xAB7D, 0x13DD: 0xABAD,
 	0x10D71: 0x10D51, 0x10E7: 0x1CA7, 0x0371: 0x0370, 0x10CAE: 0x10CEE, 0x00C2: 0x00E2, 0x2D02: 0x10A2,
 	0x1EF0: 0x1EF1, 0x10D65: 0x10D85, 0x0422: 0x0442, 0x0568: 0x0538, 0x1FB9: 0x1FB1, 0x2178: 0x2168,
@@ -443,12 +443,12 @@ var caseFoldingPairs = map[rune]rune{
 	0x01D0: 0x01CF, 0x0461: 0x0460, 0x1E21: 0x1E20, 0x2CD1: 0x2CD0, 0xA76F: 0xA76E, 0x1E90A: 0x1E92C,
 	0x1E931: 0x1E90F, 0x015B: 0x015A, 0x052B: 0x052A, 0x1E8D: 0x1E8C, 0x1F3B: 0x1F33, 0x24D2: 0x24B8,
 	0xA753: 0xA752, 0x16EAE: 0x16EC9, 0x1E938: 0x1E916, 0x0256: 0x0189, 0x04BD: 0x04BC, 0x1EB0: 0x1EB1,
-	0x1F07: 0x1F0F, 0x1D79: 0xA77D, 0x13C1: 0xAB91, 0x00D3: 0x00F3, 0x01CA: 0x01CC, 0x1EAC: 0x1EAD,
+	0x1F07: 0x1F0F, 0x1D79: 0xA77D, 0x13C1: 0xAB91, 0x00D3: 0x00F3, 0x01CA: 0x01CB, 0x1EAC: 0x1EAD,
 	0x2C8E: 0x2C8F, 0xA7B9: 0xA7B8, 0x10415: 0x1043D, 0x0209: 0x0208, 0x03A1: 0x03C1, 0x0433: 0x0413,
 	0x1F11: 0x1F19, 0x24C1: 0x24DB, 0xFF30: 0xFF50, 0x01DF: 0x01DE, 0x040E: 0x045E, 0x041F: 0x043F,
 	0x0473: 0x0472, 0x2D0C: 0x10AC, 0x1FB1: 0x1FB9, 0xA660: 0xA661, 0x01C5: 0x01C6, 0x0206: 0x0207,
 	0x1F57: 0x1F5F, 0x0264: 0xA7CB, 0xAB73: 0x13A3, 0x10433: 0x1040B, 0x011A: 0x011B, 0x0123: 0x0122,
-	0x1C83: 0x0441, 0x045D: 0x040D, 0x04FE: 0x04FF, 0x051C: 0x051D, 0x10A6: 0x2D06, 0x1CA5: 0x10E5,
+	0x1C83: 0x0421, 0x045D: 0x040D, 0x04FE: 0x04FF, 0x051C: 0x051D, 0x10A6: 0x2D06, 0x1CA5: 0x10E5,
 	0x10F3: 0x1CB3, 0x1EB2: 0x1EB3, 0x24B8: 0x24D2, 0xA653: 0xA652, 0xA749: 0xA748, 0xA74D: 0xA74C,
 	0xA7D7: 0xA7D6, 0xABB8: 0x13E8, 0x10594: 0x105BB, 0x10C92: 0x10CD2, 0x10CE2: 0x10CA2, 0x0052: 0x0072,
 	0x0499: 0x0498, 0x049F: 0x049E, 0x0579: 0x0549, 0x2176: 0x2166, 0x2CD6: 0x2CD7, 0x0265: 0xA78D,
@@ -456,8 +456,8 @@ var caseFoldingPairs = map[rune]rune{
 	0x105B7: 0x10590, 0x10CCC: 0x10C8C, 0x0248: 0x0249, 0x1F3F: 0x1F37, 0x2C97: 0x2C96, 0xA745: 0xA744,
 	0xFF41: 0xFF21, 0x1E93C: 0x1E91A, 0x01FE: 0x01FF, 0x0518: 0x0519, 0x1E92: 0x1E93, 0xA740: 0xA741,
 	0xA784: 0xA785, 0x1044D: 0x10425, 0x0125: 0x0124, 0x03B6: 0x0396, 0x03DC: 0x03DD, 0x1CAD: 0x10ED,
-	0x1E9B: 0x1E61, 0x2C52: 0x2C22, 0xA769: 0xA768, 0x10441: 0x10419, 0xA7BF: 0xA7BE, 0xABBF: 0x13EF,
-	0x16ECC: 0x16EB1, 0x16EB2: 0x16ECD, 0x024D: 0x024C, 0x1C81: 0x0434, 0x2C6A: 0x2C69, 0x16EAA: 0x16EC5,
+	0x1E9B: 0x1E60, 0x2C52: 0x2C22, 0xA769: 0xA768, 0x10441: 0x10419, 0xA7BF: 0xA7BE, 0xABBF: 0x13EF,
+	0x16ECC: 0x16EB1, 0x16EB2: 0x16ECD, 0x024D: 0x024C, 0x1C81: 0x0414, 0x2C6A: 0x2C69, 0x16EAA: 0x16EC5,
 	0x016B: 0x016A, 0x03E5: 0x03E4, 0xA682: 0xA683, 0xA72B: 0xA72A, 0xA7CB: 0x0264, 0x104BD: 0x104E5,
 	0x16EC0: 0x16EA5, 0x01E6: 0x01E7, 0x0430: 0x0410, 0x1CA4: 0x10E4, 0x1EB5: 0x1EB4, 0xA7B0: 0x029E,
 	0xAB9A: 0x13CA, 0x1041C: 0x10444, 0x015D: 0x015C, 0x2D0F: 0x10AF, 0x1FE9: 0x1FE1, 0x2C9C: 0x2C9D,
@@ -469,7 +469,7 @@ var caseFoldingPairs = map[rune]rune{
 	0x1F10: 0x1F18, 0x2C67: 0x2C68, 0x2CCA: 0x2CCB, 0x03BF: 0x039F, 0x04C2: 0x04C1, 0x1CA8: 0x10E8,
 	0x1E94: 0x1E95, 0xA642: 0xA643, 0x16E5E: 0x16E7E, 0x012E: 0x012F, 0x0167: 0x0166, 0x038C: 0x03CC,
 	0x2CBA: 0x2CBB, 0x2CC0: 0x2CC1, 0xA680: 0xA681, 0x10D51: 0x10D71, 0x10D85: 0x10D65, 0x1E59: 0x1E58,
-	0x1F00: 0x1F08, 0x1F6D: 0x1F65, 0x1FD8: 0x1FD0, 0x2126: 0x03C9, 0x10C9B: 0x10CDB, 0x03BC: 0x00B5,
+	0x1F00: 0x1F08, 0x1F6D: 0x1F65, 0x1FD8: 0x1FD0, 0x2126: 0x03A9, 0x10C9B: 0x10CDB, 0x03BC: 0x00B5,
 	0x00E0: 0x00C0, 0x1E43: 0x1E42, 0x0252: 0x2C70, 0x2C99: 0x2C98, 0xA7B2: 0x029D, 0x104CF: 0x104F7,
 	0x1E911: 0x1E933, 0x019A: 0x023D, 0x0496: 0x0497, 0x1EB8: 0x1EB9, 0x1FB8: 0x1FB0, 0x105B5: 0x1058E,
 	0x1E919: 0x1E93B, 0x022B: 0x022A, 0x1042E: 0x10406, 0x118A5: 0x118C5, 0x118B6: 0x118D6, 0x01C9: 0x01C7,
@@ -477,12 +477,12 @@ var caseFoldingPairs = map[rune]rune{
 	0x24E0: 0x24C6, 0x044B: 0x042B, 0x04CC: 0x04CB, 0x2C2A: 0x2C5A, 0x10578: 0x1059F, 0x010B: 0x010A,
 	0x10B9: 0x2D19, 0x10D4: 0x1C94, 0x013A: 0x0139, 0x03EF: 0x03EE, 0xA734: 0xA735, 0xFF27: 0xFF47,
 	0x10D6: 0x1C96, 0x217C: 0x216C, 0xA77B: 0xA77C, 0x118BF: 0x118DF, 0x0121: 0x0120, 0x023C: 0x023B,
-	0x0406: 0x0456, 0x1E07: 0x1E06, 0x2C40: 0x2C10, 0x2CDB: 0x2CDA, 0x118BD: 0x118DD, 0x03B9: 0x0345,
+	0x0406: 0x0456, 0x1E07: 0x1E06, 0x2C40: 0x2C10, 0x2CDB: 0x2CDA, 0x118BD: 0x118DD, 0x03B9: 0x1FBE,
 	0x10F1: 0x1CB1, 0x118CC: 0x118AC, 0x16EA0: 0x16EBB, 0x04CA: 0x04C9, 0x052C: 0x052D, 0x1F39: 0x1F31,
 	0x2CC8: 0x2CC9, 0x13D7: 0xABA7, 0x10409: 0x10431, 0x10D82: 0x10D62, 0x00E4: 0x00C4, 0x026F: 0x019C,
-	0x2C8C: 0x2C8D, 0x00B5: 0x03BC, 0x039B: 0x03BB, 0x0536: 0x0566, 0x1E15: 0x1E14, 0x1E56: 0x1E57,
+	0x2C8C: 0x2C8D, 0x00B5: 0x039C, 0x039B: 0x03BB, 0x0536: 0x0566, 0x1E15: 0x1E14, 0x1E56: 0x1E57,
 	0x16ECE: 0x16EB3, 0x0048: 0x0068, 0x0436: 0x0416, 0x1E3C: 0x1E3D, 0x1E5E: 0x1E5F, 0x1E77: 0x1E76,
-	0x1EA0: 0x1EA1, 0xA65F: 0xA65E, 0x10587: 0x105AE, 0x0538: 0x0568, 0x1C86: 0x044A, 0x1E41: 0x1E40,
+	0x1EA0: 0x1EA1, 0xA65F: 0xA65E, 0x10587: 0x105AE, 0x0538: 0x0568, 0x1C86: 0x042A, 0x1E41: 0x1E40,
 	0x2C26: 0x2C56, 0x118A6: 0x118C6, 0x118AA: 0x118CA, 0x118D5: 0x118B5, 0x1E93B: 0x1E919, 0x01E8: 0x01E9,
 	0x03CE: 0x038F, 0x10F6: 0x1CB6, 0xA68B: 0xA68A, 0xAB83: 0x13B3, 0x0211: 0x0210, 0x022E: 0x022F,
 	0x0372: 0x0373, 0x0414: 0x0434, 0x10CE3: 0x10CA3, 0x10D61: 0x10D81, 0x118B2: 0x118D2, 0x1E14: 0x1E15,
diff --git a/code_gen/build_unicode_tables.go b/code_gen/build_unicode_tables.go
index 282f057..da6834c 100644
--- a/code_gen/build_unicode_tables.go
+++ b/code_gen/build_unicode_tables.go
@@ -267,6 +267,7 @@ func buildCasefoldingTable() {
 		fatal("RE compile: " + err.Error())
 	}
 	mappings := make(map[string]string)
+	classes := make(map[string][]string)
 
 	for {
 		line, err := lines.ReadBytes('\n')
@@ -290,13 +291,19 @@ func buildCasefoldingTable() {
 		if err != nil {
 			fatalf("failed to parse hex string in %s", line)
 		}
-		_, ok := mappings[string(matches[1])]
-		if !ok {
-			mappings[string(matches[1])] = string(matches[2])
+		folded := string(matches[2])
+		if len(classes[folded]) == 0 {
+			classes[folded] = []string{folded}
 		}
-		_, ok = mappings[string(matches[2])]
-		if !ok {
-			mappings[string(matches[2])] = string(matches[1])
+		classes[folded] = append(classes[folded], string(matches[1]))
+	}
+	// each character leads to the next of those that fold to the same one, the last to the first
+	for _, class := range classes {
+		slices.SortFunc(class, func(a, b string) int {
+			return cmp.Or(cmp.Compare(len(a), len(b)), cmp.Compare(a, b))
+		})
+		for i, char := range class {
+			mappings[char] = class[(i+1)%len(class)]
 		}
 	}
 	onLine := CfPairsPerLine
diff --git a/monocase.go b/monocase.go
index 68a41bf..8b332ac 100644
--- a/monocase.go
+++ b/monocase.go
@@ -47,36 +47,19 @@ func makeMonocaseFA(val []byte, pp printer) (*faState, *fieldMatcher) {
 	currentTable := &startState.table
 	var nextStep *faState
 	for index < len(val) {
-		var orig, alt []byte
 		r, width := utf8.DecodeRune(val[index:])
-		orig = val[index : index+width]
-		altRune, ok := caseFoldingPairs[r]
-		if ok {
-			alt = make([]byte, utf8.RuneLen(altRune))
-			utf8.EncodeRune(alt, altRune)
-		}
+		orig := val[index : index+width]
+		alts := caseFoldingAlternates(r)
 		nextStep = &faState{table: newSmallTable()}
-		pp.labelTable(&nextStep.table, fmt.Sprintf("On %d, alt=%v", val[index], alt))
-		if alt == nil {
+		pp.labelTable(&nextStep.table, fmt.Sprintf("On %d, alts=%v", val[index], alts))
+		if alts == nil {
 			// easy case, no casefolding issues.  We should maybe try to coalesce these
 			// no-casefolding sections and only call makeFAFragment once for all of them
 			origFA := makeFAFragment(orig, nextStep, pp)
 			currentTable.addByteStep(orig[0], origFA)
 		} else {
-			// two paths to next state
-			// but they might have a common prefix
-			var commonPrefix int
-			for commonPrefix = 0; orig[commonPrefix] == alt[commonPrefix]; commonPrefix++ {
-				prefixStep := &faState{table: newSmallTable()}
-				currentTable.addByteStep(orig[commonPrefix], prefixStep)
-				currentTable = &prefixStep.table
-				pp.labelTable(currentTable, fmt.Sprintf("common prologue on %x", orig[commonPrefix]))
-			}
-			// now build automata for the orig and alt versions of the char
-			origFA := makeFAFragment(orig[commonPrefix:], nextStep, pp)
-			altFA := makeFAFragment(alt[commonPrefix:], nextStep, pp)
-			currentTable.addByteStep(orig[commonPrefix], origFA)
-			currentTable.addByteStep(alt[commonPrefix], altFA)
+			// two or more paths to next state, which might have common prefixes
+			*currentTable = makeRuneRangeNFA(append(alts, RunePair{r, r}), nextStep, pp)
 		}
 		currentTable = &nextStep.table
 		index += width
@@ -85,3 +68,13 @@ func makeMonocaseFA(val []byte, pp printer) (*faState, *fieldMatcher) {
 	nextStep.table.addByteStep(valueTerminator, lastState)
 	return startState, fm
 }
+
+// caseFoldingAlternates returns the other characters which fold to the same one as r does. caseFoldingPairs
+// leads from each character to the next of these and from the last back to the first.
+func caseFoldingAlternates(r rune) RuneRange {
+	var alts RuneRange
+	for alt, ok := caseFoldingPairs[r]; ok && alt != r; alt, ok = caseFoldingPairs[alt] {
+		alts = append(alts, RunePair{alt, alt})
+	}
+	return alts
+}
-- 
2.43.0


From 3fcc24efc0e1582f1c0bc9de113046da8aeb0808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 32/36] fix: allow U+FFFD in a regexp, as the I-Regexp grammar
 does

---
 regexp_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp_parse.go b/regexp_parse.go
index afbb942..1af3a2b 100644
--- a/regexp_parse.go
+++ b/regexp_parse.go
@@ -48,7 +48,7 @@ func (p *regexpParse) nextRune() (rune, error) {
 	}
 	p.lastIndex = p.index
 	c, length := utf8.DecodeRune(p.bytes[p.index:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && length <= 1 {
 		return 0, fmt.Errorf("UTF-8 encoding error at offset %d", p.lastOffset())
 	}
 	p.index += length
-- 
2.43.0


From 5471bafaa93e3e6f7733611c1c9ed09f8d079922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:07 +0000
Subject: [PATCH 33/36] fix: reject an unescaped '}' in a regexp instead of
 dropping it

---
 regexp_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index 9ca79db..bc0ba86 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -352,7 +352,7 @@ func readAtom(parse *regexpParse) (*quantifiedAtom, error) {
 		}
 		return nil, fmt.Errorf("invalid character '%c' after '~' at %d", c, parse.lastOffset())
 
-	case bytes.ContainsRune([]byte("?+*{"), b):
+	case bytes.ContainsRune([]byte("?+*{}"), b):
 		return nil, fmt.Errorf("invalid character '%c' at %d", b, parse.lastOffset())
 
 	default:
-- 
2.43.0


From b95157b99d6bc33ffba551a68d8274c379dc8de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:34 +0000
Subject: [PATCH 34/36] fix: reject a regexp that ends inside a property, class
 or range quantifier

---
 regexp_reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index bc0ba86..3185a1e 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -210,6 +210,9 @@ func readBranch(parse *regexpParse) (regexpBranch, error) {
 	branch := regexpBranch{}
 	var err error
 	for err == nil {
+		if parse.isEmpty() {
+			return branch, nil
+		}
 		var piece *quantifiedAtom
 		piece, err = readPiece(parse)
 		if err == nil {
@@ -217,7 +220,7 @@ func readBranch(parse *regexpParse) (regexpBranch, error) {
 		}
 	}
 	if errors.Is(err, errRegexpEOF) {
-		return branch, nil
+		return nil, fmt.Errorf("regular expression ends too early, after %d", parse.lastOffset())
 	}
 	return branch, err
 }
-- 
2.43.0


From 272cda96ce89c9f783a764652fdba8e9225459b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 35/36] fix: try exists:false after a final exists:true [C32]

---
 core_matcher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core_matcher.go b/core_matcher.go
index 5cf8324..26be6e6 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -218,6 +218,8 @@ func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSe
 				tryToMatch(fields, nextIndex, existsTrans, matches, bufs)
 			}
 		}
+		// as below, there may be no field left to try an exists:false transition on
+		checkExistsFalse(existsTrans.fields(), fields, index, matches, bufs)
 	}
 
 	// an exists:false transition is possible if there is no matching field in the event
-- 
2.43.0


From 78cb061770107ebd24a7e50c3c3b96ddf28bc12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:58 +0000
Subject: [PATCH 36/36] fix: a prefix that ends with a " must not match the
 value that ends there

---
 value_matcher.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/value_matcher.go b/value_matcher.go
index 67083f2..832b3eb 100644
--- a/value_matcher.go
+++ b/value_matcher.go
@@ -206,6 +206,13 @@ func makeOnePrefixFAStep(val []byte, index int, nextField *fieldMatcher) smallTa
 	var nextState *faState
 	if index == len(val)-2 {
 		nextState = &faState{table: newSmallTable(), fieldTransitions: []*fieldMatcher{nextField}}
+		if index > 0 && val[index] == '"' {
+			// this isn't the closing " of the event's value, so something has to follow
+			nextState = &faState{table: smallTable{
+				ceilings: []byte{valueTerminator, byte(byteCeiling)},
+				steps:    []*faState{nextState, nil},
+			}}
+		}
 	} else {
 		nextState = &faState{table: makeOnePrefixFAStep(val, index+1, nextField)}
 	}
-- 
2.43.0

