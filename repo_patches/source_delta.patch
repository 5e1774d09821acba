From 503e60f70b1e62cd475b859f4bc482ba997908a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:49 +0000
Subject: [PATCH 01/31] fix: match * against empty text and ? against one
 character in wildcard segments

regexSegmentMatch indexed past the end of the segment for some patterns (a
request could panic), did not let a trailing * match nothing and compared
bytes instead of characters.
---
 router/path/pattern.go | 97 +++++++++++++-----------------------------
 1 file changed, 30 insertions(+), 67 deletions(-)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index a8ac019..a7929ef 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const greedyPatternMaxMatchableSegments = math.MaxUint8
@@ -178,25 +179,15 @@ func ParsePattern(pathPattern string, caseInsensitive bool) (*Pattern, error) {
 }
 
 func regexSegmentMatch(urlPathSegment string, patternSegment string, caseInsensitive bool) bool {
-	var hasStar bool
 	patternSegmentLen := len(patternSegment)
 	urlPathSegmentLen := len(urlPathSegment)
-	for i := 0; i < patternSegmentLen; i++ {
-		if patternSegment[i] == '*' {
-			hasStar = true
-			break
-		}
-	}
-	if !hasStar && urlPathSegmentLen != patternSegmentLen {
-		return false
-	}
 
-	runesMatches := func(uc uint8, pc uint8) bool {
+	runesMatches := func(uc rune, pc rune) bool {
 		if pc == '?' {
 			return true
 		}
 		if caseInsensitive {
-			return unicode.ToUpper(rune(uc)) == unicode.ToUpper(rune(pc))
+			return unicode.ToUpper(uc) == unicode.ToUpper(pc)
 		} else {
 			return uc == pc
 		}
@@ -204,69 +195,41 @@ func regexSegmentMatch(urlPathSegment string, patternSegment string, caseInsensi
 
 	var pIndex int
 	var uIndex int
-	var checkPointRestore bool
 	pIndexCheckPoint := -1
 	uIndexCheckPoint := -1
-	for {
-		if pIndex == patternSegmentLen && uIndex == urlPathSegmentLen {
-			return true
-		}
-		if pIndex == patternSegmentLen || uIndex == urlPathSegmentLen {
-			checkPointRestore = true
-		}
-
-		if checkPointRestore {
-			// no checkpoint, meaning that no greedy character found
-			if pIndexCheckPoint == -1 || uIndexCheckPoint == -1 {
-				return false
-			}
-			pIndex = pIndexCheckPoint
-			uIndex = uIndexCheckPoint + 1
-		}
-
-		checkPointRestore = false
-		uc := urlPathSegment[uIndex]
-		pc := patternSegment[pIndex]
-		if pc == '?' {
-			pIndex++
-			uIndex++
-		} else if pc == '*' {
-			//skip the next * if exists (example ab****)
-			for i := pIndex + 1; i < patternSegmentLen; i++ {
-				if patternSegment[i] != '*' {
-					pIndex = i - 1
-					break
-				}
-			}
-
-			if pIndex == patternSegmentLen-1 {
-				//the * is the last character in the pattern and matches the rest of the text
-				return true
-			}
-
-			pIndexCheckPoint = -1
-			uIndexCheckPoint = -1
-			pc = patternSegment[pIndex+1]
-			for ; uIndex < urlPathSegmentLen; uIndex++ {
-				uc = urlPathSegment[uIndex]
-				if runesMatches(uc, pc) {
-					// we save the checkpoint and we continue with the next matching
-					pIndexCheckPoint = pIndex
-					uIndexCheckPoint = uIndex
-					pIndex++
-					break
-				}
+	for uIndex < urlPathSegmentLen {
+		uc, ucLen := utf8.DecodeRuneInString(urlPathSegment[uIndex:])
+		if pIndex < patternSegmentLen {
+			pc, pcLen := utf8.DecodeRuneInString(patternSegment[pIndex:])
+			if pc == '*' {
+				// we save the checkpoint, assuming first that the * matches nothing
+				pIndex++
+				pIndexCheckPoint = pIndex
+				uIndexCheckPoint = uIndex
+				continue
 			}
-		} else {
 			if runesMatches(uc, pc) {
-				pIndex++
-				uIndex++
-			} else {
-				checkPointRestore = true
+				pIndex += pcLen
+				uIndex += ucLen
+				continue
 			}
 		}
+		// no checkpoint, meaning that no greedy character found
+		if pIndexCheckPoint == -1 {
+			return false
+		}
+		// the last * should match one more character
+		_, ucLen = utf8.DecodeRuneInString(urlPathSegment[uIndexCheckPoint:])
+		uIndexCheckPoint += ucLen
+		pIndex = pIndexCheckPoint
+		uIndex = uIndexCheckPoint
 	}
 
+	//skip the remaining * because they can match an empty text
+	for pIndex < patternSegmentLen && patternSegment[pIndex] == '*' {
+		pIndex++
+	}
+	return pIndex == patternSegmentLen
 }
 
 func determineMatchTypeForSegment(pathSegment string) MatchType {
-- 
2.43.0


From 2b2da0d78b7106ceff09fca6b136ade9a705176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:26 +0000
Subject: [PATCH 02/31] fix: backtrack through ** segments when matching a path

---
 router/path/matcher.go | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 2c963d5..91caa5e 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -9,6 +9,8 @@ import (
 type stackSegment struct {
 	currentNodeChildren uint16
 	urlSegmentIndex     uint8
+	// the URL segment where a greedy segment should resume the search
+	greedySegmentIndex uint8
 }
 
 type node struct {
@@ -154,17 +156,14 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	}
 	var treeDepth int
 	urlLen := uint8(len(mc.PathSegments))
-	nodeStack := make([]stackSegment, MaxPathSegments)
-	urlSegmentMatchTypeStack := make([]MatchType, MaxPathSegments)
+	// a greedy segment can match zero URL segments, so a branch can be longer than the URL
+	nodeStack := make([]stackSegment, 2*MaxPathSegments+1)
 	currentNode := m.trieRoot
 	var urlSegmentIndex uint8
 	for urlSegmentIndex < urlLen {
 		var matched bool
 		urlSegment := &mc.PathSegments[urlSegmentIndex]
 		//urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
-		if urlSegmentMatchTypeStack[urlSegmentIndex] != 0 {
-			urlSegment.matchType = urlSegmentMatchTypeStack[urlSegmentIndex]
-		}
 
 		children := currentNode.children
 		childrenLen := uint16(len(children))
@@ -186,27 +185,36 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 					mc.matchedPattern = childNode.pattern
 					return childNode.pattern
 				}
-				for urlSegmentIndex < urlLen {
-					urlSegment := &mc.PathSegments[urlSegmentIndex]
+				greedySegmentIndex := urlSegmentIndex
+				for i := urlSegmentIndex; i < nodeStack[treeDepth].greedySegmentIndex; i++ {
+					mc.PathSegments[i].matchType = MatchTypeMultipleSegments
+					greedySegmentIndex++
+				}
+				for greedySegmentIndex < urlLen {
+					urlSegment := &mc.PathSegments[greedySegmentIndex]
 					urlSegment.matchType = MatchTypeMultipleSegments
 					for gci := 0; gci < greedyChildrenLen; gci++ {
 						greedyChildNode := greedyChildren[gci]
 						if greedyChildNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive) != MatchTypeUnknown {
 							nodeStack[treeDepth] = stackSegment{
 								currentNodeChildren: ci,
-								urlSegmentIndex:     urlSegmentIndex + 1,
+								urlSegmentIndex:     urlSegmentIndex,
+								greedySegmentIndex:  greedySegmentIndex + 1,
 							}
-							urlSegmentMatchTypeStack[urlSegmentIndex] = MatchTypeMultipleSegments
 							matched = true
 							treeDepth++
-							urlSegmentIndex-- //the urlSegmentIndex should not be increased. We have to decrease it here because will be increased at the end of the main loop
+							urlSegmentIndex = greedySegmentIndex - 1 //the urlSegmentIndex should not be increased. We have to decrease it here because will be increased at the end of the main loop
 							currentNode = childNode
 							goto END
 						}
 					}
-					urlSegmentIndex++
+					greedySegmentIndex++
+				}
+				if childNode.isLeaf() {
+					//none of the longer patterns matched, so the remained URL segments are matched by the greedy segment
+					mc.matchedPattern = childNode.pattern
+					return childNode.pattern
 				}
-				return nil
 			} else if urlSegmentMatchType != MatchTypeUnknown {
 				urlSegment.matchType = urlSegmentMatchType
 				if urlSegmentIndex == urlLen-1 {
@@ -214,7 +222,7 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 						mc.matchedPattern = childNode.pattern
 						return childNode.pattern
 					}
-					goto END
+					continue
 				}
 				matched = true
 				urlSegment.matchType = urlSegmentMatchType
@@ -238,7 +246,6 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 		} else {
 			if currentNode.parent != nil {
 				//stack cleanup
-				urlSegmentMatchTypeStack[urlSegmentIndex] = 0
 				nodeStack[treeDepth] = stackSegment{}
 				treeDepth--
 				urlSegmentIndex = nodeStack[treeDepth].urlSegmentIndex
-- 
2.43.0


From 0d006b090678117021a5193349d877c3f28d59d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:54 +0000
Subject: [PATCH 03/31] fix: order sibling patterns by specificity, independent
 of the registration order, and detect duplicated constraints

---
 router/path/matcher.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 91caa5e..1a3c590 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -83,7 +83,7 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					child.segment.matchType == MatchTypeMultipleSegments {
 					hasSameVal = true
 				} else if child.segment.matchType == MatchTypeConstraintCaptureVar {
-					hasSameVal = segment.captureVarPattern.String() == child.segment.val
+					hasSameVal = segment.captureVarPattern.String() == child.segment.captureVarPattern.String()
 				} else {
 					if m.caseInsensitive {
 						hasSameVal = strings.EqualFold(segment.val, child.segment.val)
@@ -96,6 +96,11 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					if child.maxMatchableSegments < maxMatchableSegments {
 						child.maxMatchableSegments = maxMatchableSegments
 					}
+					if pattern.priority < child.priority {
+						// the node takes the priority of the most specific pattern that goes through it
+						child.priority = pattern.priority
+						m.sortNodes(children)
+					}
 					currentNode = child
 					found = true
 					if currentNode.parent != nil {
@@ -118,14 +123,7 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 				newNode.pattern = pattern
 			}
 			children = append(children, newNode)
-			sort.SliceStable(children, func(i, j int) bool {
-				iChild := children[i]
-				jChild := children[j]
-				if iChild.priority == jChild.priority {
-					return strings.Compare(iChild.segment.val, jChild.segment.val) <= 0
-				}
-				return iChild.priority < jChild.priority
-			})
+			m.sortNodes(children)
 			currentNode.children = children
 			currentNode = newNode
 			newNode.maxMatchableSegments = maxMatchableSegments
@@ -147,6 +145,32 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 	return nil
 }
 
+// sortNodes sorts the sibling nodes from the most specific to the less specific one.
+// The order doesn't depend on the order in which the patterns were registered
+func (m *Matcher) sortNodes(nodes []*node) {
+	sort.SliceStable(nodes, func(i, j int) bool {
+		iNode := nodes[i]
+		jNode := nodes[j]
+		if iNode.segment.matchType != jNode.segment.matchType {
+			return iNode.segment.matchType < jNode.segment.matchType
+		}
+		if iNode.priority != jNode.priority {
+			return iNode.priority < jNode.priority
+		}
+		return m.sortKey(iNode.segment) < m.sortKey(jNode.segment)
+	})
+}
+
+func (m *Matcher) sortKey(s *segment) string {
+	if s.matchType == MatchTypeConstraintCaptureVar {
+		return s.captureVarPattern.String()
+	}
+	if m.caseInsensitive {
+		return strings.ToLower(s.val)
+	}
+	return s.val
+}
+
 func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	if len(mc.PathSegments) > MaxPathSegments {
 		return nil
-- 
2.43.0


From 4abfd2933bca27fe564ddf55ab3a8ccb8f0eec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:36 +0000
Subject: [PATCH 04/31] fix: reject path patterns with too many segments
 instead of wrapping their count

---
 router/path/pattern.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index a7929ef..07e578d 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -104,6 +104,10 @@ func ParsePattern(pathPattern string, caseInsensitive bool) (*Pattern, error) {
 		}
 	}
 
+	if maxSegmentsSize >= greedyPatternMaxMatchableSegments {
+		return nil, fmt.Errorf("invalid path pattern: [%s], too many path segments", pathPattern)
+	}
+
 	var pathSegmentStart int
 	var pathSegmentsCount uint8
 	var captureVarsLen uint8
-- 
2.43.0


From 6de00463ea586126a6e112f48c9e09737747b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:05 +0000
Subject: [PATCH 05/31] fix: endless loop in the priority of patterns with many
 ** segments

---
 router/path/encode.go | 37 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/router/path/encode.go b/router/path/encode.go
index 2f58c9d..ba96a56 100644
--- a/router/path/encode.go
+++ b/router/path/encode.go
@@ -31,36 +31,19 @@ func computePriority(segments []*segment) uint64 {
 		digitsPerSegmentToAdd := (MaxPathSegments - digitsCount) / multiplePathsMatcherSegmentsCount
 		digitsPerSegmentReminderToAdd := (MaxPathSegments - digitsCount) % multiplePathsMatcherSegmentsCount
 
-		var getSplitIndex = func(nr uint64, dividerDigits int) int {
-			var splitIndex int
-			m := getDecimalDivider(dividerDigits)
-			for n := nr; n > 0; n = n / m {
-				if MatchType(n%10) == MatchTypeMultipleSegments {
-					break
+		// the missing digits are distributed between the ** segments, the first one takes also the reminder
+		priority = 0
+		digitsToAdd := digitsPerSegmentToAdd + digitsPerSegmentReminderToAdd
+		for i := 0; i < digitsCount; i++ {
+			mt := segments[i].matchType
+			priority = priority*10 + uint64(mt)
+			if mt == MatchTypeMultipleSegments {
+				for j := 0; j < digitsToAdd; j++ {
+					priority = priority*10 + uint64(mt)
 				}
-				splitIndex++
+				digitsToAdd = digitsPerSegmentToAdd
 			}
-			return splitIndex + dividerDigits
 		}
-
-		dividerDigits := 1
-		for i := 0; i < multiplePathsMatcherSegmentsCount; i++ {
-			splitIndex := getSplitIndex(priority, dividerDigits)
-			m := getDecimalDivider(splitIndex)
-			n := priority / m
-			r := priority % m
-			digitsToAdd := digitsPerSegmentToAdd
-			if i == multiplePathsMatcherSegmentsCount-1 {
-				digitsToAdd += digitsPerSegmentReminderToAdd
-			}
-
-			for j := 0; j < digitsToAdd; j++ {
-				n = n*10 + uint64(MatchTypeMultipleSegments)
-			}
-			priority = n*m + r
-			dividerDigits = splitIndex + digitsToAdd
-		}
-
 		return priority
 	}
 }
-- 
2.43.0


From fa3d7b1bc643f712d436213e700e72923c7b70c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:05 +0000
Subject: [PATCH 06/31] fix: route and capture the segments beyond the first
 64K bytes of a path

---
 router/path/matching_context.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 065baea..0f0bd16 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -15,8 +15,8 @@ func (cv *CaptureVar) String() string {
 }
 
 type UrlSegment struct {
-	startIndex uint16
-	endIndex   uint16
+	startIndex uint32
+	endIndex   uint32
 	matchType  MatchType
 }
 
@@ -112,8 +112,8 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 				}
 
 				mc.PathSegments[segmentsIndex] = UrlSegment{
-					startIndex: uint16(startIndex),
-					endIndex:   uint16(endIndex),
+					startIndex: uint32(startIndex),
+					endIndex:   uint32(endIndex),
 				}
 				segmentsIndex++
 			}
-- 
2.43.0


From c714bfda2b3dcff4e3e4d843db6bd948b17faa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:22 +0000
Subject: [PATCH 07/31] fix: answer paths with too many segments with 404
 instead of dispatching them as root path

---
 router/path/matching_context.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 0f0bd16..0d3c54b 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -88,6 +88,9 @@ func (mc *MatchingContext) PathVar(name string) string {
 	return ""
 }
 
+// tooManyPathSegments are the segments of any path that is too long to be matched
+var tooManyPathSegments = make([]UrlSegment, MaxPathSegments+1)
+
 func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 	requestPath := requestUrl.Path
 	if len(requestPath) == 0 || requestPath == "/" {
@@ -97,18 +100,25 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 
 	pathLen := len(requestPath)
 	var segmentsIndex int
+	// how many segments follow the first MaxPathSegments ones
+	var overflowSegments int
 	segmentStartPos := -1
-	addSegment := func(startIndex int, endIndex int) bool {
+	addSegment := func(startIndex int, endIndex int) {
 		seg := requestPath[segmentStartPos:endIndex]
 		if len(seg) > 0 {
 			if seg == ".." {
+				if overflowSegments > 0 {
+					overflowSegments--
+					return
+				}
 				segmentsIndex--
 				if segmentsIndex < 0 {
 					segmentsIndex = 0
 				}
 			} else {
 				if segmentsIndex >= MaxPathSegments {
-					return false
+					overflowSegments++
+					return
 				}
 
 				mc.PathSegments[segmentsIndex] = UrlSegment{
@@ -118,27 +128,24 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 				segmentsIndex++
 			}
 		}
-		return true
 	}
 
 	for pos := 0; pos < pathLen; pos++ {
 		ch := requestPath[pos]
 		if ch == '/' {
 			if segmentStartPos != -1 {
-				if !addSegment(segmentStartPos, pos) {
-					mc.PathSegments = nil
-					return
-				}
+				addSegment(segmentStartPos, pos)
 			}
 			segmentStartPos = pos + 1
 		}
 	}
 
 	if segmentStartPos != -1 && segmentStartPos < pathLen {
-		if !addSegment(segmentStartPos, pathLen) {
-			mc.PathSegments = nil
-			return
-		}
+		addSegment(segmentStartPos, pathLen)
+	}
+	if overflowSegments > 0 {
+		mc.PathSegments = tooManyPathSegments
+		return
 	}
 	if segmentsIndex == 0 {
 		mc.PathSegments = nil
-- 
2.43.0


From f5f8ebc29380a7378679858b58fb57e34b94d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:46 +0000
Subject: [PATCH 08/31] fix: ignore the letter case also of letters whose case
 variants differ in length

---
 router/path/pattern.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index 07e578d..2932314 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -6,7 +6,6 @@ import (
 	"math"
 	"regexp"
 	"strings"
-	"unicode"
 	"unicode/utf8"
 )
 
@@ -22,16 +21,14 @@ type segment struct {
 func (s *segment) matchUrlPathSegment(urlPath string, urlSegment *UrlSegment, caseInsensitive bool) MatchType {
 	matchType := s.matchType
 	if matchType == MatchTypeLiteral {
-		if int(urlSegment.endIndex-urlSegment.startIndex) == len(s.val) {
-			urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
-			if caseInsensitive {
-				if strings.EqualFold(urlSegmentVal, s.val) {
-					return MatchTypeLiteral
-				}
-			} else {
-				if urlSegmentVal == s.val {
-					return MatchTypeLiteral
-				}
+		urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
+		if caseInsensitive {
+			if strings.EqualFold(urlSegmentVal, s.val) {
+				return MatchTypeLiteral
+			}
+		} else {
+			if urlSegmentVal == s.val {
+				return MatchTypeLiteral
 			}
 		}
 		return MatchTypeUnknown
@@ -191,7 +188,7 @@ func regexSegmentMatch(urlPathSegment string, patternSegment string, caseInsensi
 			return true
 		}
 		if caseInsensitive {
-			return unicode.ToUpper(uc) == unicode.ToUpper(pc)
+			return strings.EqualFold(string(uc), string(pc))
 		} else {
 			return uc == pc
 		}
-- 
2.43.0


From 12121a107a827c9e414be2f8672e1f350f1d189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:34 +0000
Subject: [PATCH 09/31] fix: send the headers and cookies of a redirect, reject
 invalid redirect statuses

---
 response/headers.go  | 51 ++++++++++++++++++++++++++++----------------
 response/redirect.go |  9 +++++++-
 2 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/response/headers.go b/response/headers.go
index 37cfb76..1112725 100644
--- a/response/headers.go
+++ b/response/headers.go
@@ -36,20 +36,30 @@ func (r *HttpHeadersResponse) Cookies() HttpCookies {
 }
 
 func (r *HttpHeadersResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
-	defer func() {
-		if r.HttpHeaders != nil {
-			r.HttpHeaders.Release()
-		}
-		if r.HttpCookies != nil {
-			r.HttpCookies.Release()
-		}
-	}()
+	defer r.release()
 
 	statusCode := r.StatusCode()
-	if statusCode < 100 || statusCode > 999 {
-		return errors.New("http status code should be between 100 and 999")
+	if err := validateStatusCode(statusCode); err != nil {
+		return err
 	}
 
+	r.writeHeadersAndCookies(w)
+
+	header := w.Header()
+	if len(header.Get(HeaderContentType)) == 0 && len(r.ContentType) > 0 {
+		header.Set(HeaderContentType, r.ContentType)
+	}
+	if len(header.Get(HeaderContentTypeOptions)) == 0 {
+		header.Set(HeaderContentTypeOptions, "nosniff")
+	}
+
+	// Write the status code to the response.
+	w.WriteHeader(statusCode)
+	return nil
+}
+
+// writeHeadersAndCookies copies the custom headers and cookies to the response writer
+func (r *HttpHeadersResponse) writeHeadersAndCookies(w http.ResponseWriter) {
 	// Write the cookies
 	if r.HttpCookies != nil {
 		for _, cookie := range r.HttpCookies {
@@ -57,24 +67,29 @@ func (r *HttpHeadersResponse) Write(w http.ResponseWriter, mc path.MatchingConte
 		}
 	}
 
-	header := w.Header()
-
 	// Write the headers
 	if r.HttpHeaders != nil {
+		header := w.Header()
 		for k, v := range r.HttpHeaders {
 			header.Set(k, v)
 		}
 	}
+}
 
-	if len(header.Get(HeaderContentType)) == 0 && len(r.ContentType) > 0 {
-		header.Set(HeaderContentType, r.ContentType)
+// release puts the headers and the cookies in the pool for further re-usage
+func (r *HttpHeadersResponse) release() {
+	if r.HttpHeaders != nil {
+		r.HttpHeaders.Release()
 	}
-	if len(header.Get(HeaderContentTypeOptions)) == 0 {
-		header.Set(HeaderContentTypeOptions, "nosniff")
+	if r.HttpCookies != nil {
+		r.HttpCookies.Release()
 	}
+}
 
-	// Write the status code to the response.
-	w.WriteHeader(statusCode)
+func validateStatusCode(statusCode int) error {
+	if statusCode < 100 || statusCode > 999 {
+		return errors.New("http status code should be between 100 and 999")
+	}
 	return nil
 }
 
diff --git a/response/redirect.go b/response/redirect.go
index 634adf3..0a969bd 100644
--- a/response/redirect.go
+++ b/response/redirect.go
@@ -12,7 +12,14 @@ type HttpRedirectResponse struct {
 }
 
 func (r *HttpRedirectResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
-	http.Redirect(w, mc.R, r.Url, r.HttpStatusCode)
+	defer r.release()
+
+	statusCode := r.StatusCode()
+	if err := validateStatusCode(statusCode); err != nil {
+		return err
+	}
+	r.writeHeadersAndCookies(w)
+	http.Redirect(w, mc.R, r.Url, statusCode)
 	return nil
 }
 
-- 
2.43.0


From 818f365c37c3488cc6db3fc90b29479dc62bf9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:37 +0000
Subject: [PATCH 10/31] fix: set the event stream headers before the header is
 written

---
 response/sse.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index f679c02..ddbcf40 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -73,15 +73,15 @@ func (r *HttpSSEResponse) Write(w http.ResponseWriter, mc path.MatchingContext)
 		return ErrNotHttp2Request
 	}
 
+	header := w.Header()
+	header.Set("Cache-Control", "no-cache")
+	header.Set("Connection", "keep-alive")
+
 	// write the headers
 	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {
 		return err
 	}
 
-	header := w.Header()
-	header.Set("Cache-Control", "no-cache")
-	header.Set("Connection", "keep-alive")
-
 	defer r.flushResponse(w)
 	// get the last event id that was sent
 	lastEventId := mc.R.Header.Get(headerLastEventId)
-- 
2.43.0


From 697e09d8a267176c1ef9e1f51838db11c91799d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:51 +0000
Subject: [PATCH 11/31] fix: capitalise error messages that start with a
 multi-byte letter

---
 response/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/response/json.go b/response/json.go
index 85a2a28..157873e 100644
--- a/response/json.go
+++ b/response/json.go
@@ -7,6 +7,7 @@ import (
 
 	"net/http"
 	"strings"
+	"unicode/utf8"
 )
 
 const jsonContentType = "application/json"
@@ -112,5 +113,6 @@ func errorToString(err error) string {
 		return ""
 	}
 	errMsg := err.Error()
-	return strings.ToUpper(errMsg[0:1]) + errMsg[1:]
+	_, firstLetterLen := utf8.DecodeRuneInString(errMsg)
+	return strings.ToUpper(errMsg[:firstLetterLen]) + errMsg[firstLetterLen:]
 }
-- 
2.43.0


From 6a1b058f7f26e4f943773f6166b21d836c3ad61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:02 +0000
Subject: [PATCH 12/31] fix: end an event stream when the client goes away
 while no event is generated

---
 response/sse.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index ddbcf40..034aa30 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -88,19 +88,21 @@ func (r *HttpSSEResponse) Write(w http.ResponseWriter, mc path.MatchingContext)
 	reqCtx := mc.R.Context()
 
 	// read and write the events
-	for evt := range r.EventGenerator(reqCtx, lastEventId) {
+	events := r.EventGenerator(reqCtx, lastEventId)
+	for {
 		select {
 		case <-reqCtx.Done():
 			return nil
-		default:
+		case evt, ok := <-events:
+			if !ok || reqCtx.Err() != nil {
+				return nil
+			}
 			if err := writeTextResponse(w, evt.String()); err != nil {
 				return nil
 			}
 			r.flushResponse(w)
 		}
 	}
-
-	return nil
 }
 
 func (r *HttpSSEResponse) flushResponse(w http.ResponseWriter) {
-- 
2.43.0


From a89a966c1233ae701aa69c59ac669655679b64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:05 +0000
Subject: [PATCH 13/31] fix: keep line breaks inside a server-sent event from
 ending the event or adding fields

---
 response/sse.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index 034aa30..43ab94b 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -15,6 +15,10 @@ const eventStreamContentType = "text/event-stream"
 
 var ErrNotHttp2Request = errors.New("rejected, not a HTTP/2 request")
 
+// a line break ends a field of an event, so it can't be part of a field value
+var sseLineBreakRemover = strings.NewReplacer("\r", "", "\n", "")
+var sseDataLineSplitter = strings.NewReplacer("\r\n", "\ndata: ", "\r", "\ndata: ", "\n", "\ndata: ")
+
 // ServerSentEvent defines the server-sent event fields. More about server-sent events can be found here: https://developer.mozilla.org/en-US/docs/Web/API/Server-sent_events/Using_server-sent_events
 type ServerSentEvent struct {
 	// A string identifying the type of event described
@@ -32,7 +36,7 @@ func (evt ServerSentEvent) String() string {
 	var sb strings.Builder
 	if evt.Name != "" {
 		sb.WriteString("event: ")
-		sb.WriteString(evt.Name)
+		sb.WriteString(sseLineBreakRemover.Replace(evt.Name))
 		startDataWithNewLine = true
 	}
 	for _, data := range evt.Data {
@@ -42,11 +46,12 @@ func (evt ServerSentEvent) String() string {
 		} else {
 			sb.WriteString("\ndata: ")
 		}
-		sb.WriteString(data)
+		// every line of a multi-line item has to be sent as a separate data line
+		sb.WriteString(sseDataLineSplitter.Replace(data))
 	}
 	if evt.Id != "" {
 		sb.WriteString("\nid: ")
-		sb.WriteString(evt.Id)
+		sb.WriteString(sseLineBreakRemover.Replace(evt.Id))
 	}
 	if evt.Retry > 0 {
 		sb.WriteString("\nretry: ")
-- 
2.43.0


From b0b353251e6833e60123f53b74bad7a12fac2494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:46 +0000
Subject: [PATCH 14/31] fix: ignore headers and cookies set on a response
 without header support

---
 response/response.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/response/response.go b/response/response.go
index 14c92b4..7cc3774 100644
--- a/response/response.go
+++ b/response/response.go
@@ -24,8 +24,11 @@ var httpHeadersPool = sync.Pool{
 // HttpHeaders is a map with custom headers
 type HttpHeaders map[string]string
 
+// Set adds or overwrites a header. A response that doesn't support headers (see HttpHijackConnectionResponse) has a nil map and ignores them
 func (h HttpHeaders) Set(key string, val string) {
-	h[key] = val
+	if h != nil {
+		h[key] = val
+	}
 }
 
 // Clear all the data from the map
@@ -55,7 +58,11 @@ var httpCookiesPool = sync.Pool{
 // HttpCookies is a map with custom cookies
 type HttpCookies map[string]*http.Cookie
 
+// Add adds or overwrites cookies. A response that doesn't support cookies (see HttpHijackConnectionResponse) has a nil map and ignores them
 func (c HttpCookies) Add(cookies ...*http.Cookie) {
+	if c == nil {
+		return
+	}
 	for i := 0; i < len(cookies); i++ {
 		cookie := cookies[i]
 		if cookie != nil {
-- 
2.43.0


From d1ef2f4bad083808bfd9ef1f33577cf481cbca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:49 +0000
Subject: [PATCH 15/31] fix: recognise the same origin when the request URL has
 a port

---
 middleware/cors.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index f59d445..35a1d58 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -301,12 +301,13 @@ func isSameOrigin(reqUrl *url.URL, origin string) bool {
 	}
 
 	scheme := strings.ToLower(reqUrl.Scheme)
+	port := reqUrl.Port()
 	var sb strings.Builder
 	sb.WriteString(scheme)
 	sb.WriteString("://")
-	sb.WriteString(reqUrl.Host)
+	// the host without port
+	sb.WriteString(strings.TrimSuffix(reqUrl.Host, ":"+port))
 
-	port := reqUrl.Port()
 	if port == "" {
 		if scheme == "https" || scheme == "wss" {
 			port = "443"
-- 
2.43.0


From 30bf42e15e7dcc8ddfd4493667a783eaeac19d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:49 +0000
Subject: [PATCH 16/31] fix: compress only responses with a body, once, and
 report what fails

---
 response/compress.go | 134 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 106 insertions(+), 28 deletions(-)

diff --git a/response/compress.go b/response/compress.go
index 9e3c587..6fb6afe 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -1,17 +1,22 @@
 package response
 
 import (
+	"bufio"
 	"compress/flate"
 	"compress/gzip"
 	"errors"
+	"fmt"
 	"github.com/ixtendio/gofre/router/path"
 
+	"io"
+	"net"
 	"net/http"
 	"strings"
 )
 
 const acceptEncodingHeaderName = "Accept-Encoding"
 const contentEncodingHeaderName = "Content-Encoding"
+const contentLengthHeaderName = "Content-Length"
 
 // HttpCompressResponse implements response.HttpResponse and provides gzip HTTP compression
 type HttpCompressResponse struct {
@@ -46,31 +51,20 @@ func (r *HttpCompressResponse) Cookies() HttpCookies {
 func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
 	// detect what compression algorithm to use
 	compressAlg := getCompressionAlgorithmFromHeaderValue(mc.R.Header.Get(acceptEncodingHeaderName))
+	if compressAlg == "" {
+		return r.httpResponse.Write(w, mc)
+	}
 
-	if compressAlg == "gzip" {
-		cw, err := gzip.NewWriterLevel(w, r.compressionLevel)
-		if err == nil {
-			delete(r.Headers(), acceptEncodingHeaderName)
-			w.Header().Set(contentEncodingHeaderName, compressAlg)
-			w = &compressResponseWriter{
-				origResponseWriter: w,
-				compressWriter:     cw,
-			}
-			defer cw.Close()
-		}
-	} else if compressAlg == "deflate" {
-		cw, err := flate.NewWriter(w, r.compressionLevel)
-		if err == nil {
-			delete(r.Headers(), acceptEncodingHeaderName)
-			w.Header().Set(contentEncodingHeaderName, compressAlg)
-			w = &compressResponseWriter{
-				origResponseWriter: w,
-				compressWriter:     cw,
-			}
-			defer cw.Close()
-		}
+	cw := &compressResponseWriter{
+		origResponseWriter: w,
+		compressAlg:        compressAlg,
+		compressionLevel:   r.compressionLevel,
+	}
+	err := r.httpResponse.Write(cw, mc)
+	if closeErr := cw.Close(); closeErr != nil && err == nil {
+		err = fmt.Errorf("failed to write the compressed response, err: %w", closeErr)
 	}
-	return r.httpResponse.Write(w, mc)
+	return err
 }
 
 func getCompressionAlgorithmFromHeaderValue(acceptEncodingHeaderNameVal string) string {
@@ -91,12 +85,18 @@ func getCompressionAlgorithmFromHeaderValue(acceptEncodingHeaderNameVal string)
 }
 
 type compressWriter interface {
-	Write(bytes []byte) (int, error)
+	io.WriteCloser
 	Flush() error
 }
 
+// compressResponseWriter is an http.ResponseWriter that compresses the response body.
+// The status code is kept until the first byte of the body is written (or flushed) because only then it is known if the response has a body to compress
 type compressResponseWriter struct {
 	origResponseWriter http.ResponseWriter
+	compressAlg        string
+	compressionLevel   int
+	statusCode         int
+	headerWritten      bool
 	compressWriter     compressWriter
 }
 
@@ -104,14 +104,92 @@ func (c *compressResponseWriter) Header() http.Header {
 	return c.origResponseWriter.Header()
 }
 
+func (c *compressResponseWriter) WriteHeader(statusCode int) {
+	if c.headerWritten {
+		c.origResponseWriter.WriteHeader(statusCode)
+	} else if statusCode >= 100 && statusCode < 200 && statusCode != http.StatusSwitchingProtocols {
+		// an informational response precedes the final one
+		c.origResponseWriter.WriteHeader(statusCode)
+	} else if c.statusCode == 0 {
+		c.statusCode = statusCode
+	}
+}
+
 func (c *compressResponseWriter) Write(bytes []byte) (int, error) {
+	if len(bytes) == 0 && !c.headerWritten {
+		c.WriteHeader(http.StatusOK)
+		return 0, nil
+	}
+	if err := c.start(bytes); err != nil {
+		return 0, err
+	}
+	if c.compressWriter == nil {
+		return c.origResponseWriter.Write(bytes)
+	}
 	return c.compressWriter.Write(bytes)
 }
 
-func (c *compressResponseWriter) WriteHeader(statusCode int) {
-	c.origResponseWriter.WriteHeader(statusCode)
+func (c *compressResponseWriter) Flush() {
+	flusher, ok := c.origResponseWriter.(http.Flusher)
+	if !ok || c.start(nil) != nil {
+		return
+	}
+	if c.compressWriter != nil && c.compressWriter.Flush() != nil {
+		return
+	}
+	flusher.Flush()
 }
 
-func (c *compressResponseWriter) Flush() {
-	c.compressWriter.Flush()
+// Hijack lets the caller take over the connection if the original writer supports it
+func (c *compressResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
+	hijacker, ok := c.origResponseWriter.(http.Hijacker)
+	if !ok {
+		return nil, nil, errors.New("the current http.ResponseWriter doesn't support hijack functionality")
+	}
+	return hijacker.Hijack()
+}
+
+// Close writes what was not written yet
+func (c *compressResponseWriter) Close() error {
+	if c.compressWriter != nil {
+		return c.compressWriter.Close()
+	}
+	if !c.headerWritten && c.statusCode != 0 {
+		// a response without body
+		c.headerWritten = true
+		c.origResponseWriter.WriteHeader(c.statusCode)
+	}
+	return nil
+}
+
+// start writes the response header, before the first bytes of the body, and decides if the body is compressed
+func (c *compressResponseWriter) start(firstBytes []byte) error {
+	if c.headerWritten {
+		return nil
+	}
+	c.headerWritten = true
+	if c.statusCode == 0 {
+		c.statusCode = http.StatusOK
+	}
+	header := c.Header()
+	withoutBody := c.statusCode == http.StatusSwitchingProtocols || c.statusCode == http.StatusNoContent || c.statusCode == http.StatusNotModified
+	if !withoutBody && len(header.Get(contentEncodingHeaderName)) == 0 {
+		var err error
+		if c.compressAlg == "gzip" {
+			c.compressWriter, err = gzip.NewWriterLevel(c.origResponseWriter, c.compressionLevel)
+		} else {
+			c.compressWriter, err = flate.NewWriter(c.origResponseWriter, c.compressionLevel)
+		}
+		if err != nil {
+			return err
+		}
+		if _, found := header[HeaderContentType]; !found && len(firstBytes) > 0 {
+			// the type of an encoded body can't be detected later
+			header.Set(HeaderContentType, http.DetectContentType(firstBytes))
+		}
+		header.Set(contentEncodingHeaderName, c.compressAlg)
+		header.Del(contentLengthHeaderName)
+	}
+	c.origResponseWriter.WriteHeader(c.statusCode)
+	return nil
 }
-- 
2.43.0


From 6662bfbd325b93ba99de08be6889bf65afbfb6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:46 +0000
Subject: [PATCH 17/31] fix: a derived mux may repeat its parent's path prefix

---
 gofre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gofre.go b/gofre.go
index a971934..1198e2c 100644
--- a/gofre.go
+++ b/gofre.go
@@ -164,7 +164,7 @@ func (m *MuxHandler) Clone() *MuxHandler {
 // RouteUsingPathPrefix creates a new MuxHandler that will inherit all the settings from the parent, excepting the path prefix which will be concatenated to the parent path prefix.
 // One important aspect to the new MuxHandler is that, the new added common middlewares will not be shared with the parent.
 func (m *MuxHandler) RouteUsingPathPrefix(pathPrefix string) *MuxHandler {
-	if len(pathPrefix) == 0 || pathPrefix == m.pathPrefix {
+	if len(pathPrefix) == 0 {
 		return m
 	}
 	return &MuxHandler{
-- 
2.43.0


From 06ab705a8d91c56690e85aec3ca7722d22a2dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:42 +0000
Subject: [PATCH 18/31] fix: a scope covers deeper scopes only with a trailing
 wildcard

---
 auth/auth.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/auth/auth.go b/auth/auth.go
index 44a5e4a..0db2097 100644
--- a/auth/auth.go
+++ b/auth/auth.go
@@ -95,6 +95,12 @@ func NewPermission(scope string, access Access) (Permission, error) {
 // Implies returns true if the current Permission implies anotherPermission
 // This function assumes that the scope of the Permission from the argument, does not contain the wildcard (*)
 func (p Permission) Implies(anotherPermission Permission) bool {
+	return p.Access&anotherPermission.Access == anotherPermission.Access && p.scopeCovers(anotherPermission)
+}
+
+// scopeCovers returns true if the scope of the current Permission covers, level by level, the scope of anotherPermission
+// A wildcard on the last level covers all the deeper levels too
+func (p Permission) scopeCovers(anotherPermission Permission) bool {
 	sep := string(ScopeSeparator)
 	pScopeParts := strings.Split(p.Scope, sep)
 	ipScopeParts := strings.Split(anotherPermission.Scope, sep)
@@ -102,20 +108,15 @@ func (p Permission) Implies(anotherPermission Permission) bool {
 		return false
 	}
 
-	if p.Access&anotherPermission.Access != anotherPermission.Access {
-		return false
-	}
-
 	var s string
-	var j int
 	for i := 0; i < len(ipScopeParts); i++ {
-		si := ipScopeParts[i]
-		if j < len(pScopeParts) {
-			s = pScopeParts[j]
-			j++
+		if i < len(pScopeParts) {
+			s = pScopeParts[i]
+		} else if s != "*" {
+			return false
 		}
 
-		if s != "*" && s != si {
+		if s != "*" && s != ipScopeParts[i] {
 			return false
 		}
 	}
-- 
2.43.0


From 86783fd198f335cf0dc3249b9a0461ace15e746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:04 +0000
Subject: [PATCH 19/31] fix: a denied permission refuses every request that
 includes it

---
 auth/auth.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/auth/auth.go b/auth/auth.go
index 0db2097..d3faa92 100644
--- a/auth/auth.go
+++ b/auth/auth.go
@@ -98,6 +98,11 @@ func (p Permission) Implies(anotherPermission Permission) bool {
 	return p.Access&anotherPermission.Access == anotherPermission.Access && p.scopeCovers(anotherPermission)
 }
 
+// overlaps returns true if the current Permission covers the scope of anotherPermission and at least one of its access rights
+func (p Permission) overlaps(anotherPermission Permission) bool {
+	return p.Implies(anotherPermission) || p.Access&anotherPermission.Access != 0 && p.scopeCovers(anotherPermission)
+}
+
 // scopeCovers returns true if the scope of the current Permission covers, level by level, the scope of anotherPermission
 // A wildcard on the last level covers all the deeper levels too
 func (p Permission) scopeCovers(anotherPermission Permission) bool {
@@ -139,7 +144,7 @@ type Role struct {
 // HasPermission returns true if the current Role has the Permission
 func (r Role) HasPermission(permission Permission) bool {
 	for i := 0; i < len(r.DeniedPermissions); i++ {
-		if r.DeniedPermissions[i].Implies(permission) {
+		if r.DeniedPermissions[i].overlaps(permission) {
 			return false
 		}
 	}
-- 
2.43.0


From 1a5455f50f1ea3d9d1302469dafed58b21ec32df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:24 +0000
Subject: [PATCH 20/31] fix: the CSRF nonce is read from form and query
 parameters

---
 middleware/csrf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/csrf.go b/middleware/csrf.go
index 8e9dc85..dead3c4 100644
--- a/middleware/csrf.go
+++ b/middleware/csrf.go
@@ -47,7 +47,7 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 			if !skipNonceCheck {
 				previousNonce := mc.R.Header.Get(csrfRestNonceHeaderName)
 				if previousNonce == "" {
-					previousNonce = mc.R.Form.Get(csrfNonceRequestParamName)
+					previousNonce = mc.R.FormValue(csrfNonceRequestParamName)
 				}
 				if previousNonce == "" || !nonceCache.Contains(previousNonce) {
 					return nil, errors.ErrAccessDenied
-- 
2.43.0


From 32dbb6dcc41c93f581a2e7e03f7f65100811b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:52 +0000
Subject: [PATCH 21/31] fix: an OAuth answer without token or identity is an
 error

---
 auth/oauth/github.go | 15 +++++++++++----
 auth/oauth/google.go | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 9eaac47..abc0a9e 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -83,9 +83,14 @@ func (p GitHubProvider) FetchAccessToken(ctx context.Context, redirectUri string
 	}
 
 	if resp.StatusCode/100 == 2 {
+		token, _ := result["access_token"].(string)
+		tokenType, _ := result["token_type"].(string)
+		if token == "" || tokenType == "" {
+			return AccessToken{}, fmt.Errorf("the OAUTH2 access token response from: %s does not include the access token or its type, err: %v", p.Name(), result["error"])
+		}
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if scope, ok := result["scope"].(string); ok {
@@ -124,10 +129,12 @@ func (p GitHubProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 	if resp.StatusCode/100 == 2 {
 		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
+		if email, ok := result["email"].(string); ok && email != "" {
 			id = email
+		} else if login, ok := result["login"].(string); ok && login != "" {
+			id = login
 		} else {
-			id = result["login"].(string)
+			return auth.User{}, fmt.Errorf("the user details response from: %s does not include the user identity", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index aadd90f..17afbbe 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -104,9 +104,14 @@ func (p GoogleProvider) FetchAccessToken(ctx context.Context, redirectUri string
 	}
 
 	if resp.StatusCode/100 == 2 {
+		token, _ := result["access_token"].(string)
+		tokenType, _ := result["token_type"].(string)
+		if token == "" || tokenType == "" {
+			return AccessToken{}, fmt.Errorf("the OAUTH2 access token response from: %s does not include the access token or its type, err: %v", p.Name(), result["error"])
+		}
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if refreshToken, ok := result["refresh_token"].(string); ok {
@@ -153,10 +158,12 @@ func (p GoogleProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 	if resp.StatusCode/100 == 2 {
 		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
+		if email, ok := result["email"].(string); ok && email != "" {
 			id = email
+		} else if userId, ok := result["id"].(string); ok && userId != "" {
+			id = userId
 		} else {
-			id = result["id"].(string)
+			return auth.User{}, fmt.Errorf("the user details response from: %s does not include the user identity", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
-- 
2.43.0


From 46816e7fb2282edcbdc849be0f4c461b68c93fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:55 +0000
Subject: [PATCH 22/31] fix: GitHub requests the user scope even without
 configured scopes

---
 auth/oauth/github.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index abc0a9e..662b041 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -53,7 +53,7 @@ func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUse
 	if p.Login != "" {
 		urlValues.Add("login", p.Login)
 	}
-	if len(p.Scopes) > 0 {
+	if len(scopes) > 0 {
 		urlValues.Add("scope", strings.Join(scopes, " "))
 	}
 	return GitHubAuthorizeEndpoint + "?" + urlValues.Encode()
-- 
2.43.0


From 591a1a740823ebc583de9fbe13acf9b7efce62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:57 +0000
Subject: [PATCH 23/31] fix: building the initiation URL does not write into
 the configured scopes

---
 auth/oauth/github.go | 3 ++-
 auth/oauth/google.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 662b041..fa6d674 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -42,7 +42,8 @@ func (p GitHubProvider) Name() string {
 func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
 	scopes := p.Scopes
 	if includeUserInfoProfileScope {
-		scopes = append(scopes, GitHubUserInfoProfileScopes...)
+		// the configured slice must not be changed
+		scopes = append(scopes[:len(scopes):len(scopes)], GitHubUserInfoProfileScopes...)
 	}
 	urlValues := url.Values{
 		"client_id":    {p.ClientId},
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index 17afbbe..211f73c 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -49,7 +49,8 @@ func (p GoogleProvider) InitiateUrl(redirectUri string, state string, includeUse
 	scopes := p.Scopes
 	if includeUserInfoProfileScope {
 		//openid email profile
-		scopes = append(scopes, GoogleUserInfoScopes...)
+		// the configured slice must not be changed
+		scopes = append(scopes[:len(scopes):len(scopes)], GoogleUserInfoScopes...)
 	}
 	urlValues := url.Values{
 		"client_id":              {p.ClientId},
-- 
2.43.0


From 5bf9b32cb98bff6cad6dbdc4961d3a8e0f46e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:59 +0000
Subject: [PATCH 24/31] fix: the GitHub code exchange announces its form body

---
 auth/oauth/github.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index fa6d674..c6c64cb 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -70,6 +70,7 @@ func (p GitHubProvider) FetchAccessToken(ctx context.Context, redirectUri string
 		return AccessToken{}, fmt.Errorf("failed to create the request to get the OAUTH2 access token from: %s, err: %w", p.Name(), err)
 	}
 
+	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
 	req.Header.Set("Accept", "application/json")
 	resp, err := HttpClient.Do(req)
 
-- 
2.43.0


From 809ea950e6fb861835bcbb5f6c988b0545e878a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:08 +0000
Subject: [PATCH 25/31] fix: guard the in-memory cache with a mutex

---
 cache/cache.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 75c262b..5606f98 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -1,6 +1,9 @@
 package cache
 
-import "time"
+import (
+	"sync"
+	"time"
+)
 
 // The Cache interface defines the methods that a cache implementation should have
 type Cache interface {
@@ -14,6 +17,7 @@ type Cache interface {
 
 // InMemory is a simple Cache implementation used for testing and examples
 type InMemory struct {
+	mu    sync.RWMutex
 	cache map[string]time.Time
 }
 
@@ -22,15 +26,21 @@ func NewInMemory() *InMemory {
 }
 
 func (i *InMemory) Add(key string, expiresIn time.Duration) error {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.cache[key] = time.Now().Add(expiresIn)
 	return nil
 }
 
 func (i *InMemory) Remove(key string) {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	delete(i.cache, key)
 }
 
 func (i *InMemory) Contains(key string) bool {
+	i.mu.RLock()
+	defer i.mu.RUnlock()
 	t, found := i.cache[key]
 	return found && time.Now().Before(t)
 }
-- 
2.43.0


From 9f8bc094a87259305bd9c19cbd59a0f8958408fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:56 +0000
Subject: [PATCH 26/31] fix: accept a CSRF nonce once also when requests
 present it concurrently

---
 middleware/csrf.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/middleware/csrf.go b/middleware/csrf.go
index dead3c4..1e2214f 100644
--- a/middleware/csrf.go
+++ b/middleware/csrf.go
@@ -12,6 +12,7 @@ import (
 	"github.com/ixtendio/gofre/response"
 	"net/http"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -49,10 +50,9 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 				if previousNonce == "" {
 					previousNonce = mc.R.FormValue(csrfNonceRequestParamName)
 				}
-				if previousNonce == "" || !nonceCache.Contains(previousNonce) {
+				if previousNonce == "" || !consumeNonce(nonceCache, previousNonce) {
 					return nil, errors.ErrAccessDenied
 				}
-				nonceCache.Remove(previousNonce)
 			}
 
 			newNonce, err := generateNonce()
@@ -68,6 +68,19 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 	}
 }
 
+// consumeNonceMutex makes looking up and removing a nonce one step, so that a nonce is accepted only once
+var consumeNonceMutex sync.Mutex
+
+func consumeNonce(nonceCache cache.Cache, nonce string) bool {
+	consumeNonceMutex.Lock()
+	defer consumeNonceMutex.Unlock()
+	if !nonceCache.Contains(nonce) {
+		return false
+	}
+	nonceCache.Remove(nonce)
+	return true
+}
+
 func generateNonce() (string, error) {
 	var sb strings.Builder
 
-- 
2.43.0


From 5a61e24abea8751f871155566321a04b8291439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:48 +0000
Subject: [PATCH 27/31] fix: compute the security header values once, not while
 requests are served

---
 middleware/security.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/middleware/security.go b/middleware/security.go
index 968f0ce..ab34ede 100644
--- a/middleware/security.go
+++ b/middleware/security.go
@@ -80,6 +80,9 @@ type SecurityHeadersConfig struct {
 
 // SecurityHeaders provides some security HTTP headers to the response
 func SecurityHeaders(config SecurityHeadersConfig) Middleware {
+	// the values are memoized in the configuration, that all the requests share: compute them before any request is served
+	stsHeaderValue := config.STS.getHeaderValue()
+	antiClickJackingHeaderValue := config.ClickJacking.getAntiClickJackingHeaderValue()
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
 			httpResponse, err := handler(ctx, mc)
@@ -90,12 +93,12 @@ func SecurityHeaders(config SecurityHeadersConfig) Middleware {
 			// HSTS
 			isRequestSecure := mc.R.TLS != nil || strings.ToLower(mc.R.URL.Scheme) == "https"
 			if config.STS.Enabled && isRequestSecure {
-				httpResponse.Headers().Set(stsHeaderName, config.STS.getHeaderValue())
+				httpResponse.Headers().Set(stsHeaderName, stsHeaderValue)
 			}
 
 			// anti click-jacking
 			if config.ClickJacking.Enabled {
-				httpResponse.Headers().Set(antiClickJackingHeaderName, config.ClickJacking.getAntiClickJackingHeaderValue())
+				httpResponse.Headers().Set(antiClickJackingHeaderName, antiClickJackingHeaderValue)
 			}
 
 			// Block content type sniffing
-- 
2.43.0


From 9785c9f330ca5bdd0b194038c1a4dee51b60c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 28/31] fix: a response releases its headers and cookies only
 once

---
 response/headers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/response/headers.go b/response/headers.go
index 1112725..50a8360 100644
--- a/response/headers.go
+++ b/response/headers.go
@@ -76,13 +76,15 @@ func (r *HttpHeadersResponse) writeHeadersAndCookies(w http.ResponseWriter) {
 	}
 }
 
-// release puts the headers and the cookies in the pool for further re-usage
+// release puts the headers and the cookies in the pool for further re-usage, after that they no longer belong to this response
 func (r *HttpHeadersResponse) release() {
 	if r.HttpHeaders != nil {
 		r.HttpHeaders.Release()
+		r.HttpHeaders = nil
 	}
 	if r.HttpCookies != nil {
 		r.HttpCookies.Release()
+		r.HttpCookies = nil
 	}
 }
 
-- 
2.43.0


From bb68689380253c4410f1523f7f99cab3f1b5e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:05 +0000
Subject: [PATCH 29/31] fix: a request from the server's own origin is not a
 cross-origin request

---
 middleware/cors.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index 35a1d58..43b71d9 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -247,7 +247,7 @@ func getRequestType(r *http.Request) corsRequestType {
 	originHeader := r.Header.Get(requestHeaderOrigin)
 	if !isValidOrigin(originHeader) {
 		return invalidCorsRequestType
-	} else if isSameOrigin(r.URL, originHeader) {
+	} else if isSameOrigin(getTargetUrl(r), originHeader) {
 		return notCorsRequestType
 	} else {
 		switch r.Method {
@@ -295,6 +295,19 @@ func isValidOrigin(origin string) bool {
 	return parse.Scheme != ""
 }
 
+// getTargetUrl returns the URL of the request. The URL of most of the server requests has only the path and the query,
+// the host is in the Host header (see http.Request)
+func getTargetUrl(r *http.Request) *url.URL {
+	if r.URL.Host != "" || r.Host == "" {
+		return r.URL
+	}
+	scheme := "http"
+	if r.TLS != nil {
+		scheme = "https"
+	}
+	return &url.URL{Scheme: scheme, Host: r.Host}
+}
+
 func isSameOrigin(reqUrl *url.URL, origin string) bool {
 	if reqUrl.Scheme == "" || reqUrl.Host == "" {
 		return false
-- 
2.43.0


From e3e9d8bbaa3389676607e46c5ae2268ae7c276bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 30/31] fix: the debug profiles are served below a path prefix
 too

---
 gofre.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gofre.go b/gofre.go
index 1198e2c..2a92493 100644
--- a/gofre.go
+++ b/gofre.go
@@ -320,12 +320,12 @@ func (m *MuxHandler) resolvePath(path string) string {
 func (m MuxHandler) EnableDebugEndpoints() {
 	// Register all the standard library debug endpoints.
 	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/allocs"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/block"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/goroutine"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/heap"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/mutex"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/threadcreate"), handler.HandlerFunc2Handler(pprof.Index))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/allocs"), handler.Handler2Handler(pprof.Handler("allocs")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/block"), handler.Handler2Handler(pprof.Handler("block")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/goroutine"), handler.Handler2Handler(pprof.Handler("goroutine")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/heap"), handler.Handler2Handler(pprof.Handler("heap")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/mutex"), handler.Handler2Handler(pprof.Handler("mutex")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/threadcreate"), handler.Handler2Handler(pprof.Handler("threadcreate")))
 	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/cmdline"), handler.HandlerFunc2Handler(pprof.Cmdline))
 	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/profile"), handler.HandlerFunc2Handler(pprof.Profile))
 	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/symbol"), handler.HandlerFunc2Handler(pprof.Symbol))
-- 
2.43.0


From 32f03afff79c1202e9ba1aa4951282b44503f827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:05 +0000
Subject: [PATCH 31/31] fix: OAuth states come from the cryptographic random
 source

---
 gofre.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gofre.go b/gofre.go
index 2a92493..153b77d 100644
--- a/gofre.go
+++ b/gofre.go
@@ -2,6 +2,7 @@ package gofre
 
 import (
 	"context"
+	"crypto/rand"
 	"expvar"
 	"fmt"
 	"github.com/ixtendio/gofre/auth"
@@ -15,7 +16,6 @@ import (
 	"github.com/ixtendio/gofre/router"
 	"html/template"
 	"log"
-	"math/rand"
 	"net/http"
 	"net/http/pprof"
 	"unsafe"
@@ -357,8 +357,12 @@ var uniqueIdFunc = generateUniqueId
 
 func generateUniqueId(length int) string {
 	b := make([]byte, length)
+	// the ids protect the OAUTH2 flow, so they have to be unpredictable
+	if _, err := rand.Read(b); err != nil {
+		panic(fmt.Errorf("failed to generate a unique id, err: %w", err))
+	}
 	for i := range b {
-		b[i] = randLetters[rand.Int63()%int64(len(randLetters))]
+		b[i] = randLetters[int(b[i])%len(randLetters)]
 	}
 	return *(*string)(unsafe.Pointer(&b))
 }
-- 
2.43.0

