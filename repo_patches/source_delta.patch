From b709851f7b9f915fe4c4718ec059a311a341bfb2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:31 +0000
Subject: [PATCH 01/36] fix: do not subscribe the empty filter for a pattern
 that cannot be translated

---
 filtering/subscriptions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index ddbdfa4..28281fc 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -129,6 +129,7 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 			pfs, err := tdt.MakePrefixFilterString(tf[0], fields)
 			if err != nil {
 				log.Print(err)
+				continue
 			}
 			bsub[pfs] = &PartialSubscription{
 				Offset:    0,
-- 
2.43.0


From 97b7a1108ca375f4acad2db241fd2ce3b029c5d2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 02/36] fix: accept the urn:epc:pat: prefix in any case, as the
 CSV loader does

---
 filtering/subscriptions.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index 28281fc..74a0376 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -121,7 +121,10 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 	bsub := ByteSubscriptions{}
 	for reportURI, patterns := range sub {
 		for _, pat := range patterns {
-			tf := strings.Split(strings.TrimPrefix(pat, "urn:epc:pat:"), ":")
+			if len(pat) >= len("urn:epc:pat:") && strings.EqualFold(pat[:len("urn:epc:pat:")], "urn:epc:pat:") {
+				pat = pat[len("urn:epc:pat:"):] // the prefix is case-insensitive as in LoadSubscriptionsFromCSVFile
+			}
+			tf := strings.Split(pat, ":")
 			if len(tf) != 2 { // should only containts a type and fields
 				continue
 			}
-- 
2.43.0


From 42e78207099c685b37c93b49e36400a824906b25 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:34 +0000
Subject: [PATCH 03/36] fix: PatriciaTrie reports a subscription that is the
 common prefix of all

---
 filtering/patricia_trie.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 85dfca7..e4958a2 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -438,6 +438,10 @@ func NewPatriciaTrie(sub Subscriptions) Engine {
 	}
 	pt.root = &PatriciaTrieNode{}
 	pt.root.filterObject = NewFilter(p1, 0)
+	// check if the common prefix itself is a subscription
+	if psub, ok := bsub[p1]; ok {
+		pt.root.reportURI = psub.ReportURI
+	}
 	pt.root.build(p1, bsub)
 
 	// initialize the tdt.Core
-- 
2.43.0


From 6ce87b149648b5659337b99d504bcc23c783c2e1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 04/36] fix: PatriciaTrie keeps the subtree when a broader
 filter is added

---
 filtering/patricia_trie.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index e4958a2..cf991fe 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -204,7 +204,14 @@ func (ptn *PatriciaTrieNode) add(fs string, reportURI string) {
 		ptn.reportURI = ""
 		currentOffset := ptn.filterObject.Offset
 		ptn.filterObject = NewFilter(newCommonPrefix, currentOffset)
-		if ncpLength >= len(fs) {
+		if ncpLength >= len(fs) { // fs is a prefix of the current filter
+			ptn.one, ptn.zero = nil, nil
+			if newNode.filterObject.String[0] == '1' {
+				ptn.one = newNode
+			} else {
+				ptn.zero = newNode
+			}
+			ptn.reportURI = reportURI
 			return
 		}
 		switch fs[ncpLength] {
-- 
2.43.0


From eaf6f52ca11b1484a0318b1e7583e77bbdd654c0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 05/36] fix: PatriciaTrie deletes the only subscription and
 nobody else's

---
 filtering/patricia_trie.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index cf991fe..e80f04c 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -321,7 +321,10 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 
 	// This is the filter to delete
 	if fs == ptn.filterObject.String {
-		if ptn.one != nil && ptn.zero != nil { // node in the middle
+		if ptn.reportURI != reportURI { // not the subscription to delete
+			return
+		}
+		if (ptn.one == nil) == (ptn.zero == nil) { // node in the middle or the only node
 			ptn.reportURI = ""
 		} else if ptn.one != nil { // has only one node
 			newFilter := NewFilter(ptn.filterObject.String+ptn.one.filterObject.String, ptn.filterObject.Offset)
@@ -345,7 +348,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 		case '1':
 			if ptn.one != nil {
 				if fs[ptn.filterObject.Size:] == ptn.one.filterObject.String &&
-					ptn.one.one == nil && ptn.one.zero == nil {
+					ptn.one.reportURI == reportURI && ptn.one.one == nil && ptn.one.zero == nil {
 					ptn.one = nil
 				} else {
 					ptn.one.delete(fs[ptn.filterObject.Size:], reportURI)
@@ -354,7 +357,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 		case '0':
 			if ptn.zero != nil {
 				if fs[ptn.filterObject.Size:] == ptn.zero.filterObject.String &&
-					ptn.zero.one == nil && ptn.zero.zero == nil {
+					ptn.zero.reportURI == reportURI && ptn.zero.one == nil && ptn.zero.zero == nil {
 					ptn.zero = nil
 				} else {
 					ptn.zero.delete(fs[ptn.filterObject.Size:], reportURI)
-- 
2.43.0


From 3f11a392a9c1fa051b235f0aa6164f8f98d27db2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:38 +0000
Subject: [PATCH 06/36] fix: PatriciaTrie restores the zero branch of a node

---
 filtering/patricia_trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index e80f04c..bc61060 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -171,7 +171,7 @@ func (ptn *PatriciaTrieNode) UnmarshalBinary(data []byte) (err error) {
 	if err = dec.Decode(&hasZero); err != nil {
 		return
 	}
-	if hasOne {
+	if hasZero {
 		err = dec.Decode(&ptn.zero)
 	} else {
 		ptn.zero = nil
-- 
2.43.0


From bbd460ac536431380e4c2875b8cbd31091e98a12 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 07/36] fix: an ID shorter than the filter is a mismatch, not a
 panic

---
 filtering/filter_object.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filtering/filter_object.go b/filtering/filter_object.go
index f047b0e..617d9ab 100644
--- a/filtering/filter_object.go
+++ b/filtering/filter_object.go
@@ -56,6 +56,9 @@ func (f *FilterObject) HasByteAt(bo int) bool {
 
 // Match returns true if the id is captured by this filter
 func (f *FilterObject) Match(id []byte) bool {
+	if len(id) < f.ByteOffset+f.ByteSize { // the id is shorter than the filter
+		return false
+	}
 	for i := 0; i < f.ByteSize; i++ {
 		if (id[f.ByteOffset+i]|f.ByteMask[i])^f.ByteFilter[i] != byte(0) {
 			return false
-- 
2.43.0


From aa7768b77aaac2689dc15733bae836ee78c9884b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:15 +0000
Subject: [PATCH 08/36] fix: SplayTree works without subscriptions and never
 reports an aggregation node

---
 filtering/splay_tree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 6e9b33a..75761e5 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -212,6 +212,9 @@ func (stn *SplayTreeNode) add(fs string, reportURI string) {
 func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 	current := stn
 	subscriptionSize := len(sub.Keys())
+	if subscriptionSize == 0 { // an aggregation node to add subscriptions to
+		current.filterObject = NewFilter("", 0)
+	}
 	for i, fs := range sub.Keys() {
 		current.filterObject = NewFilter(fs, sub[fs].Offset)
 		current.reportURI = sub[fs].ReportURI
@@ -319,7 +322,9 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
 	if stn.filterObject.Match(id) {
-		matches = append(matches, stn.reportURI)
+		if len(stn.reportURI) != 0 { // an aggregation node has no reportURI
+			matches = append(matches, stn.reportURI)
+		}
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets
 			matches = append(matches, stn.matchNext.splaySearch(st, nil, id)...)
-- 
2.43.0


From 97810c203599af9167d2e3750c3f577a08fda364 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 09/36] fix: SplayTree splays a subset to the head of its own
 level, not to the root

---
 filtering/splay_tree.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 75761e5..aa37b21 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -76,7 +76,7 @@ func (st *SplayTree) Name() string {
 
 // Search returns a pureIdentity of the llrp.ReadEvent if found any subscription without err
 func (st *SplayTree) Search(re llrp.ReadEvent) (pureIdentity string, reportURIs []string, err error) {
-	reportURIs = st.root.splaySearch(st, nil, re.ID)
+	reportURIs = st.root.splaySearch(&st.root, nil, re.ID)
 	if len(reportURIs) == 0 {
 		return pureIdentity, reportURIs, fmt.Errorf("no match found for %v", re.ID)
 	}
@@ -319,7 +319,7 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 	}
 }
 
-func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id []byte) []string {
+func (stn *SplayTreeNode) splaySearch(head **SplayTreeNode, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
 	if stn.filterObject.Match(id) {
 		if len(stn.reportURI) != 0 { // an aggregation node has no reportURI
@@ -327,21 +327,21 @@ func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id [
 		}
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets
-			matches = append(matches, stn.matchNext.splaySearch(st, nil, id)...)
+			matches = append(matches, stn.matchNext.splaySearch(&stn.matchNext, nil, id)...)
 		}
 		// Do Splay
 		// 0. Check if this is the root node, do nothing if so
 		if parent != nil {
 			// 1. Remove this node by connecting parent to the next mismatchNext node
 			parent.mismatchNext = stn.mismatchNext
-			// 2. Insert self to root
-			stn.mismatchNext = st.root
-			st.root = stn
+			// 2. Insert self to the head of this level
+			stn.mismatchNext = *head
+			*head = stn
 		}
 		return matches
 	}
 	if stn.mismatchNext != nil {
-		return stn.mismatchNext.splaySearch(st, stn, id)
+		return stn.mismatchNext.splaySearch(head, stn, id)
 	}
 	return matches
 }
-- 
2.43.0


From e15fe39a3d9191f8d7c7c8ca342b94c3a5b96ff6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:17 +0000
Subject: [PATCH 10/36] fix: SplayTree groups the existing subsets under a
 broader filter when added

---
 filtering/splay_tree.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index aa37b21..0ec6cb1 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -197,6 +197,25 @@ func (stn *SplayTreeNode) add(fs string, reportURI string) {
 				stn.matchNext.add(fs[stn.filterObject.Size:], reportURI)
 			}
 		}
+	} else if strings.HasPrefix(stn.filterObject.String, fs) { // fs is a superset of the current node
+		// make the current node the superset and move its old self to the matching branch
+		subset := &SplayTreeNode{reportURI: stn.reportURI, matchNext: stn.matchNext}
+		subset.filterObject = NewFilter(stn.filterObject.String[len(fs):], stn.filterObject.Offset+len(fs))
+		stn.filterObject = NewFilter(fs, stn.filterObject.Offset)
+		stn.reportURI = reportURI
+		stn.matchNext = subset
+		// move the other subsets from the mismatching branch as well
+		for prev := stn; prev.mismatchNext != nil; {
+			next := prev.mismatchNext
+			if !strings.HasPrefix(next.filterObject.String, fs) {
+				prev = next
+				continue
+			}
+			prev.mismatchNext = next.mismatchNext
+			next.filterObject = NewFilter(next.filterObject.String[len(fs):], next.filterObject.Offset+len(fs))
+			next.mismatchNext = stn.matchNext
+			stn.matchNext = next
+		}
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext == nil { // there's no mismatchNext node
 			stn.mismatchNext = &SplayTreeNode{}
-- 
2.43.0


From 843b0b47d372b44b2923135693a55e3f5441ff2c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 11/36] fix: SplayTree deletes the only subscription and nobody
 else's

---
 filtering/splay_tree.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 0ec6cb1..903870e 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -258,7 +258,11 @@ func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	if strings.HasPrefix(fs, stn.filterObject.String) { // fs \in stn.FilterObject.String
 		if fs == stn.filterObject.String { // this node is to delete
-			if stn.matchNext == nil && stn.mismatchNext == nil { // something wrong
+			if stn.reportURI != reportURI { // not the subscription to delete
+				return
+			}
+			if stn.matchNext == nil && stn.mismatchNext == nil { // the only node, keep it as an aggregation node
+				stn.reportURI = ""
 			} else if stn.matchNext != nil { // if there is subset, keep the node as an aggregation node
 				if stn.matchNext.mismatchNext != nil {
 					stn.reportURI = ""
@@ -276,7 +280,7 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 		} else { // it's a subset (matching branch) of the current node, and there's no matchNext node
 			if stn.matchNext != nil { // if there's a matchNext node
 				if fs[stn.filterObject.Size:] == stn.matchNext.filterObject.String &&
-					stn.matchNext.matchNext == nil && stn.matchNext.mismatchNext == nil { // the matchNext is to delete
+					stn.matchNext.reportURI == reportURI && stn.matchNext.matchNext == nil && stn.matchNext.mismatchNext == nil { // the matchNext is to delete
 					stn.matchNext = nil
 				} else {
 					stn.matchNext.delete(fs[stn.filterObject.Size:], reportURI)
@@ -286,7 +290,7 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext != nil { // there's a mismatchNext node
 			if fs == stn.mismatchNext.filterObject.String &&
-				stn.mismatchNext.matchNext == nil && stn.mismatchNext.mismatchNext == nil {
+				stn.mismatchNext.reportURI == reportURI && stn.mismatchNext.matchNext == nil && stn.mismatchNext.mismatchNext == nil {
 				stn.mismatchNext = nil
 			} else {
 				stn.mismatchNext.delete(fs, reportURI)
-- 
2.43.0


From 36103065bb66edb299d3dd6c30378d5a43184307 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:19 +0000
Subject: [PATCH 12/36] fix: LegacyEngine owns its subscriptions and updates
 several patterns at once correctly

---
 filtering/legacy_engine.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 9b65599..ea65a75 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -18,12 +18,12 @@ type LegacyEngine struct {
 
 // AddSubscription adds a set of subscriptions if not exists yet
 func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
-	for _, f := range sub.Keys() {
-		if reportURIs, ok := le.filters[f]; !ok {
-			le.filters[f] = sub[f]
+	for f, dests := range sub.Clone() {
+		if _, ok := le.filters[f]; !ok {
+			le.filters[f] = dests
 		} else {
-			for _, dest := range sub[f] {
-				if stringIndexInSlice(dest, reportURIs) < 0 {
+			for _, dest := range dests {
+				if stringIndexInSlice(dest, le.filters[f]) < 0 {
 					le.filters[f] = append(le.filters[f], dest)
 				}
 			}
@@ -34,12 +34,12 @@ func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 // DeleteSubscription deletes a set of subscriptions if already exist
 func (le *LegacyEngine) DeleteSubscription(sub Subscriptions) {
 	for _, f := range sub.Keys() {
-		if reportURIs, ok := le.filters[f]; !ok {
+		if _, ok := le.filters[f]; !ok {
 			continue
 		} else {
 			for _, dest := range sub[f] {
-				if i := stringIndexInSlice(dest, reportURIs); i > -1 {
-					le.filters[f] = append(reportURIs[:i], reportURIs[i+1:]...)
+				if i := stringIndexInSlice(dest, le.filters[f]); i > -1 {
+					le.filters[f] = append(le.filters[f][:i], le.filters[f][i+1:]...)
 				}
 			}
 			if len(le.filters[f]) == 0 {
-- 
2.43.0


From 4d86db479d28f5ac30cc5da6bebc73f0ac1e8f81 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 13/36] fix: LegacyEngine restores the saved subscriptions

---
 filtering/legacy_engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index ea65a75..2a974ef 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -152,6 +152,7 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 
+	le.filters = Subscriptions{}
 	for i := 0; i < legacyEngineSize; i++ {
 		var f string
 		// filter
@@ -163,12 +164,15 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 			return
 		}
 		var reportURIs []string
-		for j := 0; j < legacyEngineSize; j++ {
+		for j := 0; j < reportURIsSize; j++ {
 			// reportURI
 			var dest string
-			err = dec.Decode(&dest)
+			if err = dec.Decode(&dest); err != nil {
+				return
+			}
 			reportURIs = append(reportURIs, dest)
 		}
+		le.filters[f] = reportURIs
 	}
 
 	// tdt.Core
-- 
2.43.0


From bdc293ddcb08d7d9fd71d52bdcbb30c0233e5dc6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:03 +0000
Subject: [PATCH 14/36] fix: LegacyEngine matches whole fields, in any letter
 case, of known pattern types only

---
 filtering/legacy_engine.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 2a974ef..611a990 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -121,11 +121,19 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 				// remove filter value in tag uri to match with the received PureIdentity
 				pattern = "sscc:" + strings.Join(fields[1:], ".")
 			case "iso17363":
-				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
+				pattern = patternType + ":" + strings.ToUpper(strings.Replace(pattern, ".", "", -1))
 			case "iso17365":
-				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
+				pattern = patternType + ":" + strings.ToUpper(strings.Replace(pattern, ".", "", -1))
+			default: // unknown types match nothing
+				continue
 			}
-			if strings.HasPrefix(strings.TrimPrefix(pureIdentity, "urn:epc:id:"), pattern) {
+			identity := strings.TrimPrefix(pureIdentity, "urn:epc:id:")
+			if strings.HasPrefix(identity, pattern) {
+				// fields in an EPC pattern must match as a whole
+				if remainder := identity[len(pattern):]; len(remainder) != 0 && remainder[0] != '.' &&
+					!strings.HasPrefix(patternType, "iso") && !strings.HasSuffix(pattern, ":") {
+					continue
+				}
 				reportURIs = append(reportURIs, reportURI)
 			}
 		}
-- 
2.43.0


From e65f6bc2101b58eda4be26fb3923f4057b7afb54 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:04 +0000
Subject: [PATCH 15/36] fix: Translate returns an error for IDs which are not a
 valid 96-bit EPC instead of a panic or a malformed URN

---
 tdt/core.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/tdt/core.go b/tdt/core.go
index f4e3877..4074b31 100644
--- a/tdt/core.go
+++ b/tdt/core.go
@@ -15,6 +15,8 @@ import (
 	//"strconv"
 	"strings"
 	//"xml"
+
+	"github.com/iomz/go-llrp/binutil"
 )
 
 // Core is the TDT core
@@ -81,8 +83,33 @@ func (c *Core) Translate(pc []byte, id []byte) (string, error) {
 	return c.buildProprietary(id)
 }
 
+// checkEPC96 returns an error if the company prefix or the reference of the 96-bit EPC
+// doesn't fit in the number of digits given by its partition
+func checkEPC96(id []byte, pt PartitionTable, refBits PartitionTableKey, refDigits PartitionTableKey) error {
+	bits := binutil.ParseByteSliceToBinString(id)
+	partition := int((id[1] & 28) >> 2) // 28: 00011100
+	for cpLength, ptm := range pt {
+		if ptm[PValue] != partition {
+			continue
+		}
+		cp, _ := new(big.Int).SetString(bits[14:14+ptm[CPBits]], 2)
+		if len(cp.String()) > cpLength {
+			return fmt.Errorf("Invalid company prefix: %v", cp)
+		}
+		ref, _ := new(big.Int).SetString(bits[14+ptm[CPBits]:14+ptm[CPBits]+ptm[refBits]], 2)
+		if ptm[refDigits] != 0 && len(ref.String()) > ptm[refDigits] {
+			return fmt.Errorf("Invalid reference: %v", ref)
+		}
+		return nil
+	}
+	return fmt.Errorf("Invalid partition: %v", partition)
+}
+
 func (c *Core) buildEPC(id []byte) (string, error) {
 	urn := ""
+	if len(id) == 0 {
+		return "", errors.New("Invalid ID")
+	}
 
 	// EPC Header
 	switch id[0] {
@@ -90,6 +117,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 		if len(id) != 12 {
 			return "", errors.New("Invalid ID")
 		}
+		if err := checkEPC96(id, SGTIN96PartitionTable, IRBits, IRDigits); err != nil {
+			return "", err
+		}
 		urn = "urn:epc:id:sgtin:"
 		// FILTER
 		//urn += strconv.Itoa(int((id[1]&224)>>5)) + "." // 224: 11100000
@@ -266,6 +296,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 		if len(id) != 12 {
 			return "", errors.New("Invalid ID")
 		}
+		if err := checkEPC96(id, SSCC96PartitionTable, EBits, EDigits); err != nil {
+			return "", err
+		}
 		urn = "urn:epc:id:sscc:"
 		// FILTER
 		//urn += strconv.Itoa(int((id[1]&224)>>5)) + "." // 224: 11100000
@@ -437,6 +470,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 		if len(id) != 12 {
 			return "", errors.New("Invalid ID")
 		}
+		if err := checkEPC96(id, GRAI96PartitionTable, ATBits, ATDigits); err != nil {
+			return "", err
+		}
 		urn = "urn:epc:id:grai:"
 		// FILTER
 		//urn += strconv.Itoa(int((id[1]&224)>>5)) + "." // 224: 11100000
@@ -615,6 +651,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 		if len(id) != 12 {
 			return "", errors.New("Invalid ID")
 		}
+		if err := checkEPC96(id, GIAI96PartitionTable, IARBits, IARDigits); err != nil {
+			return "", err
+		}
 		urn = "urn:epc:id:giai:"
 		// FILTER
 		//urn += strconv.Itoa(int((id[1]&224)>>5)) + "." // 224: 11100000
@@ -796,6 +835,8 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			z.SetBytes(iar)
 			urn += z.String()
 		}
+	default:
+		return "", errors.New("unknown EPC header")
 	}
 	return urn, nil
 }
-- 
2.43.0


From ce07ac02620732a6a66a8a2609c84939c2f74dcd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:06 +0000
Subject: [PATCH 16/36] fix: compute the ISO 6346 check digit of an ISO 17363
 pattern from owner code, equipment category and serial

---
 tdt/iso.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdt/iso.go b/tdt/iso.go
index 496bb84..8fdd5bb 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -79,7 +79,7 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 	} else if 6 < len(csn) {
 		return "", fmt.Errorf("Invalid csn: %v", csn)
 	}
-	cd, err := getISO6346CD(fields[0] + fields[1] + csn)
+	cd, err := getISO6346CD(fields[1] + fields[2] + csn)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 5c972a008b64e74b6d630af47bbc711b95287b04 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:29 +0000
Subject: [PATCH 17/36] fix: refuse pattern fields which cannot be encoded
 instead of making a wrong prefix filter

---
 tdt/epc.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 tdt/iso.go | 17 +++++++++++++++++
 2 files changed, 65 insertions(+)

diff --git a/tdt/epc.go b/tdt/epc.go
index 7bc64d3..279129b 100644
--- a/tdt/epc.go
+++ b/tdt/epc.go
@@ -9,6 +9,7 @@ package tdt
 import (
 	"fmt"
 	"math"
+	"math/big"
 	"strconv"
 
 	"github.com/iomz/go-llrp/binutil"
@@ -78,6 +79,41 @@ var SSCC96PartitionTable = PartitionTable{
 	6:  {PValue: 6, CPBits: 20, EBits: 38, EDigits: 11},
 }
 
+// checkField returns an error if the field is not a decimal number
+// of at most maxDigits digits which fits in nBits
+func checkField(field string, maxDigits int, nBits int) error {
+	n, ok := new(big.Int).SetString(field, 10)
+	if !ok || field[0] == '+' || field[0] == '-' || len(field) > maxDigits || n.BitLen() > nBits {
+		return fmt.Errorf("wrong field: %q", field)
+	}
+	return nil
+}
+
+// checkFields validates filter, companyPrefix, reference and serial
+func checkFields(fields []string, pt PartitionTable, refDigits PartitionTableKey) error {
+	if len(fields) == 0 {
+		return fmt.Errorf("wrong fields: %q", fields)
+	}
+	if err := checkField(fields[0], 1, 3); err != nil || len(fields) == 1 {
+		return err
+	}
+	pr, ok := pt[len(fields[1])]
+	if !ok {
+		return fmt.Errorf("wrong companyPrefix: %q", fields[1])
+	}
+	if err := checkField(fields[1], len(fields[1]), pr[CPBits]); err != nil || len(fields) == 2 {
+		return err
+	}
+	maxDigits := pr[refDigits]
+	if maxDigits == 0 {
+		maxDigits = 1
+	}
+	if err := checkField(fields[2], maxDigits, 63); err != nil || len(fields) == 3 {
+		return err
+	}
+	return checkField(fields[3], 12, 38)
+}
+
 // getAssetType returns Asset Type as rune slice
 func getAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 	if at != "" {
@@ -178,6 +214,9 @@ func NewPrefixFilterGIAI96(fields []string) (string, error) {
 	if nFields == 0 {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
+	if err := checkFields(fields, GIAI96PartitionTable, IARDigits); err != nil {
+		return "", err
+	}
 
 	// filter
 	filter := getFilter(fields[0])
@@ -207,6 +246,9 @@ func NewPrefixFilterGRAI96(fields []string) (string, error) {
 	if nFields == 0 {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
+	if err := checkFields(fields, GRAI96PartitionTable, ATDigits); err != nil {
+		return "", err
+	}
 
 	// filter
 	filter := getFilter(fields[0])
@@ -242,6 +284,9 @@ func NewPrefixFilterSGTIN96(fields []string) (string, error) {
 	if nFields == 0 {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
+	if err := checkFields(fields, SGTIN96PartitionTable, IRDigits); err != nil {
+		return "", err
+	}
 
 	// filter
 	filter := getFilter(fields[0])
@@ -277,6 +322,9 @@ func NewPrefixFilterSSCC96(fields []string) (string, error) {
 	if nFields == 0 {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
+	if err := checkFields(fields, SSCC96PartitionTable, EDigits); err != nil {
+		return "", err
+	}
 
 	// filter
 	filter := getFilter(fields[0])
diff --git a/tdt/iso.go b/tdt/iso.go
index 8fdd5bb..d41da2a 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -27,6 +27,17 @@ func getISO6346CD(cn string) (int, error) {
 	return (int(n) - int(n/11)*11) % 10, nil
 }
 
+// check6BitFields returns an error if any field is empty
+// or contains a character which has no 6-bit encoding
+func check6BitFields(fields []string) error {
+	for _, field := range fields {
+		if field == "" || strings.IndexFunc(field, func(r rune) bool { return r < 32 || r > 95 }) >= 0 {
+			return fmt.Errorf("wrong field: %q", field)
+		}
+	}
+	return nil
+}
+
 // pad6BitEncodingRuneSlice returns a new length
 // and 16-bit (word-length) padded binary string in rune slice
 // @ISO15962
@@ -52,6 +63,9 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 	if nFields == 0 {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
+	if err := check6BitFields(fields); err != nil {
+		return "", err
+	}
 
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
@@ -98,6 +112,9 @@ func NewPrefixFilterISO17365(fields []string) (string, error) {
 	if nFields == 0 {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
+	if err := check6BitFields(fields); err != nil {
+		return "", err
+	}
 
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
-- 
2.43.0


From eec354772ae6d274c00857d5f5e5b002229eb6e4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:21 +0000
Subject: [PATCH 18/36] fix: refuse field values which cannot be encoded in a
 96-bit EPC

---
 scheme/epc.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/scheme/epc.go b/scheme/epc.go
index ec0b336..c6f40fd 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"math"
+	"math/big"
 	"strconv"
 
 	"github.com/iomz/go-llrp/binutil"
@@ -74,6 +75,41 @@ var SSCC96PartitionTable = PartitionTable{
 	6:  {PValue: 6, CPBits: 20, EBits: 38, EDigits: 11},
 }
 
+// checkField returns an error if the field is neither blank nor a decimal number
+// of at most maxDigits digits which fits in nBits
+func checkField(field string, maxDigits int, nBits int) error {
+	if field == "" {
+		return nil
+	}
+	n, ok := new(big.Int).SetString(field, 10)
+	if !ok || field[0] == '+' || field[0] == '-' || len(field) > maxDigits || n.BitLen() > nBits {
+		return fmt.Errorf("wrong field: %q", field)
+	}
+	return nil
+}
+
+// checkFields validates filter, companyPrefix, reference and serial
+func checkFields(pt PartitionTable, refDigits PartitionTableKey, fv string, cp string, ref string, ser string) error {
+	if err := checkField(fv, 1, 3); err != nil || cp == "" {
+		return err
+	}
+	pr, ok := pt[len(cp)]
+	if !ok {
+		return fmt.Errorf("wrong companyPrefix: %q", cp)
+	}
+	if err := checkField(cp, len(cp), pr[CPBits]); err != nil {
+		return err
+	}
+	maxDigits := pr[refDigits]
+	if maxDigits == 0 {
+		maxDigits = 1
+	}
+	if err := checkField(ref, maxDigits, 63); err != nil {
+		return err
+	}
+	return checkField(ser, 12, 38)
+}
+
 // GetAssetType returns Asset Type as rune slice
 func GetAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 	if at != "" {
@@ -171,6 +207,9 @@ func GetSerial(s string, serialLength int) (serial []rune) {
 
 // MakeGIAI96 generates GIAI-96
 func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, string, error) {
+	if err := checkFields(GIAI96PartitionTable, IARDigits, fv, cp, iar, ""); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 	if fv == "" {
 		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
@@ -232,6 +271,9 @@ func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, stri
 
 // MakeGRAI96 generates GRAI-96
 func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, string, string, error) {
+	if err := checkFields(GRAI96PartitionTable, ATDigits, fv, cp, at, ser); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 
 	//CP
@@ -299,6 +341,9 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 
 // MakeSGTIN96 generates SGTIN-96
 func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte, string, string, error) {
+	if err := checkFields(SGTIN96PartitionTable, IRDigits, fv, cp, ir, ser); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 	// CP
 	if cp == "" {
@@ -365,6 +410,9 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 
 // MakeSSCC96 generates SSCC-96
 func MakeSSCC96(pf bool, fv string, cp string, ext string) ([]byte, string, string, error) {
+	if err := checkFields(SSCC96PartitionTable, EDigits, fv, cp, ext, ""); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 	// CP
 	if cp == "" {
-- 
2.43.0


From a5d6d52fdcd572c98bb1c9b5fd239f4e0dc5dca2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:22 +0000
Subject: [PATCH 19/36] fix: a random reference has no more digits than its
 partition allows

---
 scheme/epc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheme/epc.go b/scheme/epc.go
index c6f40fd..af161fb 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -119,7 +119,7 @@ func GetAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 			assetType = append(leftPadding, assetType...)
 		}
 	} else {
-		assetType, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[ATBits], uint(math.Pow(float64(10), float64(pr[ATDigits]))))
+		assetType, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[ATBits], uint(math.Pow(float64(10), float64(pr[ATDigits])))-1)
 	}
 	return
 }
@@ -145,7 +145,7 @@ func GetExtension(e string, pr map[PartitionTableKey]int) (extension []rune) {
 			extension = append(leftPadding, extension...)
 		}
 	} else {
-		extension, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[EBits], uint(math.Pow(float64(10), float64(pr[EDigits]))))
+		extension, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[EBits], uint(math.Pow(float64(10), float64(pr[EDigits])))-1)
 	}
 	return
 }
@@ -186,7 +186,7 @@ func GetItemReference(ir string, pr map[PartitionTableKey]int) (itemReference []
 			itemReference = append(leftPadding, itemReference...)
 		}
 	} else {
-		itemReference, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[IRBits], uint(math.Pow(float64(10), float64(pr[IRDigits]))))
+		itemReference, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[IRBits], uint(math.Pow(float64(10), float64(pr[IRDigits])))-1)
 	}
 	return
 }
-- 
2.43.0


From 6a94c2c37a4fab2f716ed2a0c74ea9f45f135938 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 20/36] fix: EngineFactory no longer consumes the messages it
 sends to the main channel

---
 filtering/engine_factory.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 0bf2319..6828748 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -84,9 +84,9 @@ func NewEngineFactory(sub Subscriptions, statInterval int, mc chan ManagementMes
 // Run starts the engine factory to react with the ManagementChannel
 func (ef *EngineFactory) Run() {
 	log.Println("[EngineFactory] start running")
-	// set channels from EngineGenerators + main
-	cases := make([]reflect.SelectCase, len(ef.generatorChannels)+1)
-	for i, ch := range append(ef.generatorChannels, ef.mainChannel) {
+	// set channels from EngineGenerators, the mainChannel is for the consumer to receive from
+	cases := make([]reflect.SelectCase, len(ef.generatorChannels))
+	for i, ch := range ef.generatorChannels {
 		cases[i] = reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}
 	}
 	go func() {
-- 
2.43.0


From f7fa970fe7c9bdfab97e1c1a11446e193a9ac43e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 21/36] fix: no data race on the current engine's name of
 EngineFactory

---
 filtering/engine_factory.go | 40 ++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 6828748..b9bd2a8 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -10,6 +10,7 @@ import (
 	"log"
 	"reflect"
 	"sync"
+	"sync/atomic"
 	"time"
 	"unsafe"
 
@@ -24,26 +25,33 @@ type EngineFactory struct {
 	productionSystem     map[string]*EngineGenerator
 	deploymentPriority   map[string]uint8
 	enginePerformance    sync.Map
-	currentEngineName    string
+	currentEngineName    atomic.Value // string
 	statInterval         int
 }
 
 // IsActive returns false if no engine is available
 func (ef *EngineFactory) IsActive() bool {
-	if len(ef.currentEngineName) == 0 {
+	if len(ef.currentEngine()) == 0 {
 		return false
 	}
 	return true
 }
 
+// currentEngine returns the name of the current engine, or "" if no engine is available
+func (ef *EngineFactory) currentEngine() string {
+	name, _ := ef.currentEngineName.Load().(string)
+	return name
+}
+
 // Search is a wrapper for Search() with the current EngineGenerator
 func (ef *EngineFactory) Search(re llrp.ReadEvent) (string, []string, error) {
+	currentEngineName := ef.currentEngine()
 	for name, eg := range ef.productionSystem {
-		if name != ef.currentEngineName && eg.FSM.Is("ready") {
+		if name != currentEngineName && eg.FSM.Is("ready") {
 			_, _, _ = eg.Search(re)
 		}
 	}
-	return ef.productionSystem[ef.currentEngineName].Search(re)
+	return ef.productionSystem[currentEngineName].Search(re)
 }
 
 // NewEngineFactory returns the pointer to a new EngineFactory instance
@@ -104,13 +112,13 @@ func (ef *EngineFactory) Run() {
 					}
 					return true
 				})
-				if ef.currentEngineName != ename && len(ename) != 0 {
-					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.currentEngineName)
-					ef.currentEngineName = ename
+				if ef.currentEngine() != ename && len(ename) != 0 {
+					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.currentEngine())
+					ef.currentEngineName.Store(ename)
 				}
 				ef.mainChannel <- ManagementMessage{
 					Type:       SelectedEngine,
-					EngineName: ef.currentEngineName,
+					EngineName: ef.currentEngine(),
 				}
 			}
 		}
@@ -165,25 +173,25 @@ func (ef *EngineFactory) Run() {
 				*/
 			case OnEngineGenerated:
 				log.Printf("[EngineFactory] received OnEngineGenerated from %s", msg.EngineGeneratorInstance.Engine.Name())
-				if len(ef.currentEngineName) == 0 {
+				if len(ef.currentEngine()) == 0 {
 					log.Printf("[EngineFactory] set %s as an initial engine", msg.EngineGeneratorInstance.Name)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
+					ef.currentEngineName.Store(msg.EngineGeneratorInstance.Name)
 					ef.mainChannel <- ManagementMessage{
 						Type:       SelectedEngine,
-						EngineName: ef.currentEngineName,
+						EngineName: ef.currentEngine(),
 					}
 					continue
 				}
-				if ef.deploymentPriority[ef.currentEngineName] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
-					log.Printf("[EngineFactory] %s replaces the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngineName)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
+				if ef.deploymentPriority[ef.currentEngine()] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
+					log.Printf("[EngineFactory] %s replaces the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngine())
+					ef.currentEngineName.Store(msg.EngineGeneratorInstance.Name)
 					ef.mainChannel <- ManagementMessage{
 						Type:       SelectedEngine,
-						EngineName: ef.currentEngineName,
+						EngineName: ef.currentEngine(),
 					}
 					continue
 				}
-				log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngineName)
+				log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngine())
 			case TrafficStatus:
 				ef.mainChannel <- msg // bypass the status message from generators to main
 			case EngineStatus:
-- 
2.43.0


From dcc105cddce88de3c9f787902472e71523cc1fa3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:44 +0000
Subject: [PATCH 22/36] fix: EngineFactory does not announce an engine before
 one is available

---
 filtering/engine_factory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index b9bd2a8..953102c 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -116,6 +116,9 @@ func (ef *EngineFactory) Run() {
 					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.currentEngine())
 					ef.currentEngineName.Store(ename)
 				}
+				if !ef.IsActive() {
+					continue // no engine to announce yet
+				}
 				ef.mainChannel <- ManagementMessage{
 					Type:       SelectedEngine,
 					EngineName: ef.currentEngine(),
-- 
2.43.0


From 76693ebc43f984a9dc9000823788e693cf2c9260 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 23/36] fix: EngineGenerator counts an event and its match in
 the same interval

---
 filtering/engine.go           |  6 ------
 filtering/engine_generator.go | 24 ++++++++++++++++--------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/filtering/engine.go b/filtering/engine.go
index 1f6ab42..2930edb 100644
--- a/filtering/engine.go
+++ b/filtering/engine.go
@@ -8,7 +8,6 @@ package filtering
 import (
 	"fmt"
 	"log"
-	"time"
 
 	"github.com/iomz/go-llrp"
 )
@@ -40,11 +39,6 @@ var AvailableEngines = Engines{
 }
 
 /* internal helper func */
-// timeTrack measures the time it taken from the start
-func timeTrack(start time.Time, tpech chan time.Duration) {
-	tpech <- time.Since(start)
-}
-
 // findPartialLCP discovers the the commonPrefix of which the majority share
 // reutrns the prefix and the size of the majority in len(l)
 func findPartialLCP(l []string) (string, int) {
diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index 77f0d4b..4ccf46d 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -23,7 +23,7 @@ type EngineGenerator struct {
 	Name                string
 	Engine              Engine
 	managementChannel   chan ManagementMessage
-	timePerEventChannel chan time.Duration
+	timePerEventChannel chan eventStat
 	totalTime           int64
 	CurrentThroughput   float64
 	EventCount          int64
@@ -31,6 +31,12 @@ type EngineGenerator struct {
 	statInterval        int
 }
 
+// eventStat is what the throughput monitor needs to know about a searched event
+type eventStat struct {
+	elapsed time.Duration
+	matched bool
+}
+
 // NewEngineGenerator returns the pointer to a new EngineGenerator instance
 func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc chan ManagementMessage) *EngineGenerator {
 	eg := &EngineGenerator{
@@ -64,7 +70,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 		},
 	)
 
-	eg.timePerEventChannel = make(chan time.Duration)
+	eg.timePerEventChannel = make(chan eventStat)
 	go func() {
 		intervalTicker := time.NewTicker(time.Duration(eg.statInterval) * time.Second)
 
@@ -74,9 +80,12 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 				if !ok {
 					log.Fatalf("throughput monitor in EngingGenerator[%s] died", eg.Name)
 				}
-				//log.Printf("[EngineGenerator] %s: %v us/event", eg.Name, t.Nanoseconds())
-				eg.totalTime += t.Nanoseconds() / 1000 // microseconds
+				//log.Printf("[EngineGenerator] %s: %v us/event", eg.Name, t.elapsed.Nanoseconds())
+				eg.totalTime += t.elapsed.Nanoseconds() / 1000 // microseconds
 				eg.EventCount++
+				if t.matched {
+					eg.MatchedCount++
+				}
 			case <-intervalTicker.C:
 				//log.Printf("%v, %v, %v", eg.Name, eg.EventCount, eg.MatchedCount)
 				eg.managementChannel <- ManagementMessage{
@@ -106,11 +115,10 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 
 // Search do search in the generated engine
 func (eg *EngineGenerator) Search(re llrp.ReadEvent) (string, []string, error) {
-	defer timeTrack(time.Now(), eg.timePerEventChannel)
+	start := time.Now()
 	pureIdentity, reportURIs, err := eg.Engine.Search(re)
-	if len(reportURIs) != 0 {
-		eg.MatchedCount++
-	}
+	// let the monitor count the event and its match together
+	eg.timePerEventChannel <- eventStat{time.Since(start), len(reportURIs) != 0}
 	return pureIdentity, reportURIs, err
 }
 
-- 
2.43.0


From 8f8cb59e9c628ac7e001cf175e0502b4b7b5ed09 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 24/36] fix: the throughput of an engine faster than 1us per
 event is not infinite

---
 filtering/engine_generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index 4ccf46d..b351038 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -81,7 +81,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					log.Fatalf("throughput monitor in EngingGenerator[%s] died", eg.Name)
 				}
 				//log.Printf("[EngineGenerator] %s: %v us/event", eg.Name, t.elapsed.Nanoseconds())
-				eg.totalTime += t.elapsed.Nanoseconds() / 1000 // microseconds
+				eg.totalTime += t.elapsed.Nanoseconds()
 				eg.EventCount++
 				if t.matched {
 					eg.MatchedCount++
@@ -94,8 +94,8 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					EventCount:   eg.EventCount,
 					MatchedCount: eg.MatchedCount,
 				}
-				throughput := float64(eg.EventCount) / float64(eg.totalTime)
-				if throughput != 0 && !math.IsNaN(throughput) {
+				throughput := float64(eg.EventCount) / (float64(eg.totalTime) / 1000) // events per microsecond
+				if throughput != 0 && !math.IsNaN(throughput) && !math.IsInf(throughput, 0) {
 					eg.CurrentThroughput = throughput
 					eg.managementChannel <- ManagementMessage{
 						Type:              EngineStatus,
-- 
2.43.0


From a2b270a9eea26bb7a3d8b2a32aa0555e5281ce72 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 25/36] fix: StatManager writes every point once

---
 monitoring/stat_manager.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/monitoring/stat_manager.go b/monitoring/stat_manager.go
index acfbe27..c4d87de 100644
--- a/monitoring/stat_manager.go
+++ b/monitoring/stat_manager.go
@@ -101,6 +101,15 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 			if err := c.Write(bp); err != nil {
 				log.Fatal(err)
 			}
+
+			// start a new batch not to write the point again
+			bp, err = client.NewBatchPoints(client.BatchPointsConfig{
+				Database:  db,
+				Precision: "ns",
+			})
+			if err != nil {
+				log.Fatal(err)
+			}
 		}
 		// close client resources
 		if err := c.Close(); err != nil {
-- 
2.43.0


From bfbaba1cbfb84097def4c6feff015a36a0828099 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 26/36] fix: gosstrak-fc uses the message ID given by
 --initialMessageID

---
 cmd/gosstrak-fc/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index ff9734e..5d1097d 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -103,7 +103,7 @@ var (
 	cmdStart = app.Command("start", "Start the gosstrak-fc.")
 
 	// Current messageID
-	currentMessageID = uint32(*llrpInitialMessageID)
+	currentMessageID uint32
 )
 
 func getPackagePath() string {
@@ -306,6 +306,7 @@ func run() {
 func main() {
 	app.Version(version)
 	parse := kingpin.MustParse(app.Parse(os.Args[1:]))
+	currentMessageID = uint32(*llrpInitialMessageID)
 
 	// Create cache directory if not exists
 	// TODO: set OS specific dataCacheDir
-- 
2.43.0


From a208aa63f0c435e5029ce49facc3959a0c0e7ea7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 27/36] fix: gosstrak-fc does not read 4GiB for a message
 shorter than its header

---
 cmd/gosstrak-fc/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index 5d1097d..7d42bf8 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -274,6 +274,9 @@ func run() {
 		// length containts the size of the entire message in octets
 		// starting from bit offset 0, hence, the message size is
 		// length - 10 bytes
+		if l := binary.BigEndian.Uint32(length); l < 10 {
+			log.Fatalf("Invalid LLRP Message Length: %v\n", l)
+		}
 		var messageValue []byte
 		if messageSize := binary.BigEndian.Uint32(length) - 10; messageSize != 0 {
 			messageValue = make([]byte, binary.BigEndian.Uint32(length)-10)
-- 
2.43.0


From 42d2231b6c949ae0124e9b4a0757e54c7d715e23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:59 +0000
Subject: [PATCH 28/36] fix: no ISO 6346 check digit for characters which have
 no ISO 6346 value

---
 scheme/iso.go | 6 +++++-
 tdt/iso.go    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/scheme/iso.go b/scheme/iso.go
index edfb2f1..fdadfd6 100644
--- a/scheme/iso.go
+++ b/scheme/iso.go
@@ -19,7 +19,11 @@ func GetISO6346CD(cn string) (int, error) {
 	d := 0.5
 	for i := 0; i < 10; i++ {
 		d *= 2
-		n += d * float64(strings.Index("0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ", string(cn[i])))
+		v := strings.Index("0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ", string(cn[i]))
+		if v < 0 || cn[i] == '?' {
+			return 0, errors.New("Invalid ISO6346 code provided")
+		}
+		n += d * float64(v)
 	}
 	return (int(n) - int(n/11)*11) % 10, nil
 }
diff --git a/tdt/iso.go b/tdt/iso.go
index d41da2a..7d36fca 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -22,7 +22,11 @@ func getISO6346CD(cn string) (int, error) {
 	d := 0.5
 	for i := 0; i < 10; i++ {
 		d *= 2
-		n += d * float64(strings.Index("0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ", string(cn[i])))
+		v := strings.Index("0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ", string(cn[i]))
+		if v < 0 || cn[i] == '?' {
+			return 0, fmt.Errorf("Invalid ISO6346 code provided: %v", cn)
+		}
+		n += d * float64(v)
 	}
 	return (int(n) - int(n/11)*11) % 10, nil
 }
-- 
2.43.0


From 957f9104d9757b4818eeb07118a615129d269b7c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:59 +0000
Subject: [PATCH 29/36] fix: refuse field values which cannot be encoded in an
 ISO UII

---
 scheme/iso.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/scheme/iso.go b/scheme/iso.go
index fdadfd6..78b3a7c 100644
--- a/scheme/iso.go
+++ b/scheme/iso.go
@@ -28,8 +28,29 @@ func GetISO6346CD(cn string) (int, error) {
 	return (int(n) - int(n/11)*11) % 10, nil
 }
 
+// check6BitFields returns an error if any field contains a character which has no 6-bit encoding
+func check6BitFields(fields ...string) error {
+	for _, field := range fields {
+		if strings.IndexFunc(field, func(r rune) bool { return r < 32 || r > 95 }) >= 0 {
+			return fmt.Errorf("wrong field: %q", field)
+		}
+	}
+	return nil
+}
+
+// checkLength returns an error if the length in bits can't be expressed in PC bits
+func checkLength(length int) error {
+	if length/16 > 31 {
+		return fmt.Errorf("too long: %v bits", length)
+	}
+	return nil
+}
+
 // MakeISO17363 generates a random 17363 code
 func MakeISO17363(pf bool, oc string, ei string, csn string) ([]byte, int, string, string, error) {
+	if err := check6BitFields(oc, ei, csn); err != nil {
+		return []byte{}, 0, "", "", err
+	}
 	di := "7B"
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(di))
 
@@ -93,6 +114,12 @@ func MakeISO17363(pf bool, oc string, ei string, csn string) ([]byte, int, strin
 
 // MakeISO17365 generates a random 17367 code
 func MakeISO17365(pf bool, di string, iac string, cin string, sn string) ([]byte, int, string, string, error) {
+	if err := check6BitFields(di, iac, cin, sn); err != nil {
+		return []byte{}, 0, "", "", err
+	}
+	if di == "" {
+		return []byte{}, 0, "", "", errors.New("DI not provided")
+	}
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(di))
 
 	// IAC
@@ -133,6 +160,9 @@ func MakeISO17365(pf bool, di string, iac string, cin string, sn string) ([]byte
 
 	var length int
 	bs, length = Pad6BitEncodingRuneSlice(bs)
+	if err := checkLength(length); err != nil {
+		return []byte{}, 0, "", "", err
+	}
 
 	p, err := binutil.ParseBinRuneSliceToUint8Slice(bs)
 	if err != nil {
-- 
2.43.0


From 97cc1ba753bff17c713ee42a85eda4a9d681207e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 30/36] fix: the pattern of a random filter value names it

---
 scheme/epc.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scheme/epc.go b/scheme/epc.go
index af161fb..65cc836 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -275,6 +275,9 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 		return []byte{}, "", "", err
 	}
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 
 	//CP
 	if cp == "" {
@@ -345,6 +348,9 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 		return []byte{}, "", "", err
 	}
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 	// CP
 	if cp == "" {
 		if pf {
@@ -414,6 +420,9 @@ func MakeSSCC96(pf bool, fv string, cp string, ext string) ([]byte, string, stri
 		return []byte{}, "", "", err
 	}
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 	// CP
 	if cp == "" {
 		if pf {
-- 
2.43.0


From 4cc77f9403e5b1e5eb9083b84402d2b64c45d02c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:16 +0000
Subject: [PATCH 31/36] fix: no ISO pattern can name a field with a separator

---
 scheme/iso.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/scheme/iso.go b/scheme/iso.go
index 78b3a7c..7673703 100644
--- a/scheme/iso.go
+++ b/scheme/iso.go
@@ -38,6 +38,16 @@ func check6BitFields(fields ...string) error {
 	return nil
 }
 
+// checkPatternFields returns an error if any field contains a separator of the fields in a pattern
+func checkPatternFields(fields ...string) error {
+	for _, field := range fields {
+		if strings.ContainsAny(field, ".:") {
+			return fmt.Errorf("wrong field: %q", field)
+		}
+	}
+	return nil
+}
+
 // checkLength returns an error if the length in bits can't be expressed in PC bits
 func checkLength(length int) error {
 	if length/16 > 31 {
@@ -51,6 +61,11 @@ func MakeISO17363(pf bool, oc string, ei string, csn string) ([]byte, int, strin
 	if err := check6BitFields(oc, ei, csn); err != nil {
 		return []byte{}, 0, "", "", err
 	}
+	if pf {
+		if err := checkPatternFields(oc, ei, csn); err != nil {
+			return []byte{}, 0, "", "", err
+		}
+	}
 	di := "7B"
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(di))
 
@@ -117,6 +132,11 @@ func MakeISO17365(pf bool, di string, iac string, cin string, sn string) ([]byte
 	if err := check6BitFields(di, iac, cin, sn); err != nil {
 		return []byte{}, 0, "", "", err
 	}
+	if pf {
+		if err := checkPatternFields(di, iac, cin, sn); err != nil {
+			return []byte{}, 0, "", "", err
+		}
+	}
 	if di == "" {
 		return []byte{}, 0, "", "", errors.New("DI not provided")
 	}
-- 
2.43.0


From fd003547114116cca34bd610cb94a0d9d8cef567 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:35 +0000
Subject: [PATCH 32/36] fix: a subscription listed twice is one subscription of
 the legacy engine

---
 filtering/legacy_engine.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 611a990..5d472bd 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -20,12 +20,11 @@ type LegacyEngine struct {
 func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 	for f, dests := range sub.Clone() {
 		if _, ok := le.filters[f]; !ok {
-			le.filters[f] = dests
-		} else {
-			for _, dest := range dests {
-				if stringIndexInSlice(dest, le.filters[f]) < 0 {
-					le.filters[f] = append(le.filters[f], dest)
-				}
+			le.filters[f] = []string{}
+		}
+		for _, dest := range dests {
+			if stringIndexInSlice(dest, le.filters[f]) < 0 {
+				le.filters[f] = append(le.filters[f], dest)
 			}
 		}
 	}
@@ -195,7 +194,8 @@ func NewLegacyEngine(sub Subscriptions) Engine {
 	le := &LegacyEngine{}
 
 	// load up the subscriptions
-	le.filters = sub.Clone()
+	le.filters = Subscriptions{}
+	le.AddSubscription(sub)
 
 	// initialize tdt.Core
 	le.tdtCore = tdt.NewCore()
-- 
2.43.0


From 739afaf4b439b0f15f95251552a06267b2653dfd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:48 +0000
Subject: [PATCH 33/36] fix: StatManager drops malformed messages instead of
 dying or writing them

---
 monitoring/stat_manager.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/monitoring/stat_manager.go b/monitoring/stat_manager.go
index c4d87de..98e91a7 100644
--- a/monitoring/stat_manager.go
+++ b/monitoring/stat_manager.go
@@ -7,6 +7,7 @@ package monitoring
 
 import (
 	"log"
+	"math"
 	"time"
 
 	_ "github.com/influxdata/influxdb1-client" // this is important because of the bug in go mod
@@ -57,6 +58,9 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 			// create a point
 			switch msg.Type {
 			case Traffic:
+				if len(msg.Value) < 2 {
+					continue
+				}
 				ingress, ok := msg.Value[0].(int64)
 				if !ok {
 					continue
@@ -73,7 +77,14 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 				tags["engine"] = msg.Name
 				measurement = "traffic"
 			case EngineThroughput:
-				fields["event_per_us"] = msg.Value[0]
+				if len(msg.Value) < 1 {
+					continue
+				}
+				throughput, ok := msg.Value[0].(float64)
+				if !ok || math.IsNaN(throughput) || math.IsInf(throughput, 0) {
+					continue
+				}
+				fields["event_per_us"] = throughput
 				tags["engine"] = msg.Name
 				measurement = "throughput"
 			case SelectedEngine:
@@ -90,6 +101,8 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 				}
 				fields["selected"] = engineType
 				measurement = "engine"
+			default:
+				continue
 			}
 			pt, err := client.NewPoint(measurement, tags, fields, time.Now())
 			if err != nil {
-- 
2.43.0


From b07168e18e9dc1511946decb442354ea7b5d00a6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:31 +0000
Subject: [PATCH 34/36] fix: the ticker and the listener of the engine factory
 put engines in service one at a time

---
 filtering/engine_factory.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 953102c..d8a8165 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -26,6 +26,7 @@ type EngineFactory struct {
 	deploymentPriority   map[string]uint8
 	enginePerformance    sync.Map
 	currentEngineName    atomic.Value // string
+	selection            chan bool    // full while an engine is chosen, put in service and announced
 	statInterval         int
 }
 
@@ -58,6 +59,7 @@ func (ef *EngineFactory) Search(re llrp.ReadEvent) (string, []string, error) {
 func NewEngineFactory(sub Subscriptions, statInterval int, mc chan ManagementMessage) *EngineFactory {
 	ef := &EngineFactory{
 		mainChannel:  mc,
+		selection:    make(chan bool, 1),
 		statInterval: statInterval,
 	}
 
@@ -103,6 +105,7 @@ func (ef *EngineFactory) Run() {
 		for {
 			select {
 			case <-intervalTicker.C:
+				ef.selection <- true
 				var ename string
 				perf := float64(0)
 				ef.enginePerformance.Range(func(k, v interface{}) bool {
@@ -117,12 +120,14 @@ func (ef *EngineFactory) Run() {
 					ef.currentEngineName.Store(ename)
 				}
 				if !ef.IsActive() {
+					<-ef.selection
 					continue // no engine to announce yet
 				}
 				ef.mainChannel <- ManagementMessage{
 					Type:       SelectedEngine,
 					EngineName: ef.currentEngine(),
 				}
+				<-ef.selection
 			}
 		}
 	}()
@@ -176,6 +181,7 @@ func (ef *EngineFactory) Run() {
 				*/
 			case OnEngineGenerated:
 				log.Printf("[EngineFactory] received OnEngineGenerated from %s", msg.EngineGeneratorInstance.Engine.Name())
+				ef.selection <- true
 				if len(ef.currentEngine()) == 0 {
 					log.Printf("[EngineFactory] set %s as an initial engine", msg.EngineGeneratorInstance.Name)
 					ef.currentEngineName.Store(msg.EngineGeneratorInstance.Name)
@@ -183,6 +189,7 @@ func (ef *EngineFactory) Run() {
 						Type:       SelectedEngine,
 						EngineName: ef.currentEngine(),
 					}
+					<-ef.selection
 					continue
 				}
 				if ef.deploymentPriority[ef.currentEngine()] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
@@ -192,9 +199,11 @@ func (ef *EngineFactory) Run() {
 						Type:       SelectedEngine,
 						EngineName: ef.currentEngine(),
 					}
+					<-ef.selection
 					continue
 				}
 				log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngine())
+				<-ef.selection
 			case TrafficStatus:
 				ef.mainChannel <- msg // bypass the status message from generators to main
 			case EngineStatus:
-- 
2.43.0


From bfa3185ad7813c7a151bfccdcfecceab5af7691c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:39 +0000
Subject: [PATCH 35/36] fix: decode Subscriptions into a nil map

UnmarshalBinary had a value receiver, so decoding into a nil Subscriptions, e.g. a field of another
structure, panicked instead of storing what had been encoded.
---
 filtering/subscriptions.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index 74a0376..ecd5011 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -82,7 +82,7 @@ func (sub Subscriptions) MarshalBinary() (_ []byte, err error) {
 }
 
 // UnmarshalBinary overwrites the unmarshaller in gob decoding *Subscription
-func (sub Subscriptions) UnmarshalBinary(data []byte) (err error) {
+func (sub *Subscriptions) UnmarshalBinary(data []byte) (err error) {
 	dec := gob.NewDecoder(bytes.NewReader(data))
 
 	// size of subscriptions
@@ -90,6 +90,9 @@ func (sub Subscriptions) UnmarshalBinary(data []byte) (err error) {
 	if err = dec.Decode(&subSize); err != nil {
 		return
 	}
+	if *sub == nil {
+		*sub = make(Subscriptions, subSize)
+	}
 
 	for i := 0; i < subSize; i++ {
 		var fs string
@@ -110,7 +113,7 @@ func (sub Subscriptions) UnmarshalBinary(data []byte) (err error) {
 			}
 			dests = append(dests, dest)
 		}
-		sub[fs] = dests
+		(*sub)[fs] = dests
 	}
 
 	return
-- 
2.43.0


From b540a0ce837a8f9c1c204cf502d390284a3317d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:39 +0000
Subject: [PATCH 36/36] fix: sixenc2bin refuses what it cannot encode

Without an argument it panicked, and characters without a 6-bit code made it print garbage.
---
 scheme/sixenc2bin/main.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/scheme/sixenc2bin/main.go b/scheme/sixenc2bin/main.go
index 09368b8..1029d1a 100644
--- a/scheme/sixenc2bin/main.go
+++ b/scheme/sixenc2bin/main.go
@@ -17,8 +17,17 @@ func sixenc2bin(sixenc []rune) []rune {
 }
 
 func main() {
-	if len(os.Args) < 1 {
-		fmt.Println("Must pass a string input")
+	if len(os.Args) < 2 {
+		fmt.Fprintln(os.Stderr, "Must pass a string input")
+		os.Exit(1)
 	}
-	fmt.Printf(string(sixenc2bin([]rune(os.Args[1]))))
+	sixenc := []rune(os.Args[1])
+	for _, r := range sixenc {
+		// only SPACE to '_' have a 6-bit code
+		if r < ' ' || r > '_' {
+			fmt.Fprintf(os.Stderr, "%q has no 6-bit code\n", r)
+			os.Exit(1)
+		}
+	}
+	fmt.Print(string(sixenc2bin(sixenc)))
 }
-- 
2.43.0

